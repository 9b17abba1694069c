/* C03: a result needs both halves and comes out the same in either order. */
#include "psi.hpp"
using namespace psi;

static Elems el(std::initializer_list<long> l) { Elems e; for (long x : l) e.push_back(NTL::to_ZZ(x)); return e; }
/** The halves of every run are kept back and delivered one by one, in every order, between the steps of other runs */
static void orders(int n, int depth, const Cfg &c, int randMode) {
  mc::env().randMode = randMode;
  World w(c);
  const char *names[] = {"Alice", "Bob", "Carol"};
  const std::string secrets[] = {std::string("\0\0\x02", 3), "Topsy Kretts", "\x07"};
  Elems sets[3] = {el({0, 1, 5}), el({1, 5, 7}), el({0, 9})};
  for (int i = 0; i < n; i++) { w.add(names[i], secrets[i]); w.c(i).hold = true; }
  for (long e : {0, 1, 5, 7, 9}) w.place(NTL::to_ZZ(e), (int) (e % c.k));
  for (int i = 0; i < n; i++) w.data(i, sets[i]);
  w.acquaint();
  for (int i = 0; i < n; i++) w.outsource(i);
  Set learnt[3]; int asked[3] = {-1, -1, -1}, completed = 0; std::string h;
  auto look = [&](const std::string &after) {
    for (int i = 0; i < n; i++) {
      vec_ZZ got = w.c(i).getIntersection(); Set g; for (long j = 0; j < got.length(); j++) g.insert(got[j]);
      if (g != learnt[i] || (size_t) got.length() != learnt[i].size())
        mc::fail("wrong-intersection", mc::fmt("after %s: %s holds %s instead of %s", after.c_str(), names[i], psi::show(got).c_str(), psi::show(Elems(learnt[i].begin(), learnt[i].end())).c_str()));
    }
  };
  auto deliver = [&](int i, size_t k) {
    bool cloud = w.c(i).held[k].getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION;
    std::string what = mc::fmt("%s gets the %s's half", names[i], cloud ? "cloud" : "helper"); mc::op(what);
    w.c(i).deliver(k);
    if (w.c(i).held.empty()) { learnt[i] = common(*w.m[i], *w.m[asked[i]]); asked[i] = -1; completed++; }
    look(what); h += mc::fmt("%c%d", cloud ? 't' : 'q', i);
  };
  for (int d = 0; d < depth; d++) {
    struct O { int r, h; size_t k; }; std::vector<O> os;
    for (int i = 0; i < n; i++) {
      if (asked[i] < 0) { for (int j = 0; j < n; j++) if (j != i) os.push_back({i, j, 0}); }
      else for (size_t k = 0; k < w.c(i).held.size(); k++) os.push_back({i, -1, k});
    }
    O o = os[mc::choose((int) os.size())];
    if (o.h >= 0) {
      w.request(o.r, o.h); asked[o.r] = o.h; h += mc::fmt("r%d%d", o.r, o.h);
      mc::require(w.c(o.r).held.size() == 2, "half-missing", mc::fmt("%s's request produced %zu halves instead of two", names[o.r], w.c(o.r).held.size()));
      look(mc::fmt("%s's request", names[o.r]));
    } else deliver(o.r, o.k);
    mc::state(h);
  }
  // what is still under way arrives in the end
  bool rev = false;
  for (int i = 0; i < n; i++) while (!w.c(i).held.empty()) { deliver(i, rev ? w.c(i).held.size() - 1 : 0); rev = !rev; }
  mc::outcome(mc::fmt("%d runs completed", completed));
}
/** Long alternations: every pattern of delivery orders over many runs of one pair */
static void patterns() {
  Cfg c; c.h = 3; World w(c); w.add("Alice", "abc"); w.add("Bob", "z");
  for (long i = 0; i < 4; i++) w.place(NTL::to_ZZ(i), (int) (i % c.k));
  w.data(0, el({0, 1, 2})); w.data(1, el({1, 2, 3})); w.acquaint(); w.outsource(0); w.outsource(1); w.c(0).hold = w.c(1).hold = true;
  int n = mc::thorough() ? 10 : 7; std::string h; Set s;
  for (int i = 0; i < n; i++) {
    int first = mc::choose(2), r = i % 2;
    vec_ZZ before = w.c(r).getIntersection();
    w.request(r, 1 - r); w.c(r).deliver(first); mc::op(first ? "helper first" : "cloud first");
    mc::require(w.c(r).getIntersection() == before, "early-result", "the result changed with half of the answer");
    w.c(r).deliver(0); checkExact(w.c(r).getIntersection(), common(*w.m[0], *w.m[1]), mc::fmt("run %d", i));
    h += (char) ('0' + first); mc::state("p" + h);
  }
  mc::outcome("pattern");
}
/** Long histories: every periodic pattern of delivery orders (period 1-4) and of roles (period 1-3) */
static void longPatterns() {
  Cfg c; c.h = 3; World w(c); w.add("Alice", "abc"); w.add("Bob", "z"); int period = 1 + mc::choose(4), bits = mc::choose(1 << period), rp = 1 + mc::choose(3);
  for (long i = 0; i < 4; i++) w.place(NTL::to_ZZ(i), (int) (i % c.k));
  w.data(0, el({0, 1, 2})); w.data(1, el({1, 2, 3})); w.acquaint(); w.outsource(0); w.outsource(1); w.c(0).hold = w.c(1).hold = true;
  for (int i = 0; i < (mc::thorough() ? 400 : 70); i++) {
    int first = bits >> (i % period) & 1, r = rp == 1 ? 0 : i / (rp - 1) % 2; vec_ZZ before = w.c(r).getIntersection(), other = w.c(1 - r).getIntersection();
    w.request(r, 1 - r); mc::require(w.c(r).held.size() == 2, "half-missing", mc::fmt("run %d", i)); w.c(r).deliver(first);
    mc::require(w.c(r).getIntersection() == before, "early-result", mc::fmt("run %d: the result changed with half of the answer", i));
    w.c(r).deliver(0); checkExact(w.c(r).getIntersection(), common(*w.m[0], *w.m[1]), mc::fmt("run %d", i)); mc::require(w.c(1 - r).getIntersection() == other, "learnt-changed", mc::fmt("run %d", i));
  }
  mc::state(mc::fmt("L%d %d %d", period, bits, rp)); mc::outcome("long");
}
/** Larger configurations and intersections, either half first, one and two runs */
static void large() {
  Cfg c; struct S { size_t k, h, extra; }; S x = mc::among(std::vector<S>{{1, 9, 0}, {16, 3, 0}, {33, 2, 4}, {70, 4, 0}, {2, 34, 0}, {3, 5, 40}}); c.k = x.k; c.h = x.h; c.extra = x.extra; c.bits = 16;
  if (mc::choose(2)) c.p = prime(mc::choose(2) ? 160 : 113);
  World w(c); w.add("Alice", "abc"); w.add("Bob", "z"); Elems a, b; long n = (long) (c.k * c.h); for (long i = 0; i < n + n / 2; i++) { w.place(NTL::to_ZZ(i * 43), (int) (i % c.k)); if (i < n) a.push_back(NTL::to_ZZ(i * 43)); if (i >= n - n / 2 && b.size() < (size_t) n) b.push_back(NTL::to_ZZ(i * 43)); }
  w.data(0, a); w.data(1, b); w.acquaint(); w.outsource(0); w.outsource(1); w.c(0).hold = w.c(1).hold = true;
  for (int i = 0; i < 2; i++) {
    int first = mc::choose(2); vec_ZZ before = w.c(i).getIntersection(); w.request(i, 1 - i); mc::require(w.c(i).held.size() == 2, "half-missing", ""); w.c(i).deliver(first);
    mc::require(w.c(i).getIntersection() == before, "early-result", "the result changed with half of the answer"); w.c(i).deliver(0); checkExact(w.c(i).getIntersection(), common(*w.m[0], *w.m[1]), w.m[i]->id);
  }
  mc::state(c.show()); mc::outcome("large");
}
/** Parties that act while they hear a message: within every delivery, before and after it is heard, another client may start a run, and within that again */
static void nested(int n, int most) {
  Cfg c; c.h = 3; World w(c); const char *names[] = {"Alice", "Bob", "Carol", "Dora"}; const std::string secrets[] = {std::string("\0\0\x02", 3), "Topsy Kretts", "\x07", "d"}; Elems sets[4] = {el({0, 1, 5}), el({1, 5, 7}), el({0, 9, 1}), el({5, 9})};
  for (int i = 0; i < n; i++) w.add(names[i], secrets[i]);
  for (long e : {0, 1, 5, 7, 9}) w.place(NTL::to_ZZ(e), (int) (e % c.k));
  for (int i = 0; i < n; i++) w.data(i, sets[i]);
  w.acquaint(); for (int i = 0; i < n; i++) w.outsource(i);
  int left = most, halves[4] = {0}, asked[4] = {-1, -1, -1, -1}, level = 0; Set learnt[4]; std::string h;
  auto look = [&](const std::string &after) { for (int i = 0; i < n; i++) { vec_ZZ got = w.c(i).getIntersection(); Set g; for (long j = 0; j < got.length(); j++) g.insert(got[j]); if (g != learnt[i] || (size_t) got.length() != learnt[i].size()) mc::fail("wrong-intersection", mc::fmt("%s: after %s: %s holds %s instead of %s", h.c_str(), after.c_str(), names[i], psi::show(got).c_str(), psi::show(Elems(learnt[i].begin(), learnt[i].end())).c_str())); } };
  auto start = [&](int r, int o) { left--; asked[r] = o; halves[r] = 0; level++; h += mc::fmt("(%d%d", r, o); w.request(r, o); level--; h += ")"; mc::require(asked[r] < 0, "half-missing", h + mc::fmt(": %s's request came to %d halves", names[r], halves[r])); look(mc::fmt("the request of %s", names[r])); };
  auto maybe = [&](const char *where) { if (!left || level > 2) return; std::vector<std::pair<int, int>> os; for (int r = 0; r < n; r++) if (asked[r] < 0) for (int o = 0; o < n; o++) if (o != r) os.push_back({r, o}); int k = mc::choose((int) os.size() + 1); h += where; if (k) { mc::op(mc::fmt("meanwhile (%s)", where)); start(os[k - 1].first, os[k - 1].second); } };
  w.cloud->react = [&](const EOPSIMessage *m, bool after) { if (m->getType() == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) maybe(after ? "C" : "c"); };
  for (int i = 0; i < n; i++) w.c(i).react = [&, i](const EOPSIMessage *m, bool after) {
    if (m->getType() == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST) { maybe(after ? "H" : "h"); return; }
    if (after && ++halves[i] == 2) { learnt[i] = common(*w.m[i], *w.m[asked[i]]); asked[i] = -1; } look(mc::fmt("%s heard a half", names[i])); maybe(after ? "R" : "r");
  };
  start(0, 1); mc::state("n" + h); mc::outcome(mc::fmt("nested, %d more runs", most - 1 - left));
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C03");
  Cfg c; c.h = 3;
  Cfg c1; c1.k = 1; c1.h = 3; c1.extra = 3; c1.p = prime(96, false);
  s.add("two", "all interleavings of 7 (thorough 9) requests and deliveries of two clients", [=] { orders(2, mc::thorough() ? 9 : 7, c, 0); });
  s.add("three", "all interleavings of 5 (thorough 6) requests and deliveries of three clients", [=] { orders(3, mc::thorough() ? 6 : 5, c, 0); });
  s.add("bucket", "the same with one bucket, higher degree, 96-bit field, constant rand()", [=] { orders(2, mc::thorough() ? 8 : 6, c1, 1); });
  s.add("patterns", "all patterns of delivery orders over 7 (thorough 10) runs with alternating roles", patterns);
  s.add("long", "70 (thorough 400) runs under every pattern of delivery orders of period 1-4 and three patterns of roles", longPatterns);
  s.add("large", "six larger shapes in three fields, either half first in two runs with swapped roles", large);
  s.add("nested", "up to 4 (thorough 5) runs among three clients, the later ones started while a request or a half is heard by cloud, helper or requester, before or after it: all such histories", [] { nested(3, mc::thorough() ? 5 : 4); });
  s.add("nestedFour", "up to 3 (thorough 4) such runs among four clients", [] { nested(4, mc::thorough() ? 4 : 3); });
  s.add("reusedTwo", "`two` again where memory is handed out again at once", [=] { orders(2, mc::thorough() ? 9 : 7, c, 0); });
  return s.main(argc, argv);
}
