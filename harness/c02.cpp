/* C02: runs are independent of everything that happened before. */
#include "psi.hpp"
using namespace psi;

static Elems el(std::initializer_list<long> l) { Elems e; for (long x : l) e.push_back(NTL::to_ZZ(x)); return e; }

/** Three clients over one cloud; every operation is followed by a look at what each of them has learnt */
static void histories(int variant, int depth, bool more) {
  Cfg c; c.h = 3;
  if (variant == 1) { c.k = 1; c.h = 4; c.extra = 2; c.p = prime(96, false); }
  if (variant == 2) { c.k = 3; c.h = 2; c.p = prime(113); }
  if (variant == 1) mc::env().randMode = 1;
  World w(c);
  const char *names[] = {"Alice", "Bob", "Carol"};
  const std::string secrets[] = {std::string("\0\0\x02", 3), "Topsy Kretts", "\x07"};
  for (int i = 0; i < 3; i++) w.add(names[i], secrets[i]);
  Elems sets[3];
  if (variant == 0) { sets[0] = el({0, 1, 5}); sets[1] = el({1, 5, 7}); sets[2] = el({0, 9}); }
  else if (variant == 1) { sets[0] = el({0, 3}); sets[1] = el({3, 0, 200}); sets[2] = el({255, 0, 3, 9}); }
  else { sets[0] = el({4, 5, 6}); sets[1] = el({6, 7}); sets[2] = el({8, 5}); }
  for (long e : {0, 1, 3, 4, 5, 6, 7, 8, 9, 200, 255}) w.place(NTL::to_ZZ(e), (int) (e % c.k));
  for (int i = 0; i < 3; i++) w.data(i, sets[i]);
  w.acquaint();
  for (int i = 0; i < 3; i++) w.outsource(i);
  Set learnt[3]; std::string h;
  auto look = [&](const std::string &after) {
    for (int i = 0; i < 3; i++) {
      vec_ZZ got = w.c(i).getIntersection(); Set g; for (long j = 0; j < got.length(); j++) g.insert(got[j]);
      if (g != learnt[i] || (size_t) got.length() != learnt[i].size())
        mc::fail("wrong-intersection", mc::fmt("after %s: %s holds %s instead of %s", after.c_str(), names[i], psi::show(got).c_str(), psi::show(Elems(learnt[i].begin(), learnt[i].end())).c_str()));
    }
  };
  auto refused = [&](const std::string &what, std::function<void()> f) {
    mc::op(what);
    try { f(); } catch (ProtocolException &) { mc::outcome("refused"); return; }
    mc::fail("not-refused", what);
  };
  int n = more ? 11 : 9;
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(n); std::string what;
    static const int R[] = {0, 0, 1, 1, 2, 2}, H[] = {1, 2, 0, 2, 0, 1};
    if (o < 6) { w.request(R[o], H[o]); learnt[R[o]] = common(*w.m[R[o]], *w.m[H[o]]); what = mc::fmt("%s asked %s", names[R[o]], names[H[o]]); mc::outcome("run"); }
    else if (o == 6) { what = "Alice's request in Bob's name"; refused(what, [&] { w.request(0, 1, requestBytes("Bob", secrets[1])); }); }
    else if (o == 7) { what = "a request sent to the cloud"; std::string b = requestBytes("Bob", secrets[1]); EOPSIMessage m((void *) b.data(), b.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m.setPartyId("Bob"); refused(what, [&] { w.c(1).send(*w.cloud, &m); }); }
    else if (o == 8) { w.outsource(0); what = "Alice outsourcing again"; }
    else if (o == 9) { what = "an answer from a stranger"; vec_ZZ_p v; v.SetLength(c.degree()); std::vector<vec_ZZ_p> x(c.k, v); EOPSIMessage m(x.data(), 1, EOPSI_MESSAGE_POLYNOMIAL); m.setPartyId("Mallory"); refused(what, [&] { w.c(1).send(w.c(2), &m); }); }
    else { what = "an answer from the cloud through Bob"; vec_ZZ_p v; v.SetLength(c.degree()); std::vector<vec_ZZ_p> x(c.k, v); EOPSIMessage m(x.data(), 1, EOPSI_MESSAGE_OUTPUT_COMPUTATION); m.setPartyId("Bob"); refused(what, [&] { w.c(1).send(w.c(0), &m); }); }
    look(what); h += (char) ('a' + o); mc::state(mc::fmt("%d", variant) + h);
  }
}
/** One pair for many runs, roles swapped by a chosen pattern */
static void longRuns() {
  Cfg c; c.k = mc::among(std::vector<size_t>{1, 2}); int pat = mc::choose(4); c.h = 3;
  Elems a = el({0, 1, 2}), b = el({1, 2, 3});
  World v(c); v.add("Alice", "abc"); v.add("Bob", "z");
  for (long i = 0; i < 4; i++) v.place(NTL::to_ZZ(i), (int) (i % c.k));
  v.data(0, a); v.data(1, b); v.acquaint(); v.outsource(0); v.outsource(1);
  int n = mc::thorough() ? 700 : 140;
  for (int i = 0; i < n; i++) {
    int r = pat == 0 ? 0 : pat == 1 ? i % 2 : pat == 2 ? (i / 2) % 2 : (i * i / 3) % 2;
    v.request(r, 1 - r); checkExact(v.c(r).getIntersection(), common(*v.m[0], *v.m[1]), mc::fmt("run %d of %s", i, v.m[r]->id.c_str()));
    mc::state(mc::fmt("long %zu %d %d", c.k, pat, i));
  }
  mc::outcome("long");
}
/** Many clients over one cloud: every ordered pair runs, in a chosen order, everybody's knowledge watched throughout */
static void crowd() {
  struct S { int n, rounds; }; S z = mc::among(mc::thorough() ? std::vector<S>{{5, 3}, {9, 2}, {17, 1}, {34, 1}} : std::vector<S>{{5, 2}, {9, 1}, {13, 1}}); int order = mc::choose(4);
  Cfg c; c.h = 3; World w(c); for (long i = 0; i < 256; i++) w.place(NTL::to_ZZ(i), (int) (i % 2));
  for (int i = 0; i < z.n; i++) { w.add(mc::fmt(i % 2 ? "Client-%d" : "%d", i), mc::fmt("%d", i * i)); w.data(i, el({2 * (i % 3), 1 + 2 * (i % 5), 100 + i})); }
  w.acquaint(); for (int i = 0; i < z.n; i++) w.outsource(i);
  std::vector<std::pair<int, int>> runs; for (int k = 0; k < z.rounds; k++) for (int i = 0; i < z.n; i++) for (int j = 0; j < z.n; j++) if (i != j) runs.push_back({i, j});
  if (order == 1) std::reverse(runs.begin(), runs.end());
  if (order == 2) std::sort(runs.begin(), runs.end(), [](std::pair<int, int> a, std::pair<int, int> b) { return std::make_tuple(a.second, a.first) < std::make_tuple(b.second, b.first); });
  if (order == 3) std::sort(runs.begin(), runs.end(), [](std::pair<int, int> a, std::pair<int, int> b) { return std::make_tuple((a.second * 7 + a.first) % 11, a.first, a.second) < std::make_tuple((b.second * 7 + b.first) % 11, b.first, b.second); });
  std::vector<Set> learnt(z.n); int n = 0;
  for (auto &r : runs) {
    w.request(r.first, r.second); learnt[r.first] = common(*w.m[r.first], *w.m[r.second]); n++;
    for (int i = 0; i < z.n; i++) checkExact(w.c(i).getIntersection(), learnt[i], mc::fmt("run %d, %s asked %s: %s", n, w.m[r.first]->id.c_str(), w.m[r.second]->id.c_str(), w.m[i]->id.c_str()));
    mc::state(mc::fmt("crowd %d %d %d", z.n, order, n));
  }
  mc::outcome(mc::fmt("%d clients", z.n));
}
/** One pair in the smallest table, for as long as it takes to overflow narrow counters; what they have in common changes in between */
static void eternal() {
  Cfg c; c.k = 1; c.h = 2; c.extra = mc::choose(2); int pat = mc::choose(mc::thorough() ? 2 : 4), n = mc::thorough() ? 4000 : 700; World v(c); v.add("Alice", "abc"); v.add("Bob", "z"); v.add("Carol", "c");
  v.data(0, el({0, 1})); v.data(1, el({1, 2})); v.data(2, el({0, 3})); v.acquaint(); for (int i = 0; i < 3; i++) v.outsource(i);
  for (int i = 0; i < n; i++) {
    int r = pat == 0 ? 0 : pat == 1 ? i % 2 : pat == 2 ? (i % 7 == 0 ? 2 : 0) : (i / 2) % 3, h = pat == 0 ? 1 : pat == 1 ? 1 - i % 2 : pat == 2 ? (r == 2 ? 0 : 1 + (i / 3) % 2) : (r + 1 + i % 2) % 3;
    v.request(r, h); checkExact(v.c(r).getIntersection(), common(*v.m[r], *v.m[h]), mc::fmt("run %d, %s asks %s", i, v.m[r]->id.c_str(), v.m[h]->id.c_str()));
    if (i % 64 == 0) { mc::state(mc::fmt("eternal %zu %d %d", c.extra, pat, i)); for (auto &m : v.m) { m->payloads.clear(); m->c->seen.clear(); } v.cloud->seen.clear(); }
  }
  mc::outcome("eternal");
}
/** Three clients as like as can be: names, secrets and sets that agree at the beginning, at the end, in their letters, sums and sizes */
static void alike() {
  static const char *names[][3] = {{"Al", "Ali", "Alice"}, {"Alice", "Blice", "Clice"}, {"abc", "bca", "cab"}};
  static const char *secrets[][3] = {{"same start--A", "same start--B", "same start--C"}, {"A--same end--", "B--same end--", "C--same end--"}, {"abcdefghijklm", "mlkjihgfedcba", "badcfehgjilkm"}, {"xxxxxxAxxxxxx", "xxxxxxBxxxxxx", "xxxxxxCxxxxxx"}};
  int n = mc::choose(3), z = mc::choose(4); Cfg c; c.p = prime(113); c.h = 3; World w(c); for (long i = 0; i < 16; i++) w.place(NTL::to_ZZ(i), (int) (i % 2));
  for (int i = 0; i < 3; i++) w.add(names[n][i], secrets[z][i]);
  w.data(0, el({1, 4, 9})); w.data(1, el({1, 6, 7})); w.data(2, el({2, 5, 7})); w.acquaint(); for (int i = 0; i < 3; i++) w.outsource(i);
  static const int R[] = {0, 0, 1, 1, 2, 2}, H[] = {1, 2, 0, 2, 0, 1}; Set learnt[3]; std::string h;
  for (int d = 0; d < (mc::thorough() ? 4 : 3); d++) {
    int o = mc::choose(6); h += (char) ('a' + o); w.request(R[o], H[o]); learnt[R[o]] = common(*w.m[R[o]], *w.m[H[o]]);
    for (int i = 0; i < 3; i++) checkExact(w.c(i).getIntersection(), learnt[i], w.m[i]->id + " after " + h);
    mc::state(mc::fmt("alike %d %d ", n, z) + h);
  }
  mc::outcome("alike");
}
/** Two (three) systems of different shape in one process, their parties alike in names and secrets, used alternately */
static void systems() {
  std::vector<Cfg> cs(3); cs[0].k = 2; cs[0].h = 3; cs[0].p = prime(96); cs[1].k = 3; cs[1].h = 2; cs[1].p = prime(64); cs[1].extra = 2; cs[2].k = 2; cs[2].h = 3; cs[2].p = prime(96, false); cs[2].bits = 16; static const int pairs[][2] = {{0, 1}, {0, 2}, {2, 1}, {1, 1}};
  int pair = mc::choose(4), depth = mc::thorough() ? 5 : 4, late = mc::choose(2); std::vector<std::unique_ptr<World>> w; Set learnt[2][2]; std::string h; static const long data[2][2][3] = {{{1, 4, 9}, {9, 6, 4}}, {{1, 6, 2}, {4, 6, 1}}};
  auto make = [&](int i) { Cfg &c = cs[pairs[pair][i]]; w.emplace_back(new World(c)); World &x = *w.back(); for (long e = 0; e < 16; e++) x.place(NTL::to_ZZ(e), (int) (e % (long) c.k)); x.add("Alice", "first secret"); x.add("Bob", "other secret"); for (int j = 0; j < 2; j++) x.data(j, el({data[i][j][0], data[i][j][1], data[i][j][2]})); x.acquaint(); x.outsource(0); x.outsource(1); };
  make(0); if (!late) make(1);
  for (int d = 0; d < depth; d++) {
    if (late && d == 1) make(1); int o = mc::choose(late && d == 0 ? 3 : 6), i = o / 3; h += (char) ('0' + o); o %= 3; ZZ_p::init(w[i]->cfg.p); // two runs and an outsourcing of either system
    if (o == 2) w[i]->outsource(d % 2); else { w[i]->request(o, 1 - o); learnt[i][o] = common(*w[i]->m[o], *w[i]->m[1 - o]); }
    for (size_t x = 0; x < w.size(); x++) for (int y = 0; y < 2; y++) checkExact(w[x]->c(y).getIntersection(), learnt[x][y], mc::fmt("system %zu (%s), client %d after ", x, w[x]->cfg.show().c_str(), y) + h);
    mc::state(mc::fmt("systems %d %d ", pair, late) + h);
  }
  for (int i = 1; i >= 0; i--) if ((size_t) i < w.size()) { ZZ_p::init(w[i]->cfg.p); w[i]->request(0, 1); checkExact(w[i]->c(0).getIntersection(), common(*w[i]->m[0], *w[i]->m[1]), "at last, after " + h); }
  mc::outcome("systems");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C02");
  s.add("histories", "all sequences of 4 (thorough 5) among 6 runs of three clients, 2 refused requests and a re-outsourcing", [] { histories(0, mc::thorough() ? 5 : 4, false); });
  s.add("bucket", "all sequences of 3 (thorough 4) with two more kinds of refused messages; one bucket, higher degree, 96-bit field, constant rand()", [] { histories(1, mc::thorough() ? 4 : 3, true); });
  s.add("disjoint", "all sequences of 3 (thorough 4), some pairs with nothing in common", [] { histories(2, mc::thorough() ? 4 : 3, true); });
  s.add("alike", "three clients alike in names (3 kinds) and secrets (4 kinds): all sequences of 3 (thorough 4) runs", alike);
  s.add("systems", "two systems of different or equal shape and field in one process, parties alike in names and secrets, the second made before or after the first one's first run: all sequences of 4 (thorough 5) runs and outsourcings", systems);
  s.add("long", "140 (thorough 700) runs of one pair under four role patterns", longRuns);
  s.add("crowd", "5, 9 and 13 (thorough to 34) clients: all ordered pairs, in 4 orders", crowd);
  s.add("eternal", "700 (thorough 4000) runs of two or three clients over one small bucket under 4 (2) patterns and 2 degrees", eternal);
  s.add("reusedBucket", "`bucket` again where memory is handed out again at once", [] { histories(1, mc::thorough() ? 4 : 3, true); });
  return s.main(argc, argv);
}
