/* C01: the requester learns exactly the common elements. */
#include "psi.hpp"
using namespace psi;

static void runOnce(World &w, const std::string &note = "") {
  w.acquaint(); w.outsource(0); w.outsource(1); w.request(0, 1);
  checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), w.m[0]->id + note);
  mc::require(w.c(1).getIntersection().length() == 0, "helper-learnt", "the helper's own intersection changed");
  mc::outcome(mc::fmt("%zu common", common(*w.m[0], *w.m[1]).size()));
}
static Elems pick(const Elems &u, int mask) { Elems e; for (size_t i = 0; i < u.size(); i++) if (mask >> i & 1) e.push_back(u[i]); return e; }

/** All pairs of non-empty subsets of the universe, all placements over k buckets */
static void allSets(const Elems &u, std::vector<size_t> ks, bool roles) {
  Cfg c; c.bits = 8; c.k = mc::among(ks);
  std::vector<int> at; for (size_t i = 0; i < u.size(); i++) at.push_back(mc::choose((int) c.k));
  int full = (1 << u.size()) - 1, a = 1 + mc::choose(full), b = 1 + mc::choose(full);
  // exact: the fullest bucket is full to the last place
  size_t most = 1; for (int s : {a, b}) for (size_t j = 0; j < c.k; j++) { size_t n = 0; for (size_t i = 0; i < u.size(); i++) n += (s >> i & 1) && at[i] == (int) j; most = std::max(most, n); }
  c.h = mc::choose(2) ? u.size() + 1 : most;
  World w(c); w.add("Alice", std::string("\0\0\x02", 3)); w.add("Bob", std::string("\0\0\x01", 3));
  for (size_t i = 0; i < u.size(); i++) w.place(u[i], at[i]);
  mc::note(c.show());
  Elems ea = pick(u, a), eb = pick(u, b);
  if (roles && mc::choose(2)) { std::swap(ea, eb); std::reverse(ea.begin(), ea.end()); }
  w.data(0, ea); w.data(1, eb);
  mc::state(c.show() + show(ea) + show(eb) + [&] { std::string s; for (int x : at) s += (char) ('0' + x); return s; }());
  runOnce(w);
}

/** Everything that can be configured, in all combinations of a bounded number of departures from a plain configuration */
static void configurations() {
  Cfg c;
  struct P { long bits; bool low; };
  const std::vector<P> primes = {{64, true}, {64, false}, {65, true}, {72, false}, {80, true}, {96, true}, {113, true}, {113, false}, {127, true}, {128, false}, {129, true}, {200, true}, {251, false}};
  P pr = mc::around(primes, "prime"); c.p = prime(pr.bits, pr.low);
  c.bits = mc::around(std::vector<size_t>{8, 1, 2, 7, 16, 17, 31, 32, 33, 48, 63, 64}, "bits");
  if (c.bits + 36 > (size_t) pr.bits) c.p = prime(c.bits + 41, pr.low);       // room for padding
  c.k = mc::around(std::vector<size_t>{2, 1, 3, 5, 8}, "k");
  c.extra = mc::around(std::vector<size_t>{0, 1, 2, 7}, "extra");
  int algo = mc::deviate(4, "algo");
  size_t slack = mc::around(std::vector<size_t>{0, 1, 3}, "slack");
  static const std::string twelve = "Topsy Kretts", twenty = "twenty bytes secret!", forty(40, '\xff');
  const std::vector<std::string> secA = {std::string("\0\0\x02", 3), "", std::string("\0", 1), "\x05", std::string("\x00\x07", 2), "\xff\xff\xff", std::string("\x01\0\0\0", 4), std::string("\0\0\0\x09", 4), "12345678", std::string("\x80\0\0\0\0\0\0\0\x01", 9), twelve, twenty, std::string(32, '\x7f'), forty};
  const std::vector<std::string> secB = {std::string("\0\0\x01", 3), "", "\x05", std::string("\0\0\x02", 3), std::string("\0\0\0\x02", 4), twelve, twenty, forty};
  std::string sa = mc::around(secA, "secretA"), sb = mc::around(secB, "secretB");
  static const std::string longId(200, 'n');
  struct Ids { std::string a, b, cloud; };
  Ids n = mc::around(std::vector<Ids>{{"Alice", "Bob", "Cloud"}, {"Bob", "Alice", "Cloud"}, {"A", "B", "C"}, {"Al", "Alice", "Alic"}, {"Alice", "Al", "A"}, {longId, longId + "x", "Cloud"}, {"Zoe", "Yan", "Abe"}, {"", "Bob", "Cloud"}, {"Alice", "", "Cloud"}, {"Alice", "Bob", ""}, {"a b", "a\tb", "\xc3\xa9"}}, "ids");
  mc::env().randMode = mc::around(std::vector<int>{0, 1, 2, 3, 4, 5, 6}, "rand");
  int seed = mc::deviate(3, "ntlseed"); if (seed) NTL::SetSeed(NTL::to_ZZ(seed == 1 ? 0 : 987654321));
  unsigned threads = mc::around(std::vector<unsigned>{1, 0, 2, 8}, "threads");
  int pattern = mc::deviate(10, "sets"), order = mc::deviate(3, "order"), minimal = mc::deviate(2, "minimalsecret");
  ZZ top = NTL::power2_ZZ(c.bits) - 1;
  auto range = [&](long from, long n) { Elems e; for (long i = 0; i < n; i++) { ZZ z = NTL::to_ZZ(from + i); if (z <= top) e.push_back(z); } return e; };
  Elems a, b;
  switch (pattern) {
    case 0: a = {NTL::to_ZZ(0), NTL::to_ZZ(1)}; b = {NTL::to_ZZ(0), top}; break;
    case 1: a = range(0, 4); b = range(2, 4); break;
    case 2: a = range(0, 3); b = range(0, 3); break;
    case 3: a = {NTL::to_ZZ(0)}; b = {NTL::to_ZZ(0)}; break;
    case 4: a = {top}; b = {top}; break;
    case 5: a = range(1, 1); b = range(0, 6); break;
    case 6: a = range(0, 2); b = range(2, 6); break;
    case 7: a = range(0, 16); b = range(8, 16); break;
    case 8: a = range(0, 9); b = {NTL::to_ZZ(0)}; break;
    case 9: for (long i = 0; i < (long) c.bits; i++) (i % 2 ? a : b).push_back(NTL::power2_ZZ(i)); a.push_back(NTL::to_ZZ(0)); b.push_back(top); if (a.size() > 1) b.push_back(a[0]); break;
  }
  auto uniq = [](Elems &e) { Elems o; for (auto &z : e) if (std::find(o.begin(), o.end(), z) == o.end()) o.push_back(z); e = o; };
  uniq(a); uniq(b);
  if (b.empty()) b.push_back(NTL::to_ZZ(0));
  if (a.empty()) a.push_back(NTL::to_ZZ(0));
  if (order) { std::reverse(a.begin(), a.end()); if (order == 2) { std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); } }
  // capacity: the load of the fullest bucket (by the library's own table) plus the slack
  {
    c.h = 64;
    World t(c, algo, n.cloud); size_t most = 1;
    for (Elems *e : {&a, &b}) { HashBuckets<ZZ_p> hb(c.k, 64, t.alg.get()); for (auto &z : *e) hb.add(NTL::to_ZZ_p(NTL::LeftShift(z, (long) c.pad()))); for (size_t j = 0; j < c.k; j++) most = std::max(most, hb[j].size()); }
    c.h = most + slack;
  }
  World w(c, algo, n.cloud); w.add(n.a, sa); w.add(n.b, sb);
  mc::note(c.show() + mc::fmt(" algo=%d", algo));
  w.data(0, a, threads); w.data(1, b, threads);
  if (minimal) { w.m[0]->secret = secretBytes(w.c(0).getSecret()); w.m[1]->secret = secretBytes(w.c(1).getSecret()); }
  mc::state(c.show() + show(a) + show(b) + sa + "|" + sb + n.a + mc::fmt("%d %d %d", algo, mc::env().randMode, seed));
  runOnce(w);
}

/** The shapes of the documentation: realistic sizes, each of the hash algorithms */
static void realistic() {
  Cfg c; c.bits = 32; c.p = prime(113);
  struct S { size_t k, h, n, r; }; S s = mc::among(std::vector<S>{{4, 30, 40, 13}, {10, 30, 100, 31}, {1, 20, 20, 20}, {7, 25, 60, 0}});
  int algo = 1 + mc::choose(3); c.k = s.k; c.h = s.h;
  c.extra = mc::choose(2) * 3;
  World w(c, algo); w.add("Alice", std::string("\0\0\x02", 3)); w.add("Bob", "Topsy Kretts");
  Elems a, b; uint64_t x = 12345;
  auto next = [&] { x = x * 6364136223846793005ull + 1442695040888963407ull; return NTL::to_ZZ((long) (x >> 32)); };
  for (size_t i = 0; i < s.r; i++) { ZZ z = next(); a.push_back(z); b.push_back(z); }
  while (a.size() < s.n) a.push_back(next());
  while (b.size() < s.n) b.push_back(next());
  mc::note(c.show());
  w.data(0, a); w.data(1, b);
  mc::state(c.show() + mc::fmt("%d", algo));
  runOnce(w);
}

/** One dimension after the other (thorough: two at a time) made large */
static void scale() {
  Cfg c; c.bits = 32; c.p = prime(96); c.k = 2; c.h = 6; size_t n = 5, shared = 2; std::string a = "Alice", b = "Bob", cloud = "Cloud", sa = std::string("\0\0\x02", 3), sb = "Topsy Kretts"; unsigned threads = 1;
  size_t k = mc::around(std::vector<size_t>{2, 16, 17, 64, 100, 129, 257, 300, 520}, "k");
  size_t h = mc::around(std::vector<size_t>{6, 16, 33, 65, 101, 129}, "h");
  c.extra = mc::around(std::vector<size_t>{0, 16, 60, 130, 300}, "extra");
  size_t many = mc::around(std::vector<size_t>{0, 33, 129, 300, 1100}, "elements");
  size_t sl = mc::around(std::vector<size_t>{0, 20, 21, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}, "secret length");
  size_t il = mc::around(std::vector<size_t>{0, 16, 17, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 5000}, "name length");
  size_t bits = mc::around(std::vector<size_t>{32, 50, 63, 64, 65, 100, 127, 128, 129, 200, 400}, "bits");
  long pb = mc::around(std::vector<long>{0, 250, 256, 257, 512, 1024}, "field"); int all = mc::deviate(3, "overlap");
  if (many) { n = many; shared = many / 3; }
  c.k = k; c.h = h; c.bits = bits; c.p = prime(std::max<long>({96, pb, (long) bits + 50}), !(pb & 1));
  if (h > 6 && !many) n = c.k == 2 ? c.h + c.h / 2 : c.h;             // full to a good part
  if (k > 2 && !many) n = std::max(n, c.k * 2);
  if (many || k > 2) c.h = std::max(c.h, n / c.k + 2);
  if (k > 2 || many) shared = n / 3;
  if (all == 1) shared = n; else if (all == 2) shared = 0;
  if (sl) { sa.assign(sl, '\xa5'); sb.assign(sl, '\x5a'); for (size_t i = 0; i < sl; i++) { sa[i] = (char) (i * 7 + 1); if (!sa[i]) sa[i] = 1; } if (sl > 20) sb = sa.substr(0, sl - 1) + (char) (sa[sl - 1] ^ 3); }
  if (il) { a.assign(il, 'q'); b = a; b[il - 1] = 'r'; cloud.assign(il, 'c'); }
  World w(c, 0, cloud); w.add(a, sa); w.add(b, sb); mc::note(c.show() + mc::fmt(" %zu elements", n));
  // spread evenly over the buckets; values all over the width
  auto value = [&](size_t i) { ZZ z = NTL::to_ZZ((long) i); if (i % 3 == 1) z = NTL::power2_ZZ(c.bits) - 1 - z; else if (i % 3 == 2) z = (NTL::power2_ZZ(c.bits - 1) / 3) + z * 65537; return z; };
  Elems ea, eb; for (size_t i = 0; i < 2 * n - shared; i++) { ZZ z = value(i); w.place(z, (int) (i % c.k & 255)); if (i < n) ea.push_back(z); if (i >= n - shared) eb.push_back(z); }
  if (c.k > 256) { // a placement is one byte: the documented hash takes over
    c.h = 24; w = World(c, 2, cloud); w.add(a, sa); w.add(b, sb);
  }
  w.data(0, ea, threads); w.data(1, eb); mc::state(c.show() + mc::fmt(" %zu %zu %zu %zu", n, shared, sl, il));
  runOnce(w);
}

/** Elements given more than once: all lists, not only sets */
static void repeats() {
  const Elems u = {NTL::to_ZZ(0), NTL::to_ZZ(1), NTL::to_ZZ(255)}; Cfg c; c.bits = 8; c.k = 1 + mc::choose(2); c.h = mc::choose(2) ? 5 : 3; if (mc::thorough()) c.extra = mc::choose(2) * 4;
  Elems a, b; for (Elems *e : {&a, &b}) { int n = 1 + mc::choose(3); for (int i = 0; i < n; i++) e->push_back(u[mc::choose(3)]); }
  World w(c); w.add("Alice", "first"); w.add("Bob", "second secret"); for (size_t i = 0; i < u.size(); i++) w.place(u[i], (int) (i % c.k)); mc::note(c.show() + show(a) + show(b));
  w.data(0, a); w.data(1, b); mc::state(c.show() + show(a) + show(b)); runOnce(w);
}
/** Elements that agree in all but one place: every bit position of wide elements */
static void alike() {
  Cfg c; c.bits = mc::among(mc::thorough() ? std::vector<size_t>{64, 100, 200, 320} : std::vector<size_t>{100, 200}); c.p = prime((long) c.bits + 45, mc::choose(2)); c.k = 2; c.h = 3; int base = mc::choose(3), i = mc::choose((int) c.bits), how = mc::choose(5), apart = mc::choose(2);
  ZZ top = NTL::power2_ZZ((long) c.bits) - 1, x = base == 0 ? NTL::to_ZZ(0) : base == 1 ? top : top / 3 + 17, y = x, z = x; NTL::SwitchBit(y, i); NTL::SwitchBit(z, (i + 64) % (long) c.bits); // x, y and z agree but for one place
  Elems a, b; switch (how) { case 0: a = {x, y}; b = {y, x}; break; case 1: a = {x}; b = {y}; break; case 2: a = {x, y}; b = {x, z}; break; case 3: a = {y, z}; b = {x, z}; break; default: a = {x, y, z}; b = {z, x, y}; }
  World w(c); w.add("Alice", "first"); w.add("Bob", "second secret"); w.place(x, 0); w.place(y, apart); w.place(z, apart); mc::note(c.show() + show(a) + show(b)); w.data(0, a); w.data(1, b); mc::state(c.show() + show(a) + show(b)); runOnce(w);
}
/** Set sizes around powers of two and odd ones, and only some of the elements common: the first, the last, one in the middle, all but one */
static void blocks() {
  size_t n = mc::among(mc::thorough() ? std::vector<size_t>{31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 301, 511, 512, 513, 1023, 1024, 1025} : std::vector<size_t>{63, 64, 65, 127, 129, 255, 256, 257, 258, 259, 301, 511, 513}); int which = mc::choose(5), who = mc::choose(3); if (!mc::thorough() && n > 300 && who == 2) return;
  Cfg c; c.bits = 32; c.p = prime(72); c.k = mc::choose(2) ? 40 : 7; c.h = n / c.k + 2; World w(c); w.add("Alice", "first"); w.add("Bob", "second secret");
  // the element at a place of the one list is at another place of the other; the rest is apart
  std::vector<size_t> common; switch (which) { case 0: common = {0}; break; case 1: common = {n - 1}; break; case 2: common = {n / 2}; break; case 3: common = {n - 2, n - 1}; break; default: for (size_t i = 0; i < n; i++) if (i != n - 1) common.push_back(i); }
  Elems a, b; for (size_t i = 0; i < n; i++) { ZZ x = NTL::to_ZZ((long) (3 * i + 1)), y = NTL::to_ZZ((long) (3 * i + 2)); a.push_back(x); b.push_back(y); w.place(x, (int) (i % c.k)); w.place(y, (int) (i % c.k)); } for (size_t i : common) b[i] = a[i];
  if (who == 1) { std::reverse(b.begin(), b.end()); } else if (who == 2) { a.resize(n / 2 + 1); }
  mc::note(c.show() + mc::fmt(" %zu elements, common %d, order %d", n, which, who)); mc::state(mc::fmt("bl %zu %zu %d %d", c.k, n, which, who)); w.data(0, a); w.data(1, b); runOnce(w);
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C01");
  Elems u4 = {NTL::to_ZZ(0), NTL::to_ZZ(1), NTL::to_ZZ(128), NTL::to_ZZ(255)}, u3 = {NTL::to_ZZ(0), NTL::to_ZZ(254), NTL::to_ZZ(255)}, u5 = {NTL::to_ZZ(0), NTL::to_ZZ(1), NTL::to_ZZ(2), NTL::to_ZZ(128), NTL::to_ZZ(255)};
  s.add("realistic", "documented shapes with each real hash algorithm", realistic);
  s.add("sets3", "all pairs of non-empty subsets of {0,254,255}, all placements over 1-4 buckets, both roles, exact and slack capacity", [=] { allSets(u3, {1, 2, 3, 4}, true); });
  s.add("sets4", "all pairs of non-empty subsets of {0,1,128,255}, all placements over 1-2 (thorough 3) buckets, exact and slack capacity", [=] { allSets(u4, mc::thorough() ? std::vector<size_t>{1, 2, 3} : std::vector<size_t>{1, 2}, mc::thorough()); });
  s.add("repeats", "all pairs of lists of 1-3 elements out of {0,1,255}, elements given twice or three times included, in one or two buckets, exact and slack capacity", repeats);
  s.add("alike", "elements of 100 and 200 (thorough 64 to 320) bits that agree in all but one place: every bit position, 3 values, 5 pairs of sets, in one bucket or apart, 2 fields", alike);
  s.add("configurations", "every combination of at most 2 (thorough 3) departures from a plain configuration", configurations, 2, 3);
  s.add("scale", "every dimension made large, one (thorough two) at a time: 520 buckets, capacity 129, degree 300 above the least, 1100 elements, secrets and names of 5000 bytes, 400-bit elements, 1024-bit fields", scale, 1, 2);
  s.add("blocks", "13 (thorough 20) set sizes of 63 to 513 (31 to 1025), odd ones and around powers of two, where only the first, the last, a middle element, the last two or all but the last are common, in the same order, reversed or against half a set, over 7 and 40 buckets", blocks);
  s.add("sets5", "all pairs of non-empty subsets of {0,1,2,128,255}, all placements over 1-2 buckets", [=] { allSets(u5, {1, 2}, false); }, 0, 0, true);
  s.add("reusedSets3", "`sets3` again where memory is handed out again at once", [=] { allSets(u3, {1, 2, 3, 4}, true); });
  return s.main(argc, argv);
}
