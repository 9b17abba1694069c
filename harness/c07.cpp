/* C07: outsourced data has a data-independent shape and unrepeated masks. */
#include "psi.hpp"
using namespace psi;

typedef std::vector<std::vector<ZZ_p>> Masks;
static std::vector<std::string> secretsOf() { return {std::string("\0\0\x02", 3), "\x02", "", std::string("\0\x01", 2), "Topsy Kretts", "Topsy Krettt", "\xff\xff\xff\xff\xff\xff\xff"}; }

/** What the client outsourced: shape, full buckets, and the masks that remain when the polynomials are taken away */
static Masks examine(World &w, size_t i) {
  Member &x = *w.m[i]; const Cfg &c = w.cfg; const char *id = x.id.c_str();
  vec_ZZ_p *b = x.c->getBlindedData(); mc::require(b != nullptr, "shape", "nothing to outsource");
  mc::require(x.c->getBlindedDataSize() == c.degree() * c.k, "shape", mc::fmt("%s: size %zu instead of %zu", id, x.c->getBlindedDataSize(), c.degree() * c.k));
  vec_ZZ_p pts = x.c->points(c.degree()); mc::require((size_t) pts.length() == c.degree(), "points", mc::fmt("%ld evaluation points", pts.length()));
  std::set<ZZ> ps; for (long j = 0; j < pts.length(); j++) ps.insert(rep(pts[j])); mc::require(ps.size() == c.degree(), "points", "evaluation points repeat");
  Masks m(c.k); std::map<ZZ, int> want; for (auto &e : x.data) want[NTL::LeftShift(e, (long) c.pad())]++;
  for (size_t j = 0; j < c.k; j++) {
    mc::require((size_t) b[j].length() == c.degree(), "shape", mc::fmt("%s: vector %zu has %ld values", id, j, b[j].length()));
    const auto &bucket = (*x.hb)[j];
    mc::require(bucket.size() == c.h, "not-full", mc::fmt("%s: bucket %zu holds %zu of %zu", id, j, bucket.size(), c.h));
    vec_ZZ_p roots; roots.SetLength(c.h); std::set<ZZ> fill; for (size_t k = 0; k < c.h; k++) { roots[k] = bucket[k]; auto f = want.find(rep(roots[k])); if (f != want.end() && f->second > 0) f->second--; else mc::require(fill.insert(rep(roots[k])).second, "fill", mc::fmt("%s: bucket %zu is filled up with one value twice", id, j)); }
    ZZ_pX p = NTL::BuildFromRoots(roots);
    for (size_t k = 0; k < c.degree(); k++) m[j].push_back(b[j][k] - NTL::eval(p, pts[k]));
    mc::ops(c.degree());
  }
  for (auto &f : want) mc::require(f.second == 0, "element-lost", mc::fmt("%s: %s is in no bucket", id, mc::str(f.first).c_str()));
  std::map<ZZ, std::string> seen;
  for (size_t j = 0; j < c.k; j++) for (size_t k = 0; k < c.degree(); k++) { auto r = seen.insert({rep(m[j][k]), mc::fmt("[%zu][%zu]", j, k)}); if (!r.second) mc::fail("mask-repeated", mc::fmt("%s: masks %s and [%zu][%zu] are equal", id, r.first->second.c_str(), j, k)); }
  vec_ZZ_p cp = w.cloud->points(c.degree()); mc::require(cp == pts, "points", "the cloud's evaluation points are others");
  return m;
}
static std::string show(const std::string &s) { std::string o; for (unsigned char c : s) o += mc::fmt("%02x", c); return o; }
static Cfg shape(int extraPrimes) {
  Cfg c; c.p = mc::among(extraPrimes ? std::vector<ZZ>{prime(64), prime(96, false), prime(113), prime(128), prime(160, false)} : std::vector<ZZ>{prime(64), prime(113)});
  return c;
}
/** Every set over every placement outsources under the same masks as any other */
static void layouts() {
  Cfg c = shape(0); c.k = mc::among(std::vector<size_t>{1, 2, 3}); c.extra = mc::choose(2) * 2;
  Elems u = {NTL::to_ZZ(0), NTL::to_ZZ(1), NTL::to_ZZ(255)}; int mask = 1 + mc::choose(7); std::vector<int> at; for (int i = 0; i < 3; i++) at.push_back(mc::choose((int) c.k));
  std::vector<size_t> load(c.k, 0); Elems e; for (int i = 0; i < 3; i++) if (mask >> i & 1) { e.push_back(u[i]); load[at[i]]++; }
  size_t most = *std::max_element(load.begin(), load.end()); c.h = most + mc::choose(2);
  World w(c); for (int i = 0; i < 3; i++) w.place(u[i], at[i]);
  w.add("Alice", "abc"); w.add("Bob", "abc"); w.add("Carol", "abd"); mc::note(c.show());
  w.data(0, e); Masks a = examine(w, 0);
  w.data(1, {u[0]}); Masks b = examine(w, 1);
  w.data(2, e); Masks d = examine(w, 2);
  mc::require(a == b, "mask-depends", "the masks of one secret depend on the data or the name");
  for (size_t j = 0; j < c.k; j++) for (size_t k = 0; k < c.degree(); k++) mc::require(a[j][k] != d[j][k], "mask-shared", mc::fmt("[%zu][%zu]: clients with different secrets share a mask", j, k));
  std::string pl; for (int x : at) pl += (char) ('0' + x);
  mc::state(c.show() + psi::show(e) + pl); mc::outcome(mc::fmt("%zu elements", e.size()));
}
/** All shapes and all pairs of secrets, threads, hash algorithms and behaviours of rand() */
static void secrets() {
  Cfg c = shape(mc::thorough() ? 1 : 0); static const std::vector<std::string> ss = secretsOf();
  c.k = mc::among(std::vector<size_t>{1, 2, 5}); c.h = mc::among(std::vector<size_t>{1, 2, 4}); c.extra = mc::among(std::vector<size_t>{0, 1, 5});
  int a = mc::choose((int) ss.size()), b = mc::choose((int) ss.size()); unsigned threads = mc::around(std::vector<unsigned>{1, 0, 2, 3, 64}); mc::env().randMode = mc::around(std::vector<int>{0, 1, 2, 3, 6});
  int algo = mc::deviate(4); if (algo) c.h = std::max<size_t>(c.h, 3);
  World w(c, algo); w.add("Alice", ss[a]); w.add("Bob", ss[b]); mc::note(c.show() + mc::fmt(" secrets %s %s", show(ss[a]).c_str(), show(ss[b]).c_str()));
  if (!algo) { w.place(NTL::to_ZZ(7), 0); w.place(NTL::to_ZZ(9), (int) c.k - 1); }
  w.data(0, {NTL::to_ZZ(7)}, threads); w.data(1, {NTL::to_ZZ(9)}); Masks x = examine(w, 0), y = examine(w, 1);
  bool same = NTL::ZZFromBytes((const byte *) ss[a].data(), ss[a].size()) == NTL::ZZFromBytes((const byte *) ss[b].data(), ss[b].size());
  for (size_t j = 0; j < c.k; j++) for (size_t k = 0; k < c.degree(); k++)
    if ((x[j][k] == y[j][k]) != same) mc::fail(same ? "mask-depends" : "mask-shared", mc::fmt("[%zu][%zu]: masks of secrets %s and %s are %s", j, k, show(ss[a]).c_str(), show(ss[b]).c_str(), same ? "different" : "equal"));
  mc::state(c.show() + mc::fmt("%d %d %u %d", a, b, threads, algo)); mc::outcome(same ? "same secret" : "different secrets");
}
/** Nothing of the field is left unmasked: over a whole vector every bit of the masks takes both values; no other secret's masks reappear elsewhere */
static void spread() {
  Cfg c = shape(1); c.k = 12; c.h = 4; c.extra = mc::choose(2) * 3; static const std::vector<std::string> ss = secretsOf(); std::map<ZZ, std::string> seen;
  World w(c);
  w.place(NTL::to_ZZ(3), 1); long nb = NTL::NumBits(c.p); const char *names[] = {"a", "b", "c", "d", "e", "f"};
  for (int i = 0; i < 6; i++) {
    w.add(names[i], ss[i + (i > 0)]); w.data(i, {NTL::to_ZZ(3)}); Masks m = examine(w, i); std::vector<int> ones(nb, 0); int n = 0;
    for (auto &v : m) for (auto &z : v) { n++; for (long k = 0; k < nb; k++) ones[k] += NTL::bit(rep(z), k); auto r = seen.insert({rep(z), names[i]}); mc::require(r.second, "mask-shared", mc::fmt("%s and %s use one mask", r.first->second.c_str(), names[i])); }
    for (long k = 0; k < nb - 1; k++) mc::require(ones[k] > 0 && ones[k] < n, "mask-bits", mc::fmt("bit %ld of %s's %d masks never changes", k, names[i], n));
  }
  mc::state(c.show()); mc::note(c.show()); mc::outcome("spread");
}
/** Many buckets, long vectors and full buckets: no mask repeats anywhere, none is shared, the same secret gives the same masks */
static void large() {
  struct S { size_t k, h, extra; }; S x = mc::among(mc::thorough() ? std::vector<S>{{14000, 2, 0}, {40, 20, 1719}, {3, 1, 44000}, {300, 40, 0}, {52000, 1, 0}, {300000, 1, 0}, {2, 400, 0}, {257, 1, 300}} : std::vector<S>{{14000, 2, 0}, {40, 20, 1719}, {3, 1, 23000}, {300, 40, 0}, {257, 1, 20}});
  Cfg c; c.p = mc::thorough() && mc::choose(2) ? prime(160, false) : prime(113); c.k = x.k; c.h = x.h; c.extra = x.extra; World w(c, 1); mc::note(c.show());
  w.add("Alice", "abc"); w.add("Bob", "abd"); w.data(0, c.h > 1 ? Elems{NTL::to_ZZ(0), NTL::to_ZZ(77)} : Elems{NTL::to_ZZ(0)}); w.data(1, {NTL::to_ZZ(255)});
  Masks a = examine(w, 0), b = examine(w, 1); std::set<ZZ> seen;
  for (auto &v : a) for (auto &z : v) seen.insert(rep(z));
  for (size_t j = 0; j < c.k; j++) for (size_t k = 0; k < c.degree(); k++) if (seen.count(rep(b[j][k]))) mc::fail("mask-shared", mc::fmt("[%zu][%zu]: clients with different secrets share a mask", j, k));
  if (c.k * c.degree() <= 60000) { w.add("Carol", "abc"); w.data(2, {NTL::to_ZZ(3)}, 4); mc::require(examine(w, 2) == a, "mask-depends", "the masks of one secret depend on the data or the name"); }
  mc::state(c.show()); mc::outcome("large");
}
/** No bit of the secret is idle: clients whose secrets differ in one bit share no mask; nor do those whose elements differ get others */
static void alike() {
  Cfg c; c.p = mc::among(std::vector<ZZ>{prime(113), prime(160, false)}); c.k = 2; c.h = 2; c.extra = 1; size_t n = mc::among(std::vector<size_t>{1, 3, 12, 14}), bit = (size_t) mc::choose((int) n * 8); int base = mc::choose(mc::thorough() ? 4 : 3);
  std::string s(n, base == 0 ? '\x81' : base == 1 ? '\0' : '\x7e'), t; if (base == 3) for (size_t i = 0; i < n; i++) s[i] = (char) (37 * i + 11); t = s; t[bit / 8] = (char) (t[bit / 8] ^ 1 << bit % 8);
  ZZ a = NTL::ZZFromBytes((const byte *) s.data(), n), b = NTL::ZZFromBytes((const byte *) t.data(), n); if (a >= c.p || b >= c.p) { mc::outcome("secret beyond the field"); return; }
  World w(c); w.add("Alice", s); w.add("Bob", t); w.place(NTL::to_ZZ(7), 0); w.place(NTL::to_ZZ(9), 1); w.data(0, {NTL::to_ZZ(7)}); w.data(1, {NTL::to_ZZ(9)}); Masks x = examine(w, 0), y = examine(w, 1); mc::note(c.show() + mc::fmt(" secrets %s %s", show(s).c_str(), show(t).c_str())); std::set<ZZ> seen; for (auto &v : x) for (auto &z : v) seen.insert(rep(z));
  for (size_t j = 0; j < c.k; j++) for (size_t k = 0; k < c.degree(); k++) if (seen.count(rep(y[j][k]))) mc::fail("mask-shared", mc::fmt("[%zu][%zu]: clients whose secrets %s and %s differ in bit %zu share a mask", j, k, show(s).c_str(), show(t).c_str(), bit));
  mc::state(c.show() + show(s) + show(t)); mc::outcome("alike secrets");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C07");
  s.add("layouts", "all subsets of three elements, all placements over 1-3 buckets, exact and slack capacity, 2 fields", layouts);
  s.add("secrets", "27 shapes x 49 pairs of secrets x 2 (thorough 5) fields, at most 1 (thorough 2) departures in threads, rand(), hash algorithm", secrets, 1, 2);
  s.add("spread", "six clients' masks in five fields, bit by bit", spread);
  s.add("alike", "secrets of 1, 3, 12 and 14 bytes of 3 (thorough 4) kinds that differ in one bit, every one of them, in two fields", alike);
  s.add("large", "5 (thorough 8 in 2 fields) shapes with up to 70000 (900000) masks: many buckets, full buckets, long vectors", large);
  s.add("reusedLayouts", "`layouts` again where memory is handed out again at once", layouts);
  return s.main(argc, argv);
}
