/* C08: every delegated computation is freshly and fully masked. */
#include "psi.hpp"
#include <NTL/ZZ_pXFactoring.h>
using namespace psi;

static Elems el(std::initializer_list<long> l) { Elems e; for (long x : l) e.push_back(NTL::to_ZZ(x)); return e; }
/** Everything that must never be seen twice, over all runs */
struct Seen1 {
  std::map<ZZ, std::string> values; std::set<ZZ> keys;
  void fresh(const ZZ_p &v, const std::string &what) { auto r = values.insert({rep(v), what}); if (!r.second) mc::fail("mask-repeated", what + " equals " + r.first->second); mc::ops(1); }
};
static ZZ_pX bucketPoly(Member &m, size_t j, const Cfg &c) { const auto &b = (*m.hb)[j]; vec_ZZ_p r; r.SetLength(c.h); for (size_t k = 0; k < c.h; k++) r[k] = b[k]; return NTL::BuildFromRoots(r); }

/** One run, decoded: the key the cloud was given, the polynomials in the difference, and the additive masks of each answer */
static void run(World &w, size_t rq, size_t hp, Seen1 &s, const std::string &name, bool finish = true) {
  const Cfg &c = w.cfg; Client &r = w.c(rq); r.hold = true; size_t asked = w.cloud->seen.size();
  w.request(rq, hp);
  mc::require(r.held.size() == 2, "half-missing", "a request produced no two halves");
  mc::require(w.cloud->seen.size() == asked + 1, "no-request", "the cloud was not asked exactly once");
  const std::string &b = w.cloud->seen.back().bytes, &own = w.m[hp]->id, &partner = w.m[rq]->id; std::string head = own + '\0' + partner + '\0';
  mc::require(b.compare(0, head.size(), head) == 0 && b.size() >= head.size() + 16, "request-format", "the cloud request does not name both parties");
  ZZ key = NTL::ZZFromBytes((const byte *) b.data() + head.size(), 16);
  mc::require(NTL::NumBits(key) == 128, "key-length", mc::fmt("%s: key of %ld bits", name.c_str(), NTL::NumBits(key)));
  mc::require(s.keys.insert(key).second, "key-repeated", name + ": a key is used again");
  vec_ZZ_p *t = nullptr, *q = nullptr; for (auto &m : r.held) (m.getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION ? t : q) = (vec_ZZ_p *) m.getData();
  mc::require(t && q, "half-missing", "not one half of each kind");
  vec_ZZ_p pts = r.points(c.degree());
  const vec_ZZ_p *br = (const vec_ZZ_p *) w.m[rq]->store.getData(), *bh = (const vec_ZZ_p *) w.m[hp]->store.getData();
  for (size_t j = 0; j < c.k; j++) {
    std::string at = name + mc::fmt(" bucket %zu", j);
    mc::require((size_t) t[j].length() == c.degree() && (size_t) q[j].length() == c.degree(), "shape", at);
    vec_ZZ_p d; d.SetLength(c.degree()); for (size_t i = 0; i < c.degree(); i++) d[i] = t[j][i] - q[j][i];
    ZZ_pX D = NTL::interpolate(pts, d), pr = bucketPoly(*w.m[rq], j, c), ph = bucketPoly(*w.m[hp], j, c), g;
    mc::require(NTL::deg(D) == (long) (2 * c.h), "not-monic", at + mc::fmt(": the difference has degree %ld instead of %zu", NTL::deg(D), 2 * c.h));
    mc::require(NTL::LeadCoeff(D) == NTL::to_ZZ_p(2), "not-monic", at + ": the difference is no sum of two monic polynomials of full degree");
    NTL::GCD(g, pr, ph); mc::require(NTL::IsOne(g), "harness", "the sets must be disjoint for decoding");
    ZZ_pX rem = (D % ph) * NTL::InvMod(pr % ph, ph) % ph, wr = ph + rem, wh, left;
    left = D - pr * wr; mc::require(NTL::divide(wh, left, ph), "not-combination", at + ": the difference is no combination of the two bucket polynomials");
    mc::require(NTL::deg(wh) == (long) c.h && NTL::IsOne(NTL::LeadCoeff(wh)) && NTL::deg(wr) == (long) c.h && NTL::IsOne(NTL::LeadCoeff(wr)), "not-monic", at + ": a random polynomial is not monic of the capacity's degree");
    for (size_t i = 0; i < c.h; i++) { s.fresh(NTL::coeff(wr, i), at + mc::fmt(" requester's polynomial, coefficient %zu", i)); s.fresh(NTL::coeff(wh, i), at + mc::fmt(" helper's polynomial, coefficient %zu", i)); }
    for (size_t i = 0; i < c.degree(); i++) {
      ZZ_p er = NTL::eval(wr, pts[i]), eh = NTL::eval(wh, pts[i]), u = t[j][i] - br[j][i] * er - bh[j][i] * eh;
      ZZ_p mr = br[j][i] - NTL::eval(pr, pts[i]), mh = bh[j][i] - NTL::eval(ph, pts[i]);
      mc::require(q[j][i] == u + mr * er + mh * eh, "masks-differ", at + mc::fmt(" position %zu: the answers carry different additive masks", i));
      mc::require(!NTL::IsZero(u), "unmasked", at); s.fresh(u, at + mc::fmt(" additive mask %zu", i));
    }
  }
  if (!finish) return;   // finding the roots is the longest part; C01 is about them
  r.hold = false; while (!r.held.empty()) r.deliver(0);
  checkExact(r.getIntersection(), common(*w.m[rq], *w.m[hp]), name);
}
static void setUp(World &w, int n) {
  const char *names[] = {"Alice", "Bob", "Carol"}; const std::string secrets[] = {std::string("\0\0\x02", 3), "Topsy Kretts", "\x07"};
  Elems sets[3] = {el({0, 1, 5}), el({2, 7}), el({9, 200})};
  for (long e : {0, 1, 2, 5, 7, 9, 200}) w.place(NTL::to_ZZ(e), (int) (e % w.cfg.k));
  for (int i = 0; i < n; i++) { w.add(names[i], secrets[i]); Elems e; std::vector<size_t> load(w.cfg.k, 0); for (auto &z : sets[i]) if (load[NTL::to_long(z) % w.cfg.k]++ < w.cfg.h) e.push_back(z); w.data(i, e); }
  w.acquaint(); for (int i = 0; i < n; i++) w.outsource(i);
}
/** Sequences of runs among three clients */
static void histories() {
  Cfg c; c.h = 2; c.k = mc::among(std::vector<size_t>{1, 2}); c.p = mc::choose(2) ? prime(113) : prime(64); c.extra = mc::choose(2) * 2; if (c.k == 1) c.h = 3;
  mc::env().randMode = mc::among(std::vector<int>{0, 5}); World w(c); setUp(w, 3); Seen1 s; std::string h; int depth = mc::thorough() ? 4 : 3;
  static const int R[] = {0, 0, 1, 1, 2, 2}, H[] = {1, 2, 0, 2, 0, 1};
  for (int d = 0; d < depth; d++) { int o = mc::choose(6); run(w, R[o], H[o], s, mc::fmt("run %d", d + 1)); h += (char) ('0' + o); mc::state(c.show() + h); }
  mc::outcome(mc::fmt("%zu values", s.values.size()));
}
/** All table shapes, degrees and fields */
static void shapes() {
  Cfg c; c.k = mc::among(std::vector<size_t>{1, 2, 3, 7}); c.h = mc::among(std::vector<size_t>{1, 2, 3, 5}); c.extra = mc::among(std::vector<size_t>{0, 1, 4});
  c.p = mc::among(std::vector<ZZ>{prime(64), prime(64, false), prime(96), prime(128, false), prime(160), prime(251)}); mc::note(c.show());
  World w(c); setUp(w, 2); Seen1 s; run(w, 0, 1, s, "first run"); run(w, 1, 0, s, "second run"); mc::state(c.show()); mc::outcome(mc::fmt("%zu buckets", c.k));
}
/** Keys: always of full length and never the same again, whatever the state of the random generators */
static void keys() {
  Cfg c; c.k = 1; c.h = 2; int mode = mc::choose(5), seed = mc::choose(4); mc::env().randMode = mode;
  if (seed) NTL::SetSeed(NTL::to_ZZ(seed == 1 ? 0 : seed == 2 ? 1 : 424242));
  World w(c); setUp(w, 2); std::set<ZZ> ks; int n = mc::thorough() ? 4000 : 1200; std::vector<int> ones(128, 0);
  for (int i = 0; i < n; i++) {
    w.request(i % 2, 1 - i % 2); const std::string &b = w.cloud->seen.back().bytes; size_t head = w.m[1 - i % 2]->id.size() + w.m[i % 2]->id.size() + 2;
    mc::require(b.size() >= head + 16, "request-format", "too short"); ZZ key = NTL::ZZFromBytes((const byte *) b.data() + head, 16);
    mc::require(NTL::NumBits(key) == 128, "key-length", mc::fmt("key %d has %ld bits", i, NTL::NumBits(key))); mc::require(ks.insert(key).second, "key-repeated", mc::fmt("key %d", i));
    for (int k = 0; k < 128; k++) ones[k] += NTL::bit(key, k);
  }
  for (int k = 0; k < 127; k++) mc::require(ones[k] > 0 && ones[k] < n, "key-bits", mc::fmt("bit %d of %d keys never changes", k, n));
  mc::state(mc::fmt("keys %d %d", mode, seed)); mc::outcome("keys");
}
/** One run over many buckets or large ones */
static void large() {
  struct S { size_t k, h, extra; }; S x = mc::among(mc::thorough() ? std::vector<S>{{14000, 2, 0}, {300, 3, 0}, {2, 70, 0}, {1, 150, 0}, {3, 2, 140}, {66000, 1, 0}, {33000, 2, 0}, {4, 2, 400}} : std::vector<S>{{14000, 2, 0}, {300, 3, 0}, {2, 70, 0}, {1, 130, 0}, {3, 2, 140}});
  Cfg c; c.p = prime(113); c.k = x.k; c.h = x.h; c.extra = x.extra; mc::note(c.show()); World w(c); setUp(w, 2); Seen1 s; const bool small = c.k * c.degree() < 1000; run(w, 0, 1, s, "first run", small); if (small) run(w, 1, 0, s, "second run"); mc::state(c.show()); mc::outcome("large");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C08");
  s.add("histories", "all sequences of 3 (thorough 4) runs among three clients, 2 shapes x 2 degrees x 2 fields x 2 behaviours of rand(): every value decoded", histories);
  s.add("shapes", "4 x 4 table shapes, 3 degrees, 6 fields, two runs each", shapes);
  s.add("keys", "1200 (thorough 4000) keys under 5 behaviours of rand() and 4 seeds of the field library's generator", keys);
  s.add("large", "5 (thorough 8) larger shapes: to 14000 (66000) buckets, capacity 130 (150), degree 145 (405): every value decoded", large);
  s.add("reusedShapes", "`shapes` again where memory is handed out again at once", shapes);
  s.add("reusedHistories", "`histories` again where memory is handed out again at once", histories);
  return s.main(argc, argv);
}
