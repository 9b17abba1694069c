/* C14: root extraction returns exactly the properly padded roots. */
#include "psi.hpp"
#include "zzppoly.h"
using namespace psi;

typedef std::vector<std::set<ZZ>> Want;   // the answers, polynomial by polynomial
static std::string showP(const ZZ_pX &f) { return mc::str(f) + " mod " + mc::str(ZZ_p::modulus()); }
/** got must be the sets one after another, each in any order */
static void expect(const vec_ZZ &got, const Want &want, const std::string &what) {
  long at = 0;
  for (size_t j = 0; j < want.size(); j++) {
    std::set<ZZ> g; for (size_t k = 0; k < want[j].size(); k++, at++) if (at < got.length()) g.insert(got[at]);
    if (g != want[j]) mc::fail("wrong-roots", what + mc::fmt(": polynomial %zu of %zu: ", j + 1, want.size()) + psi::show(got) + ", expected there " + psi::show(Elems(want[j].begin(), want[j].end())));
  }
  if (at != got.length()) mc::fail("wrong-roots", what + ": too many: " + psi::show(got));
}
static vec_ZZ_p pointsOf(size_t n, int kind) { vec_ZZ_p x; x.SetLength(n); for (size_t i = 0; i < n; i++) x[i] = kind == 0 ? NTL::to_ZZ_p((long) i) : kind == 1 ? NTL::to_ZZ_p(-(long) i - 1) : NTL::to_ZZ_p((long) i) * NTL::to_ZZ_p(7919) + NTL::to_ZZ_p(2); return x; }
static const PolynomialFactoringAlgorithm algs[] = {PFA_CANZASS, PFA_BERLEKAMP};

static vec_ZZ extract(ZZpPolynomials &z, std::vector<ZZ_pX> fs, size_t npts, int kind, int style, int alg) {
  vec_ZZ_p x = pointsOf(npts, kind); std::vector<vec_ZZ_p> y(fs.size()); for (size_t j = 0; j < fs.size(); j++) NTL::eval(y[j], fs[j], x);
  mc::ops(1);
  if (style == 0) return alg == 2 ? z.findIntersection(x, y.data(), fs.size()) : z.findIntersection(x, y.data(), fs.size(), algs[alg]);
  if (style == 1) { z.interpolate(x, y.data(), fs.size()); z.factorise(algs[alg % 2]); return z.findIntersection(); }
  z.interpolate(x, y.data(), fs.size(), false); z.makeMonic(); if (alg == 2) z.factorise(); else z.factorise(algs[alg]); return z.findIntersection();
}
/** All polynomials over small fields, against trying out every element */
static void small(int maxDeg) {
  static const std::vector<long> primes = {3, 5, 7, 11, 13};
  long p = mc::among(primes); size_t pad = mc::choose(5); int style = mc::choose(3), alg = mc::choose(2), deg = mc::choose(std::min(maxDeg, (int) p - 1) + 1); long lead = 1 + mc::choose((int) p - 1);
  ZZ_p::init(NTL::to_ZZ(p)); long total = 1; for (int i = 0; i < deg; i++) total *= p;
  ZZpPolynomials z(pad); mc::require(z.getPadsize() == pad, "wrong-padsize", "getPadsize()");
  for (long v = 0; v < total; v++) {
    ZZ_pX f; long r = v; for (int i = 0; i < deg; i++, r /= p) NTL::SetCoeff(f, i, NTL::to_ZZ_p(r % p)); NTL::SetCoeff(f, deg, NTL::to_ZZ_p(lead));
    Want w(1); for (long e = 0; e < p; e++) if (e % (1 << pad) == 0 && NTL::IsZero(NTL::eval(f, NTL::to_ZZ_p(e)))) w[0].insert(NTL::to_ZZ(e >> pad));
    size_t npts = std::min<long>(p, deg + 1 + v % 3);
    vec_ZZ g = extract(z, {f}, npts, v % 2, style, alg);
    expect(g, w, mc::fmt("%s pad %zu style %d algorithm %d: ", showP(f).c_str(), pad, style, alg)); mc::require(z.size() == 1, "wrong-size", "size()");
  }
  mc::note(mc::fmt("all polynomials of degree %d with leading coefficient %ld modulo %ld, pad %zu", deg, lead, p, pad)); mc::state(mc::fmt("%ld %zu %d %d %d %ld", p, pad, style, alg, deg, lead)); mc::outcome(mc::fmt("degree %d", deg));
}
struct Field { ZZ p, nonres; };
static ZZ nonResidue(const ZZ &p) { for (long a = 2;; a++) if (NTL::Jacobi(NTL::to_ZZ(a), p) == -1) return NTL::to_ZZ(a); }
/** The factors polynomials are made of: a padded or other root, or none */
static std::vector<std::pair<ZZ_pX, int>> factors(size_t pad, Elems &roots) {
  const ZZ &p = ZZ_p::modulus(); std::vector<std::pair<ZZ_pX, int>> fs; ZZ top = (p - 1) >> (long) pad; ZZ one = NTL::to_ZZ(1);
  roots = {NTL::to_ZZ(0), one << (long) pad, NTL::to_ZZ(3) << (long) pad, top << (long) pad};
  if (pad > 0) { roots.push_back(one << (long) (pad - 1)); roots.push_back(p - 1); roots.push_back((NTL::to_ZZ(5) << (long) pad) + 1); }
  for (size_t i = 0; i < roots.size(); i++) { ZZ_pX f; NTL::SetCoeff(f, 1, NTL::to_ZZ_p(1)); NTL::SetCoeff(f, 0, NTL::to_ZZ_p(-roots[i])); fs.push_back({f, (int) i}); }
  ZZ_pX q; NTL::SetCoeff(q, 2, NTL::to_ZZ_p(1)); NTL::SetCoeff(q, 0, NTL::to_ZZ_p(-nonResidue(p))); fs.push_back({q, -1});
  ZZ_pX s; NTL::SetX(s); ZZ_pX q2 = NTL::sqr(s + NTL::to_ZZ_p(1)) - NTL::to_ZZ_p(nonResidue(p)); fs.push_back({q2, -1});
  return fs;
}
/** All products of a bounded number of factors in a large field */
static void products(int most) {
  static const std::vector<ZZ> ps = {prime(64), prime(113, false), prime(20)}; const ZZ &p = mc::among(ps); ZZ_p::init(p); size_t nb = NTL::NumBits(p);
  size_t pad = mc::among(std::vector<size_t>{0, 1, 8, nb - 9, nb - 3}); int style = mc::choose(3), alg = mc::choose(3), lead = mc::choose(2); Elems roots; auto fs = factors(pad, roots);
  ZZ_pX f; NTL::set(f); if (lead) f *= NTL::to_ZZ_p(p - 2); Want w(1); std::string h; int from = 0, n = 0;
  while (n < most) { int o = mc::choose((int) fs.size() - from + 1); if (!o) break; from += o - 1; f *= fs[from].first; n++; h += mc::fmt("%d,", from); if (fs[from].second >= 0) { const ZZ &r = roots[fs[from].second]; if (NTL::trunc_ZZ(r, pad) == 0) w[0].insert(r >> (long) pad); } }
  ZZpPolynomials z(pad); size_t npts = NTL::deg(f) + 1 + mc::choose(2) * 2; int kind = n % 3;
  mc::note(mc::fmt("pad %zu, factors %s", pad, h.c_str()));
  expect(extract(z, {f}, npts, kind, style, alg), w, showP(f)); mc::state(mc::fmt("%zu %zu %d %d %d ", nb, pad, style, alg, lead) + h); mc::outcome(mc::fmt("%zu roots", w[0].size()));
}
/** One object for any sequence of batches, staged, in one shot, or both mixed up */
static void histories() {
  static const ZZ p = prime(64); ZZ_p::init(p); const size_t pad = 40; Elems roots; auto fs = factors(pad, roots);
  static const std::vector<std::vector<std::vector<int>>> batches = {{}, {{1}}, {{2, 3}}, {{0}, {1, 1, 4}}, {{7}, {2}}, {{5}, {0, 2}, {}}, {{3}, {3}, {3}}, {{1, 2, 3}, {7, 8}, {6}, {0, 0, 1}}};
  auto make = [&](int b, std::vector<ZZ_pX> &f, Want &w) { f.clear(); w.clear(); for (auto &c : batches[b]) { ZZ_pX g; NTL::set(g); std::set<ZZ> s; for (int k : c) { g *= fs[k].first; if (fs[k].second >= 0 && NTL::trunc_ZZ(roots[fs[k].second], pad) == 0) s.insert(roots[fs[k].second] >> (long) pad); } f.push_back(g * NTL::to_ZZ_p(b + 1)); w.push_back(s); } };
  bool all = mc::thorough(); int depth = 4; ZZpPolynomials z(pad); std::vector<ZZ_pX> cur; Want polys, facts; bool have = false, factored = false, ever = false; std::string h;
  std::vector<int> bs = all ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 3, 4, 5};
  for (int d = 0; d < depth; d++) {
    int n = (int) bs.size(), o = mc::choose(2 * n + 2); std::string what;
    vec_ZZ_p x = pointsOf(9, d % 3); std::vector<vec_ZZ_p> y;
    auto values = [&] { y.resize(cur.size()); for (size_t j = 0; j < cur.size(); j++) NTL::eval(y[j], cur[j], x); };
    if (o < n) { make(bs[o], cur, polys); values(); what = mc::fmt("findIntersection(batch of %zu)", cur.size()); mc::op(what); vec_ZZ g = d % 2 ? z.findIntersection(x, y.data(), cur.size(), PFA_BERLEKAMP) : z.findIntersection(x, y.data(), cur.size()); expect(g, polys, what); facts = polys; have = factored = ever = true; }
    else if (o < 2 * n) { make(bs[o - n], cur, polys); values(); what = mc::fmt("interpolate(batch of %zu)", cur.size()); mc::op(what); z.interpolate(x, y.data(), cur.size()); have = true; factored = false; }
    else if (o == 2 * n) { what = "factorise()"; mc::op(what); if (d % 2) z.factorise(); else z.factorise(PFA_BERLEKAMP); if (have) { facts = polys; factored = ever = true; } }
    else { what = "findIntersection()"; if (!factored && ever) continue; mc::op(what); expect(z.findIntersection(), factored ? facts : Want(), what); }
    mc::require(z.size() == cur.size(), "wrong-size", mc::fmt("%s: size() is %zu instead of %zu", what.c_str(), z.size(), cur.size())); h += (char) ('A' + o); mc::state(h);
  }
  mc::outcome("history");
}
/** Roots and other factors, each of any multiplicity: the polynomial is the product of powers of a padded, another padded, the zero, an unpadded root and an irreducible factor */
static void multiplicities() {
  static const ZZ p = prime(64); ZZ_p::init(p); const int most = mc::thorough() ? 6 : 4; size_t pad = mc::choose(2) ? 40 : 1; int style = mc::choose(2) * 2, alg = mc::choose(2); Elems roots; auto fs = factors(pad, roots); ZZ_pX f; NTL::set(f); Want w(1); std::string h;
  for (int k : {1, 3, 0, 4, 7}) { int m = mc::choose(k == 7 || k == 4 ? 4 : most); h += mc::fmt("%d", m); for (int i = 0; i < m; i++) f *= fs[k].first; if (m && fs[k].second >= 0 && NTL::trunc_ZZ(roots[fs[k].second], pad) == 0) w[0].insert(roots[fs[k].second] >> (long) pad); }
  ZZpPolynomials z(pad); mc::note(mc::fmt("pad %zu, multiplicities ", pad) + h); expect(extract(z, {f * NTL::to_ZZ_p(3)}, NTL::deg(f) + 1, 1, style, alg), w, "multiplicities " + h); mc::state(mc::fmt("M%zu %d %d ", pad, style, alg) + h); mc::outcome(mc::fmt("multiplicities, %zu roots", w[0].size()));
}
/** High degrees and multiplicities, many polynomials at a time, wide fields; the object is used before and after */
static void large() {
  struct S { int deg, mult, batch; long bits; size_t width; }; S s = mc::among(mc::thorough() ? std::vector<S>{{40, 1, 1, 113, 32}, {12, 12, 2, 64, 16}, {3, 1, 300, 64, 8}, {70, 1, 2, 96, 20}, {6, 1, 20, 512, 256}, {5, 33, 1, 64, 8}, {2, 2, 1100, 64, 8}, {130, 1, 1, 64, 16}, {4, 3, 40, 1024, 64}, {17, 1, 17, 200, 128}, {9, 65, 1, 80, 8}} : std::vector<S>{{40, 1, 1, 113, 32}, {12, 12, 2, 64, 16}, {3, 1, 300, 64, 8}, {70, 1, 2, 96, 20}, {6, 1, 20, 512, 256}, {5, 33, 1, 64, 8}, {17, 1, 17, 200, 128}});
  int style = mc::choose(3), alg = mc::choose(3), mix = mc::choose(3); if (alg == 1 && (s.deg * s.mult > 60 || s.bits > 300) && !mc::thorough()) return; ZZ_p::init(prime(s.bits, mix == 0)); size_t pad = s.bits - s.width - 1; ZZpPolynomials z(pad);
  auto make = [&](int batch, int salt, std::vector<ZZ_pX> &fs, Want &w) {
    for (int j = 0; j < batch; j++) {
      vec_ZZ_p r; std::set<ZZ> in;
      for (int i = 0; i < s.deg; i++) { ZZ e = NTL::to_ZZ((long) (i * 37 + j * 11 + salt)) * (i % 2 ? 1 : 3); e = NTL::trunc_ZZ(e + (i % 3 == 2 ? NTL::power2_ZZ(s.width) - 1 - 2 * e : NTL::to_ZZ(0)), s.width); if (mix == 1 && (i + j) % 3 == 0) { r.append(NTL::to_ZZ_p((e << (long) pad) + 1)); continue; } in.insert(e); for (int k = 0; k < s.mult; k++) r.append(NTL::to_ZZ_p(e << (long) pad)); }
      ZZ_pX f = NTL::BuildFromRoots(r); if (mix == 2) { ZZ_pX q; NTL::SetCoeff(q, 2, NTL::to_ZZ_p(1)); NTL::SetCoeff(q, 0, NTL::to_ZZ_p(-nonResidue(ZZ_p::modulus()))); f *= q; f *= NTL::to_ZZ_p(ZZ_p::modulus() - 5 - j); }
      fs.push_back(f); w.push_back(in);
    }
  };
  for (int round = 0; round < 2; round++) {
    std::vector<ZZ_pX> fs; Want w; make(round ? std::max(1, s.batch / 2) : s.batch, round * 5, fs, w); long most = 0; for (auto &f : fs) most = std::max(most, NTL::deg(f));
    expect(extract(z, fs, most + 1 + round, round, style, alg), w, mc::fmt("%zu polynomials of degree to %ld, %ld-bit field, pad %zu, style %d, algorithm %d, round %d", fs.size(), most, s.bits, pad, style, alg, round)); mc::require(z.size() == fs.size(), "wrong-size", "size()");
  }
  mc::note(mc::fmt("degree %d multiplicity %d batch %d field %ld", s.deg, s.mult, s.batch, s.bits)); mc::state(mc::fmt("L%d %d %d %ld %d %d %d", s.deg, s.mult, s.batch, s.bits, style, alg, mix)); mc::outcome("large");
}
/** Batches in which polynomials come again */
static void again() {
  static const ZZ p = prime(64); ZZ_p::init(p); const size_t pad = 40; Elems roots; auto fs = factors(pad, roots); static const std::vector<std::vector<int>> kinds = {{1, 4}, {2, 7}, {0, 3}};
  int how = mc::choose(4), style = how < 2 ? 0 : how - 1, alg = how % 2, n = 2 + mc::choose(mc::thorough() ? 7 : 4); std::vector<ZZ_pX> f; Want w; std::string h;
  for (int j = 0; j < n; j++) { int o = mc::choose(3); h += (char) ('0' + o); ZZ_pX g; NTL::set(g); std::set<ZZ> in; for (int k : kinds[o]) { g *= fs[k].first; if (fs[k].second >= 0 && NTL::trunc_ZZ(roots[fs[k].second], pad) == 0) in.insert(roots[fs[k].second] >> (long) pad); } f.push_back(g); w.push_back(in); }
  ZZpPolynomials z(pad); mc::note("batch " + h); expect(extract(z, f, 4, 0, style, alg), w, "batch " + h); std::reverse(f.begin(), f.end()); std::reverse(w.begin(), w.end()); expect(extract(z, f, 5, 1, style, alg), w, "batch " + h + " reversed"); mc::state(mc::fmt("again %d %d ", style, alg) + h); mc::outcome("repeating batch");
}
/** Paddings wider than any machine word or byte counts */
static void pads() {
  long bits = mc::among(std::vector<long>{400, 600}); ZZ_p::init(prime(bits, mc::choose(2))); static const size_t P[] = {64, 128, 255, 256, 264, 390, 512, 65, 63, 127, 129, 257, 300, 320, 511, 513, 560};
  size_t pad = P[mc::choose(mc::thorough() ? 17 : 8)]; int style = mc::choose(3), alg = mc::choose(2), warm = mc::thorough() ? mc::choose(2) : style == 1; if (pad + 8 > (size_t) bits) return; Elems roots; auto fs = factors(pad, roots);
  auto trap = [&](const ZZ &r) { roots.push_back(r); ZZ_pX f; NTL::SetCoeff(f, 1, NTL::to_ZZ_p(1)); NTL::SetCoeff(f, 0, NTL::to_ZZ_p(-r)); fs.push_back({f, (int) roots.size() - 1}); };
  if (pad > 65) { trap(NTL::to_ZZ(3) << (long) (pad - 64)); trap(NTL::to_ZZ(5) << (long) (pad % 64 + 1)); } if (pad >= 255) trap(NTL::to_ZZ(7) << (long) (pad - 200));
  ZZ_pX f; NTL::set(f); Want w(1); std::string h; int most = mc::thorough() ? 3 : 2;
  for (int n = 0, from = 0; n < most; n++) { int o = mc::choose((int) fs.size() - from + 1); if (!o) break; from += o - 1; f *= fs[from].first; h += mc::fmt("%d,", from); if (fs[from].second >= 0) { const ZZ &r = roots[fs[from].second]; if (NTL::trunc_ZZ(r, pad) == 0) w[0].insert(r >> (long) pad); } }
  ZZpPolynomials z(pad); mc::require(z.getPadsize() == pad, "wrong-padsize", mc::fmt("getPadsize() after construction with %zu", pad)); mc::note(mc::fmt("pad %zu in a field of %ld bits, factors %s", pad, bits, h.c_str()));
  if (warm) { ZZ_pX g; NTL::SetX(g); expect(extract(z, {g, g}, 3, 0, style, alg), Want(2, {NTL::to_ZZ(0)}), "before"); }
  expect(extract(z, {f}, NTL::deg(f) + 1, 1, style, alg), w, showP(f)); mc::state(mc::fmt("P%ld %zu %d %d %d ", bits, pad, style, alg, warm) + h); mc::outcome(mc::fmt("wide pad, %zu roots", w[0].size()));
}
/** Asking for threads, or for an algorithm that does not exist, changes no result */
static void options() {
  static const ZZ p = prime(113); ZZ_p::init(p); const size_t pad = 40; Elems roots; auto fs = factors(pad, roots); ZZpPolynomials z(pad); std::string h;
  for (int d = 0; d < (mc::thorough() ? 3 : 2); d++) {
    int threads = mc::choose(5), alg = mc::choose(2) ? 3 : d % 2, batch = mc::choose(2), style = mc::choose(3); if (threads) { mc::CaptureErr quiet; z.useThreads(std::vector<size_t>{0, 1, 3, 8}[threads - 1]); }
    std::vector<ZZ_pX> f; Want w; for (int j = 0; j < (batch ? 7 : 1); j++) { ZZ_pX g; NTL::set(g); std::set<ZZ> s; for (int k : {(j + d) % (int) fs.size(), (3 * j + 1) % (int) fs.size()}) { g *= fs[k].first; if (fs[k].second >= 0 && NTL::trunc_ZZ(roots[fs[k].second], pad) == 0) s.insert(roots[fs[k].second] >> (long) pad); } f.push_back(g); w.push_back(s); }
    vec_ZZ_p x = pointsOf(6, d % 3); std::vector<vec_ZZ_p> y(f.size()); for (size_t j = 0; j < f.size(); j++) NTL::eval(y[j], f[j], x); PolynomialFactoringAlgorithm a = alg == 3 ? (PolynomialFactoringAlgorithm) (7 + d) : algs[alg];
    std::string what = mc::fmt("threads %d, algorithm %d, %zu polynomials, style %d", threads, (int) a, f.size(), style); mc::op(what); vec_ZZ g;
    { mc::CaptureErr quiet; if (style == 0) g = z.findIntersection(x, y.data(), f.size(), a); else { z.interpolate(x, y.data(), f.size(), style == 1); if (style == 2) z.makeMonic(); z.factorise(a); g = z.findIntersection(); } }
    expect(g, w, what); h += mc::fmt("%d%d%d%d ", threads, alg, batch, style); mc::state(h);
  }
  mc::outcome("options");
}
/** Hundreds of roots in one polynomial */
static void crowded() {
  int n = mc::among(mc::thorough() ? std::vector<int>{127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 513} : std::vector<int>{127, 129, 200, 255, 256, 257, 300}), style = mc::choose(3), mix = mc::choose(3); ZZ_p::init(prime(64, mix == 0)); const size_t pad = 40; ZZpPolynomials z(pad); vec_ZZ_p r; Want w(1);
  for (int i = 0; i < n; i++) { ZZ e = NTL::to_ZZ((long) i * 97 + 5); if (mix == 1 && i % 5 == 0) { r.append(NTL::to_ZZ_p((e << (long) pad) + 3)); continue; } if (mix == 2 && i % 7 == 0) { r.append(NTL::to_ZZ_p(e << (long) pad)); } r.append(NTL::to_ZZ_p(e << (long) pad)); w[0].insert(e); }
  ZZ_pX f = NTL::BuildFromRoots(r); std::string h = mc::fmt("%d roots, mixture %d, style %d", n, mix, style); mc::note(h); expect(extract(z, {f}, NTL::deg(f) + 1, 0, style, 0), w, h); mc::state("crowd " + h); mc::outcome("crowded");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C14");
  s.add("histories", "all sequences of 4 calls (one-shot or interpolate with 5, thorough 8, batches; factorise; findIntersection) on one object", histories);
  s.add("small", "all polynomials up to degree 2 (thorough 3) over five fields up to 13, 5 pad sizes, 3 styles, 2 algorithms, against trying every element", [] { small(mc::thorough() ? 3 : 2); });
  s.add("products", "all products of up to 3 (thorough 4) of 9 factors, 3 fields, 5 pad sizes, 3 styles, 3 algorithm choices, 2 leading coefficients", [] { products(mc::thorough() ? 4 : 3); });
  s.add("multiplicities", "all products of 0-3 (thorough 0-5) times each of two padded roots and zero, and 0-3 times an unpadded root and an irreducible factor", multiplicities);
  s.add("pads", "8 (thorough 17) paddings of 63 to 560 bits around multiples of 64 and 256 in fields of 400 and 600 bits, all products of up to 2 (thorough 3) factors", pads);
  s.add("again", "all batches of 2-5 (thorough 2-8) among three polynomials, forwards and then backwards, in one shot or staged in two ways, by either algorithm", again);
  s.add("options", "all sequences of 2 (thorough 3) batches, each after asking for 0, 1, 3, 8 threads or not, by known and unknown algorithms, in one shot or staged", options);
  s.add("crowded", "7 (thorough 11) polynomials of 127 to 300 (513) distinct roots, plain, with roots that are no elements in between or doubled ones, in 3 styles", crowded);
  s.add("large", "7 (thorough 11) shapes: degrees to 132, multiplicities to 65, batches to 1100, fields to 1024 bits", large);
  s.add("reusedAgain", "`again` again where memory is handed out again at once", again);
  s.add("reusedHistories", "`histories` again where memory is handed out again at once", histories);
  return s.main(argc, argv);
}
