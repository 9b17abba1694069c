/* C12: field generators stay in the field, reproduce, and never repeat themselves. */
#include "psi.hpp"
#include "zzpprf.h"
using namespace psi;
typedef PseudoRandom<ZZ_p, ZZ_p> Base;   // the automatic calls are reached through it

static std::vector<ZZ> mods() {
  std::vector<ZZ> m; for (long b : {31, 32, 33, 61, 63, 64, 65, 96, 113, 127, 128, 159, 160, 161, 192, 256, 320}) { m.push_back(prime(b, true)); m.push_back(prime(b, false)); }
  return m;
}
static void inField(const ZZ_p &v, size_t bits, const ZZ &m, const std::string &w) {
  mc::ops(1); ZZ z = rep(v);
  if (z < 0 || z >= m) mc::fail("outside-field", w + ": " + mc::str(z) + " modulo " + mc::str(m));
  if (bits && NTL::NumBits(z) > (long) bits) mc::fail("too-many-bits", mc::fmt("%s: %ld bits instead of %zu", w.c_str(), NTL::NumBits(z), bits));
}
/** Values: range, length, reproducibility over all kinds of generators */
static void values() {
  static std::vector<ZZ> ms = mods(); const ZZ &m = mc::among(ms); long nb = NTL::NumBits(m);
  ZZ_p::init(m);
  ZZPRF base; if (mc::choose(2)) (void) base.generate(NTL::to_ZZ(3), 1, 500);
  ZZpPRF a(m), b(m, &base);
  std::set<ZZ> seen; size_t n = 0;
  std::set<size_t> lens = {0, 1, 2, 7, 8, 9, 16, 31, 32, (size_t) nb - 8, (size_t) nb - 1, (size_t) nb, (size_t) nb + 1, (size_t) nb + 64};
  for (long s : {0L, 1L, 2L, 255L, 256L, 123456789L}) for (size_t i : {(size_t) 0, (size_t) 1, (size_t) 2, (size_t) 255, (size_t) 256, ~(size_t) 0, (size_t) 1 << 63, (size_t) 1 << 32}) for (size_t len : lens) {
    ZZ_p seed = NTL::to_ZZ_p(s); std::string w = mc::fmt("seed %ld index %zu bits %zu", s, i, len);
    ZZ_p x = a.generate(seed, i, len), y = b.generate(seed, i, len); ZZpPRF c(m); ZZ_p z = c.generate(seed, i, len);
    inField(x, len && len < (size_t) nb ? len : 0, m, w);
    mc::require(x == y && y == z, "not-reproducible", w + ": generators of one modulus disagree");
    if (len == (size_t) nb) { seen.insert(rep(x)); n++; }
  }
  ZZ_p ds = a.defaultSeed(); mc::require(ds == b.defaultSeed() && ds == ZZpPRF(m).defaultSeed() && ds == a.defaultSeed(), "not-reproducible", "defaultSeed() differs between generators"); inField(ds, 0, m, "defaultSeed()");
  mc::require(nb < 96 || seen.size() == n, "repeated", "different seeds or indices share a value");
  mc::require(a.getModulo() == m && b.getModulo() == m, "wrong-modulus", "getModulo()");
  mc::note("modulus " + mc::str(m)); mc::state(mc::str(m)); mc::outcome(mc::fmt("%ld bits", nb));
}
/** Every bit below the modulus' top is used; a request for fewer bits uses all of them */
static void coverage() {
  static std::vector<ZZ> ms = mods(); const ZZ &m = mc::among(ms); long nb = NTL::NumBits(m); ZZ_p::init(m); ZZpPRF g(m);
  size_t len = mc::choose(2) ? nb - 9 : 0; size_t use = len ? len : nb - 1;
  std::vector<int> ones(use, 0); const int N = 96;
  for (int i = 0; i < N; i++) { ZZ_p v = g.generate(NTL::to_ZZ_p(9), i, len); inField(v, len, m, "coverage"); for (size_t k = 0; k < use; k++) ones[k] += NTL::bit(rep(v), k); }
  for (size_t k = 0; k < use; k++) if (!ones[k] || ones[k] == N) mc::fail("stuck-bit", mc::fmt("bit %zu modulo %s", k, mc::str(m).c_str()));
  mc::note("modulus " + mc::str(m)); mc::state(mc::fmt("%s %zu", mc::str(m).c_str(), len));
}
/** No bit of seed or index is idle */
static void switched() {
  static const std::vector<ZZ> ms = {prime(64), prime(96, false), prime(113), prime(128, false), prime(160, false), prime(320)}; const ZZ &m = mc::among(ms); long nb = NTL::NumBits(m); ZZ_p::init(m); ZZpPRF g(m), fresh(m);
  size_t i = mc::among(std::vector<size_t>{0, 1, 0x0102030405060708ul, ~0ul}), len = mc::choose(2) ? (size_t) nb : 0; ZZ s = mc::among(std::vector<ZZ>{NTL::to_ZZ(0), m / 3, m / 2 + 1}); std::map<ZZ, std::string> seen;
  auto take = [&](const ZZ &x, size_t j, const std::string &what) { if (x >= m) return; ZZ_p z = g.generate(NTL::to_ZZ_p(x), j, len); inField(z, 0, m, what); mc::require(z == ZZpPRF(m).generate(NTL::to_ZZ_p(x), j, len), "not-reproducible", what); auto r = seen.insert({rep(z), what}); if (!r.second) mc::fail("repeated", mc::fmt("modulus %s seed %s index %zu: %s and %s give one value", mc::str(m).c_str(), mc::str(s).c_str(), i, what.c_str(), r.first->second.c_str())); };
  take(s, i, "nothing switched"); for (long k = 0; k < nb; k++) { ZZ x = s; NTL::SwitchBit(x, k); take(x, i, mc::fmt("seed bit %ld", k)); if (k % 16 == 0) for (int j = 0; j < 64; j += 5) take(x, i ^ 1ul << j, mc::fmt("seed bit %ld and index bit %d", k, j)); }
  for (int j = 0; j < 64; j++) { take(s, i ^ 1ul << j, mc::fmt("index bit %d", j)); for (int k = 0; k < j; k += 3) take(s, i ^ 1ul << j ^ 1ul << k, mc::fmt("index bits %d and %d", j, k)); }
  mc::note("modulus " + mc::str(m)); mc::state(mc::fmt("S%s %s %zu %zu", mc::str(m).c_str(), mc::str(s).c_str(), i, len)); mc::outcome("switched");
}
/** The automatic sequence under interference */
static void automatic() {
  ZZ m = mc::among(std::vector<ZZ>{prime(64), prime(113), prime(128, false)}); ZZ_p::init(m);
  int mode = mc::among(std::vector<int>{0, 1, 2, 3, 4, 6});
  mc::env().randMode = mode;
  std::vector<ZZ_p> plain; { ZZpPRF p(m); for (int i = 0; i < 8; i++) plain.push_back(static_cast<Base &>(p).generate()); }
  mc::env().reset(); mc::env().randMode = mode;
  ZZPRF *base = mc::choose(2) ? new ZZPRF() : nullptr;
  std::unique_ptr<ZZpPRF> g(new ZZpPRF(m, base)); ZZpPRF other(m);
  std::set<ZZ> seen; std::map<std::pair<size_t, size_t>, ZZ_p> at; size_t k = 0; int depth = mc::thorough() ? 7 : 5; std::string h; bool otherUsed = false;
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(6); ZZ_p v;
    if (o == 0) { v = static_cast<Base &>(*g).generate(); mc::op("generate()"); inField(v, 0, m, "automatic"); if (!seen.insert(rep(v)).second) mc::fail("repeated", mc::fmt("automatic value %zu repeats an earlier one", k)); if (!otherUsed) mc::require(v == plain[k], "sequence-disturbed", mc::fmt("automatic value %zu differs", k)); k++; }
    else if (o == 1) { v = g->generate(NTL::to_ZZ_p(5), 2, 60); mc::op("explicit"); mc::require(v == ZZpPRF(m).generate(NTL::to_ZZ_p(5), 2, 60), "not-reproducible", "explicit"); }
    else if (o == 2) { size_t i = mc::choose(2) ? 0 : 40; v = static_cast<Base &>(*g).generate(i, (size_t) 50); mc::op(mc::fmt("generate(%zu, 50)", i)); inField(v, 50, m, "indexed"); auto r = at.insert({{i, 50}, v}); mc::require(r.first->second == v, "seed-changed", "the automatic seed changed"); }
    else if (o == 3) { if (seen.empty() && at.empty()) otherUsed = true; (void) static_cast<Base &>(other).generate(); mc::op("another generator's generate()"); }
    else if (o == 4) { (void) rand(); if (seen.empty() && at.empty()) otherUsed = true; mc::op("rand()"); }
    else if (base) { ZZ z = base->generate(NTL::to_ZZ(8), 1, 700); mc::op("the integer generator's generate()"); mc::require(z == ZZPRF().generate(NTL::to_ZZ(8), 1, 700), "not-reproducible", "integer generator"); }
    h += (char) ('0' + o); mc::state(h);
  }
  // both released, in either order, and the survivor still works
  if (mc::choose(2)) { g.reset(); if (base) mc::require(base->generate(NTL::to_ZZ(8), 1, 300) == ZZPRF().generate(NTL::to_ZZ(8), 1, 300), "not-reproducible", "survivor"); delete base; }
  else { if (base) (void) base->generate(NTL::to_ZZ(1), 1, 100); delete base; mc::require(g->generate(NTL::to_ZZ_p(5), 2, 60) == ZZpPRF(m).generate(NTL::to_ZZ_p(5), 2, 60), "not-reproducible", "survivor"); }
  mc::outcome(mc::fmt("rand mode %d", mode));
}
/** Many automatic values in a row */
static void longRun() {
  ZZ m = mc::among(std::vector<ZZ>{prime(96), prime(113), prime(160)}); ZZ_p::init(m); mc::env().randMode = mc::among(std::vector<int>{0, 1, 2, 3, 6});
  ZZpPRF g(m); std::set<ZZ> seen; const bool main = mc::env().randMode == 0 && NTL::NumBits(m) == 113; const int N = mc::thorough() ? main ? 1 << 21 : 300000 : main ? 140000 : 5000;
  for (int i = 0; i < N; i++) { ZZ_p v = static_cast<Base &>(g).generate(); inField(v, 0, m, "long run"); mc::require(seen.insert(rep(v)).second, "repeated", mc::fmt("automatic value %d repeats", i)); }
  mc::note(mc::fmt("%d automatic values modulo %s", N, mc::str(m).c_str())); mc::state(mc::fmt("%s %d", mc::str(m).c_str(), mc::env().randMode));
}
/** Generators of two fields side by side: neither knows of the other */
static void fields() {
  static const std::vector<ZZ> ms = {prime(64), prime(64, false), prime(96), prime(96, false), prime(113), prime(31)}; int x = mc::choose((int) ms.size()), y = mc::choose((int) ms.size()); if (x == y) return; const ZZ m[2] = {ms[x], ms[y]}; bool shared = mc::choose(2);
  struct Q { long seed; size_t index; int len; }; static const Q qs[] = {{7, 3, 0}, {7, 3, 20}, {8, 3, -1}, {7, 4, -1}, {7, 3, -1}}; const int N = 5;
  auto gen = [&](ZZpPRF &g, int f, const Q &q) { NTL::ZZ_pPush push(m[f]); ZZ z = rep(g.generate(NTL::to_ZZ_p(q.seed), q.index, q.len < 0 ? (size_t) NTL::NumBits(m[f]) : (size_t) q.len)); mc::require(z < m[f] && z >= 0, "outside-field", mc::str(z)); mc::ops(1); return z; };
  ZZ want[2][5]; for (int f = 0; f < 2; f++) for (int q = 0; q < N; q++) { NTL::ZZ_pPush push(m[f]); ZZpPRF a(m[f]); Q other = {1000 + q, (size_t) (50 + 7 * q + f), 24 + q}; (void) gen(a, f, other); want[f][q] = gen(a, f, qs[q]); }
  std::unique_ptr<ZZPRF> base(shared ? new ZZPRF : nullptr); std::unique_ptr<ZZpPRF> g[2]; for (int f = 0; f < 2; f++) { NTL::ZZ_pPush push(m[f]); g[f].reset(new ZZpPRF(m[f], base.get())); } std::string h;
  for (int d = 0; d < (mc::thorough() ? 4 : 3); d++) { int o = mc::choose(2 * N); h += mc::fmt("%d ", o); ZZ z = gen(*g[o / N], o / N, qs[o % N]); if (z != want[o / N][o % N]) mc::fail("not-reproducible", mc::fmt("moduli %s and %s, requests ", mc::str(m[0]).c_str(), mc::str(m[1]).c_str()) + h); mc::require(g[o / N]->getModulo() == m[o / N], "wrong-modulus", h); }
  mc::state(mc::fmt("fields %d %d %d ", x, y, shared) + h); mc::outcome("two fields");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C12");
  s.add("values", "34 moduli x 6 seeds x 8 indices x 14 lengths over three kinds of generators", values);
  s.add("coverage", "every bit position takes both values", coverage);
  s.add("switched", "6 moduli x 3 seeds x 4 indices: every bit of the seed, every one and some two bits of the index, and some of both switched: all values differ", switched);
  s.add("fields", "generators of every two of 6 fields, alone or over one integer generator: all sequences of 3 (thorough 4) of 10 requests", fields);
  s.add("automatic", "all sequences of 5 (thorough 7) calls: automatic, explicit, indexed, other generators, rand(); both release orders", automatic);
  s.add("longRun", "5000 (thorough 300000) automatic values under 5 behaviours of rand() for 3 moduli, 140000 (2097152) for one", longRun);
  s.add("reusedFields", "`fields` again where memory is handed out again at once", fields);
  s.add("reusedSwitched", "`switched` again where memory is handed out again at once", switched);
  return s.main(argc, argv);
}
