/* C11: pseudo-random integers are a fixed function of seed, index and length. */
#include "psi.hpp"
#include "zzprf.h"
using namespace psi;

static const std::vector<ZZ> &seeds() {
  static std::vector<ZZ> s;
  if (s.empty()) {
    for (long v : {0L, 1L, 2L, 4L, 255L, 256L, 257L, 65535L, 65536L}) s.push_back(NTL::to_ZZ(v));
    for (long b : {31, 32, 63, 64, 65, 95, 96, 97, 104, 112, 128, 159, 160, 161, 300, 1000}) { s.push_back(NTL::power2_ZZ(b)); s.push_back(NTL::power2_ZZ(b) - 1); }
    s.push_back(NTL::ZZFromBytes((const byte *) "Topsy Kretts", 12));
  }
  return s;
}
static const std::vector<size_t> indices = {0, 1, 2, 3, 10, 127, 128, 255, 256, 257, 0x0100, 0x01000000, 65535, 65536, 0x7fffffff, 0x80000000ul, 0xffffffffu, 0x100000000ul, 0x100000001ul, 1ul << 40, 1ul << 48, 1ul << 56, 1ul << 62, 1ul << 63, ~0ul - 1, ~0ul};
static const std::vector<size_t> lengths = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 113, 127, 128, 129, 152, 153, 159, 160, 161, 168, 200, 256, 319, 320, 321, 480, 481, 1000};

static ZZ fresh(const ZZ &s, size_t i, size_t b) { ZZPRF g; return g.generate(s, i, b); }
static void inRange(const ZZ &z, const ZZ &s, size_t i, size_t b) {
  mc::ops(1);
  if (z < 0 || NTL::NumBits(z) > (long) b) mc::fail("out-of-range", mc::fmt("seed %s index %zu bits %zu: %s", mc::str(s).c_str(), i, b, mc::str(z).c_str()));
}
/** A generator with any history gives what a fresh one gives */
static void history() {
  struct R { ZZ s; size_t i, b; };
  std::vector<R> rs = {{NTL::to_ZZ(0), 0, 1}, {NTL::to_ZZ(0), 0, 64}, {NTL::to_ZZ(4), 1, 113}, {NTL::to_ZZ(4), 256, 161}, {NTL::power2_ZZ(96), 0, 8}, {NTL::power2_ZZ(300), 1ul << 63, 500}, {NTL::to_ZZ(255), 3, 9}, {NTL::power2_ZZ(128) - 1, 7, 320}};
  ZZPRF g; std::string h; int n = (int) rs.size(), depth = mc::thorough() ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    int k = mc::choose(n + 1);
    if (k == n) { (void) g.generate(3, 40); mc::op("generate(3, 40)"); h += "a"; mc::state(h); continue; }
    R &r = rs[k]; ZZ z = g.generate(r.s, r.i, r.b);
    mc::op(mc::fmt("generate(%s, %zu, %zu)", mc::str(r.s).c_str(), r.i, r.b));
    inRange(z, r.s, r.i, r.b);
    if (z != fresh(r.s, r.i, r.b)) mc::fail("history-dependent", mc::fmt("step %d gives %s, a fresh generator %s", d, mc::str(z).c_str(), mc::str(fresh(r.s, r.i, r.b)).c_str()));
    h += (char) ('0' + k); mc::state(h);
  }
  mc::outcome("history");
}
/** The whole grid: ranges, and the same from two generators that worked in different orders */
static void grid() {
  size_t b = mc::among(lengths); bool rev = mc::choose(2);
  ZZPRF g; std::map<ZZ, std::string> seen;
  struct K { ZZ s; size_t i; }; std::vector<K> ks; std::set<size_t> idx(indices.begin(), indices.end()); std::set<ZZ> sd(seeds().begin(), seeds().end());
  for (auto &s : sd) for (size_t i : idx) ks.push_back({s, i});
  if (rev) std::reverse(ks.begin(), ks.end());
  for (size_t x = 0; x < ks.size(); x++) {
    ZZ z = g.generate(ks[x].s, ks[x].i, b); inRange(z, ks[x].s, ks[x].i, b);
    std::string me = mc::fmt("seed %s index %zu", mc::str(ks[x].s).c_str(), ks[x].i);
    if (b >= 64) { auto r = seen.insert({z, me}); if (!r.second) mc::fail("repeated", mc::fmt("%s and %s share a value of %zu bits", me.c_str(), r.first->second.c_str(), b)); }
    if (x % 7 == 0 && z != fresh(ks[x].s, ks[x].i, b)) mc::fail("history-dependent", me);
  }
  mc::note(mc::fmt("%zu bits, %zu seeds x %zu indices", b, sd.size(), idx.size())); mc::state(mc::fmt("%zu %d", b, (int) rev)); mc::outcome(mc::fmt("%zu bits", b));
}
/** Every bit position takes both values; consecutive indices all differ */
static void bits() {
  size_t b = mc::among(lengths); ZZ s = mc::among(std::vector<ZZ>{NTL::to_ZZ(0), NTL::to_ZZ(4), NTL::power2_ZZ(127) + 5});
  ZZPRF g; std::vector<int> ones(b, 0); const int N = 96; std::set<ZZ> seen;
  for (int i = 0; i < N; i++) { ZZ z = g.generate(s, i, b); inRange(z, s, i, b); seen.insert(z); for (size_t k = 0; k < b; k++) ones[k] += NTL::bit(z, k); }
  for (size_t k = 0; k < b; k++) if (ones[k] == 0 || ones[k] == N) mc::fail("stuck-bit", mc::fmt("bit %zu of %zu is the same for %d indices", k, b, N));
  mc::require(b < 64 || seen.size() == N, "repeated", mc::fmt("consecutive indices repeat at %zu bits", b));
  mc::note(mc::fmt("%zu bits, seed %s, %d indices", b, mc::str(s).c_str(), N)); mc::state(mc::fmt("%zu %s", b, mc::str(s).c_str()));
}
/** All indices and all seeds of a range differ */
static void ranges() {
  size_t b = mc::among(std::vector<size_t>{64, 113, 128, 161, 251}); int what = mc::choose(3);
  const long N = mc::thorough() ? 60000 : 12000; ZZPRF g; std::set<ZZ> seen;
  for (long i = 0; i < N; i++) {
    ZZ z = what == 0 ? g.generate(NTL::to_ZZ(1), i, b) : what == 1 ? g.generate(NTL::to_ZZ(i), 0, b) : g.generate(NTL::to_ZZ(i / 64 * 0x10001), i % 64, b);
    mc::ops(1); if (NTL::NumBits(z) > (long) b) mc::fail("out-of-range", mc::str(z));
    if (!seen.insert(z).second) mc::fail("repeated", mc::fmt("case %d, %ld: a value of %zu bits repeats", what, i, b));
  }
  mc::note(mc::fmt("%zu bits, %s 0..%ld", b, what == 0 ? "indices" : what == 1 ? "seeds" : "seeds and indices", N)); mc::state(mc::fmt("%zu %d", b, what));
}
/** The automatic seed: drawn once, whatever else is generated */
static void automatic() {
  mc::env().randMode = mc::among(std::vector<int>{0, 1, 2, 3, 4, 5});
  ZZPRF g; std::map<std::pair<size_t, size_t>, ZZ> first; int depth = 5;
  std::vector<std::pair<size_t, size_t>> rs = {{0, 64}, {1, 64}, {0, 200}};
  for (int d = 0; d < depth; d++) {
    int k = mc::choose(4);
    if (k == 3) { (void) g.generate(NTL::to_ZZ(77), 5, 300); mc::op("explicit"); continue; }
    ZZ z = g.generate(rs[k].first, rs[k].second); mc::op(mc::fmt("generate(%zu, %zu)", rs[k].first, rs[k].second));
    inRange(z, NTL::to_ZZ(-1), rs[k].first, rs[k].second);
    auto r = first.insert({rs[k], z}); mc::require(r.first->second == z, "seed-changed", "the automatic seed changed");
  }
  for (auto &a : first) for (auto &b : first) mc::require(a.first.first == b.first.first || a.second != b.second, "repeated", "different indices give one value");
  mc::state(mc::fmt("%d %zu", mc::env().randMode, first.size())); mc::outcome("automatic");
}
/** Long values, long seeds, and runs of indices across the powers of two: range, distinctness, both values of every bit, agreement with a used generator */
static void large() {
  int what = mc::choose(3); ZZPRF g; std::set<ZZ> seen; static const std::vector<size_t> ls = {1023, 1024, 1025, 1279, 1280, 1281, 2047, 2048, 2049, 4096, 5120, 8191, 8192, 10000, 16384, 40000, 65535, 65536, 65537};
  if (what == 0) {
    size_t b = mc::among(ls); const int N = 40; std::vector<int> ones(b, 0);
    for (int i = 0; i < N; i++) { ZZ z = g.generate(NTL::to_ZZ(3), i, b); inRange(z, NTL::to_ZZ(3), i, b); mc::require(seen.insert(z).second, "repeated", mc::fmt("%zu bits, index %d", b, i)); for (size_t k = 0; k < b; k++) ones[k] += NTL::bit(z, k); if (i % 16 == 0) mc::require(z == fresh(NTL::to_ZZ(3), i, b), "history-dependent", mc::fmt("%zu bits", b)); }
    for (size_t k = 0; k < b; k++) if (!ones[k] || ones[k] == N) mc::fail("stuck-bit", mc::fmt("bit %zu of %zu", k, b));
    for (int v : {0, 1, 2, 4, 255, 256}) for (long e : {0L, 60L, 128L}) { if (v == 0 && e) continue; ZZ sd = NTL::to_ZZ(v) << e; if (sd == 3) continue; ZZ z = g.generate(sd, 5, b); inRange(z, sd, 5, b); mc::require(seen.insert(z).second, "repeated", mc::fmt("%zu bits, seed %s", b, mc::str(sd).c_str())); }
    for (int j = 7; j < 64; j++) { ZZ z = g.generate(NTL::to_ZZ(3), 1ul << j, b); mc::require(seen.insert(z).second, "repeated", mc::fmt("%zu bits, index 2^%d", b, j)); }
    // no part of a long value repeats another part of it or of its neighbour
    std::set<ZZ> parts; for (int i = 0; i < 2; i++) { ZZ z = g.generate(NTL::to_ZZ(3), i, b); for (size_t k = 0; k + 64 <= b; k += 32) mc::require(parts.insert(NTL::trunc_ZZ(z >> (long) k, 64)).second, "repeated", mc::fmt("64 bits at %zu of a value of %zu repeat", k, b)); }
    mc::note(mc::fmt("%zu bits", b)); mc::state(mc::fmt("long %zu", b));
  } else if (what == 1) {
    int e = mc::choose(64); const long R = mc::thorough() ? 3000 : 300; size_t mid = e ? (size_t) 1 << e : 0, b = mc::among(std::vector<size_t>{113, 200});
    for (long d = -R; d <= R; d++) { size_t i = mid + d; if (d && e < 10 && seen.size() && (long) mid + d < 0) continue; ZZ z = g.generate(NTL::to_ZZ(4), i, b); inRange(z, NTL::to_ZZ(4), i, b); mc::require(seen.insert(z).second, "repeated", mc::fmt("index 2^%d%+ld", e, d)); if (d % 61 == 0) mc::require(z == fresh(NTL::to_ZZ(4), i, b), "history-dependent", mc::fmt("index 2^%d%+ld", e, d)); }
    mc::note(mc::fmt("indices around 2^%d", e)); mc::state(mc::fmt("index %d %zu", e, b));
  } else {
    int part = mc::choose(8); // seeds of all byte lengths to 700 (thorough 3000), differing in one byte only
    for (int n = 1 + part; n <= (mc::thorough() ? 3000 : 700); n += 8) for (int v : {1, 255}) {
      ZZ s = NTL::to_ZZ(v) << (8 * (n - 1)); ZZ z = g.generate(s, 1, 128); inRange(z, s, 1, 128); mc::require(seen.insert(z).second, "repeated", mc::fmt("seed of %d bytes", n)); ZZ z2 = g.generate(s + 1, 1, 128); mc::require(n == 1 || seen.insert(z2).second, "repeated", mc::fmt("seed of %d bytes, lowest bit", n));
      ZZ z3 = g.generate(s + (NTL::to_ZZ(1) << (4 * n)), 1, 128); mc::require(n < 3 || seen.insert(z3).second, "repeated", mc::fmt("seed of %d bytes, bit in the middle", n)); if (n % 5 == 0) mc::require(z == fresh(s, 1, 128), "history-dependent", mc::fmt("seed of %d bytes", n));
    }
    mc::note("long seeds"); mc::state(mc::fmt("seed %d", part));
  }
  mc::outcome("large");
}
/** No bit of seed or index is idle: all those that differ in one or two bits from a seed and an index give values of their own */
static void switched() {
  static const std::vector<ZZ> base = {NTL::to_ZZ(0), NTL::power2_ZZ(127) + 12345, NTL::power2_ZZ(256) - 1, NTL::power2_ZZ(160) / 3, NTL::power2_ZZ(512) / 7, NTL::ZZFromBytes((const byte *) "Topsy Kretts", 12)};
  static const std::vector<size_t> at = {0, 1, 0x0102030405060708ul, ~0ul}; ZZ s = mc::among(base); size_t i = mc::among(at), b = mc::among(std::vector<size_t>{64, 113, 161}); ZZPRF g; std::map<ZZ, std::string> seen; const int SB = mc::thorough() ? 1030 : 530;
  auto take = [&](const ZZ &x, size_t j, const std::string &what) { ZZ z = g.generate(x, j, b); inRange(z, x, j, b); auto r = seen.insert({z, what}); if (!r.second) mc::fail("repeated", mc::fmt("seed %s index %zu: %s and %s give one value of %zu bits", mc::str(s).c_str(), i, what.c_str(), r.first->second.c_str(), b)); };
  take(s, i, "nothing switched"); for (int k = 0; k < SB; k++) { ZZ x = s; NTL::SwitchBit(x, k); take(x, i, mc::fmt("seed bit %d", k)); if (k % 8 == 0) for (int j = 0; j < 64; j += 3) take(x, i ^ 1ul << j, mc::fmt("seed bit %d and index bit %d", k, j)); }
  for (int j = 0; j < 64; j++) { take(s, i ^ 1ul << j, mc::fmt("index bit %d", j)); for (int k = 0; k < j; k++) take(s, i ^ 1ul << j ^ 1ul << k, mc::fmt("index bits %d and %d", j, k)); }
  mc::note(mc::fmt("seed %s index %zu bits %zu", mc::str(s).c_str(), i, b)); mc::state(mc::fmt("S%s %zu %zu", mc::str(s).c_str(), i, b)); mc::outcome("switched");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C11");
  s.add("grid", "42 seeds x 25 indices x 34 lengths: range, distinctness, agreement of generators", grid);
  s.add("bits", "every bit position of every length takes both values over 96 indices", bits);
  s.add("ranges", "12000 (thorough 60000) consecutive indices, seeds and both all differ", ranges);
  s.add("history", "all sequences of 4 (thorough 5) generations by one generator against fresh ones", history);
  s.add("automatic", "automatic seeds: all sequences of 5 calls under 6 behaviours of rand()", automatic);
  s.add("large", "values to 65537 bits with all bits and parts distinct; 600 (thorough 6000) indices around every power of two; seeds of all lengths to 700 (3000) bytes", large);
  s.add("switched", "6 seeds x 4 indices x 3 lengths: every bit of the seed to 530 (thorough 1030), every one and two bits of the index, and some of both switched: all values differ", switched);
  s.add("reusedHistory", "`history` again where memory is handed out again at once", history);
  s.add("reusedSwitched", "`switched` again where memory is handed out again at once", switched);
  return s.main(argc, argv);
}
