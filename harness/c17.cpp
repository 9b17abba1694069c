/* C17: number helpers: padding is reversible and sizes are exact. */
#include "psi.hpp"
#include <gmpxx.h>
#include "ntlmiss.h"
using namespace psi;
typedef unsigned long ul;

static std::vector<ZZ> naturals(long small, long top) {
  std::vector<ZZ> v; for (long i = 0; i <= small; i++) v.push_back(NTL::to_ZZ(i));
  for (long b = 2; b <= top; b++) for (long d = -2; d <= 2; d++) { ZZ z = NTL::power2_ZZ(b) + d; if (z > small) v.push_back(z); }
  for (long b = 20; b <= top; b += 7) { v.push_back(NTL::power2_ZZ(b) / 3); v.push_back((NTL::power2_ZZ(b) / 3) << 5); }
  // odd numbers of one, two and more machine words, shifted to every position
  for (ZZ m : {NTL::to_ZZ(1), NTL::to_ZZ(3), NTL::to_ZZ(5), NTL::to_ZZ(7), NTL::to_ZZ(255), NTL::to_ZZ(257), NTL::to_ZZ(65535), NTL::power2_ZZ(31) - 1, NTL::power2_ZZ(32) + 1, NTL::power2_ZZ(60) - 1, NTL::power2_ZZ(63) - 1, NTL::power2_ZZ(63) + 1, NTL::power2_ZZ(64) - 1, NTL::power2_ZZ(64) + 1, NTL::power2_ZZ(127) - 1, NTL::power2_ZZ(128) + 1, NTL::power2_ZZ(200) / 3})
    for (long k = 1; k <= top / 2; k++) if (!NTL::IsOdd(m)) m += 1; else v.push_back(m << k);
  return v;
}
static const std::vector<ZZ> &all() { static std::vector<ZZ> v = naturals(mc::thorough() ? 70000 : 5000, mc::thorough() ? 1100 : 420); return v; }
static const int CHUNK = 64;
static bool range(const char *l, size_t &a, size_t &b) { size_t n = all().size(), c = (n + CHUNK - 1) / CHUNK, i = mc::choose(CHUNK, l); a = i * c; b = std::min(n, a + c); return a < b; }
/** Bit length by counting, not by the library's means */
static long width(const ZZ &z) { mpz_class m(mc::str(z)); if (m < 0) m = -m; return m == 0 ? 0 : (long) mpz_sizeinbase(m.get_mpz_t(), 2); }

static void sizes() {
  size_t a, b; if (!range("part", a, b)) return; ZZ_p::init(NTL::power2_ZZ(1200) + 1);
  for (size_t i = a; i < b; i++) {
    const ZZ &z = all()[i]; long w = width(z);
    if (z > 0) { ul l = NTL::log2(z); if ((long) l != w - 1) mc::fail("wrong-log", mc::fmt("log2(%s) is %lu", mc::str(z).c_str(), l)); }
    ul n = NTL::bytes(z); if ((long) n != (w + 7) / 8) mc::fail("wrong-bytes", mc::fmt("bytes(%s) is %lu", mc::str(z).c_str(), n));
    ZZ_p zp = NTL::to_ZZ_p(z); n = NTL::bytes(zp); if ((long) n != (w + 7) / 8) mc::fail("wrong-bytes", mc::fmt("bytes() of the field element %s is %lu", mc::str(z).c_str(), n));
    size_t t = NTL::countLeadingZeros(z); mpz_class m(mc::str(z)); size_t want = m == 0 ? 0 : mpz_scan1(m.get_mpz_t(), 0);
    if (t != want) mc::fail("wrong-zeros", mc::fmt("countLeadingZeros(%s) is %zu instead of %zu", mc::str(z).c_str(), t, want));
    mc::ops(4); mc::state(mc::str(z));
  }
  mc::note("sizes of " + mc::str(all()[a]) + " to " + mc::str(all()[b - 1])); mc::outcome("sizes");
}
static void padding() {
  size_t a, b; if (!range("part", a, b)) return;
  std::vector<size_t> ns; for (size_t n = 0; n <= (mc::thorough() ? 260u : 140u); n++) ns.push_back(n); ns.push_back(511); ns.push_back(512); ns.push_back(1000);
  for (size_t i = a; i < b; i += mc::thorough() ? 1 : 3) {
    for (int sg = 0; sg < (i % 16 ? 1 : 2); sg++) {
      ZZ z = sg ? -all()[i] : all()[i]; mpz_class m(mc::str(z)); ZZ pw = NTL::to_ZZ(1);
      size_t last = 0;
      for (size_t n : ns) {
        while (last < n) { pw *= 2; last++; }
        ZZ q = NTL::zeroPad(z, n);
        if (q != z * pw) mc::fail("wrong-padding", mc::fmt("zeroPad(%s, %zu) is %s", mc::str(z).c_str(), n, mc::str(q).c_str()));
        if ((q >> (long) n) != z) mc::fail("not-undone", mc::fmt("zeroPad(%s, %zu)", mc::str(z).c_str(), n));
        if (NTL::IsZero(z)) { if (!NTL::IsZero(NTL::zeroPadTo(z, n))) mc::fail("wrong-width", "zeroPadTo(0)"); continue; }
        ZZ t = NTL::zeroPadTo(z, n); long w = width(z), want = (long) n > w ? (long) n - 1 : w;
        if (width(t) != want) mc::fail("wrong-width", mc::fmt("zeroPadTo(%s, %zu) has %ld bits instead of %ld", mc::str(z).c_str(), n, width(t), want));
        if ((t >> (want - w)) != z || ((t >> (want - w)) << (want - w)) != t) mc::fail("wrong-padding", mc::fmt("zeroPadTo(%s, %zu) is %s", mc::str(z).c_str(), n, mc::str(t).c_str()));
        mc::ops(2);
      }
    }
    mc::state(mc::str(all()[i]));
  }
  mc::note("padding from " + mc::str(all()[a])); mc::outcome("padding");
}
static void counts() {
  int part = mc::choose(CHUNK); std::vector<ul> bits, per;
  for (ul i = 0; i < 2100; i++) bits.push_back(i);
  for (int b = 12; b < 64; b++) for (long d = -9; d <= 9; d++) bits.push_back((1ul << b) + d);
  for (ul d = 0; d < 300; d++) bits.push_back(~0ul - d);
  for (ul i = 1; i <= 130; i++) per.push_back(i);
  for (ul i : {255ul, 256ul, 257ul, 1000ul, 65535ul, 65536ul, 0xfffffffful, 0x100000000ul, ~0ul - 1, ~0ul}) per.push_back(i);
  for (size_t i = part; i < bits.size(); i += CHUNK) {
    ul x = bits[i]; unsigned __int128 w = x;
    if (NTL::bytes(x) != (ul) ((w + 7) / 8)) mc::fail("wrong-bytes", mc::fmt("bytes(%lu) is %lu", x, NTL::bytes(x)));
    for (ul p : per) { ul n = NTL::blocks(x, p); if (n != (ul) ((w + p - 1) / p)) mc::fail("wrong-blocks", mc::fmt("blocks(%lu, %lu) is %lu instead of %lu", x, p, n, (ul) ((w + p - 1) / p))); }
    mc::ops(1 + per.size()); mc::state(mc::fmt("%lu", x));
  }
  mc::note(mc::fmt("block counts, part %d", part)); mc::outcome("counts");
}
/** Conversions into fresh and used vectors; nothing in the source changes */
static void conversions() {
  ZZ_p::init(prime(mc::among(std::vector<long>{8, 64, 200})));
  size_t n = mc::choose(mc::thorough() ? 90 : 40), old = mc::among(std::vector<size_t>{0, 1, 5, 40, 100}); int kind = mc::choose(3);
  std::vector<ZZ_p> v(n); for (size_t i = 0; i < n; i++) v[i] = kind == 0 ? NTL::to_ZZ_p((long) i + 1) : kind == 1 ? NTL::to_ZZ_p(-(long) i) : NTL::to_ZZ_p(0L);
  std::vector<ZZ_p> keep = v; std::unique_ptr<ZZ_p[]> arr(new ZZ_p[n ? n : 1]); for (size_t i = 0; i < n; i++) arr[i] = v[i];
  auto same = [&](const vec_ZZ_p &w, const char *how) {
    if ((size_t) w.length() != n) mc::fail("wrong-length", mc::fmt("%s of %zu entries into a vector of %zu has %ld", how, n, old, w.length()));
    for (size_t i = 0; i < n; i++) if (w[i] != keep[i]) mc::fail("wrong-entry", mc::fmt("%s: entry %zu of %zu is ", how, i, n) + mc::str(w[i]) + " instead of " + mc::str(keep[i]));
    for (size_t i = 0; i < n; i++) mc::require(v[i] == keep[i] && arr[i] == keep[i], "source-changed", how);
    mc::ops(1);
  };
  auto used = [&] { vec_ZZ_p w; w.SetLength(old); for (size_t i = 0; i < old; i++) w[i] = NTL::to_ZZ_p(7L); return w; };
  same(NTL::vector2VecZZp(v), "vector2VecZZp()"); same(NTL::array2VecZZp(arr.get(), n), "array2VecZZp()");
  { vec_ZZ_p w = used(); NTL::vector2VecZZp(w, v); same(w, "vector2VecZZp(into)"); NTL::vector2VecZZp(w, v); same(w, "vector2VecZZp(into, again)"); }
  { vec_ZZ_p w = used(); NTL::array2VecZZp(w, arr.get(), n); same(w, "array2VecZZp(into)"); NTL::array2VecZZp(w, arr.get(), n); same(w, "array2VecZZp(into, again)"); }
  // a part of an array
  if (n > 2) { vec_ZZ_p w = NTL::array2VecZZp(arr.get() + 1, n - 2); mc::require(w.length() == (long) n - 2 && w[0] == keep[1] && w[n - 3] == keep[n - 2], "wrong-entry", "a part of an array"); }
  // nothing at all; the printed form of arrays of integers lists every entry in order
  { vec_ZZ_p w = NTL::array2VecZZp(nullptr, 0); mc::require(w.length() == 0, "wrong-length", "an empty array"); vec_ZZ_p u = used(); NTL::array2VecZZp(u, nullptr, 0); mc::require(u.length() == 0 || u == used(), "wrong-entry", "no array at all into a used vector: neither left alone nor emptied"); }
  { std::unique_ptr<ZZ[]> zs(new ZZ[n ? n : 1]); for (size_t i = 0; i < n; i++) zs[i] = kind == 1 && i % 2 ? -rep(v[i]) : rep(v[i]) << (long) (i * 5); mc::CaptureOut o; NTL::printZZArray(zs.get(), n); std::string t = o.text(), num; std::vector<std::string> got; for (char ch : t + " ") if (isdigit((unsigned char) ch) || (ch == '-' && num.empty())) num += ch; else if (!num.empty()) { got.push_back(num); num.clear(); } mc::require(got.size() == n, "wrong-list", mc::fmt("%zu numbers printed of %zu: ", got.size(), n) + t.substr(0, 200)); for (size_t i = 0; i < n; i++) mc::require(got[i] == mc::str(zs[i]), "wrong-list", mc::fmt("entry %zu: ", i) + got[i]); mc::ops(1); }
  // the result does not share storage with the source
  vec_ZZ_p w = NTL::vector2VecZZp(v), x = NTL::array2VecZZp(arr.get(), n); if (n) { v[0] += 1; arr[0] += 1; mc::require(w[0] == keep[0] && x[0] == keep[0], "shared", "result shares storage"); }
  mc::note(mc::fmt("%zu entries into %zu", n, old)); mc::state(mc::fmt("%zu %zu %d %ld", n, old, kind, NTL::NumBits(ZZ_p::modulus()))); mc::outcome("converted");
}
/** Long vectors whose entries vanish anywhere: at the ends, in between, everywhere or nowhere */
static void longVectors() {
  ZZ_p::init(prime(mc::among(std::vector<long>{8, 64, 200}))); std::vector<size_t> L = {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 5000, 65535, 65537}; if (mc::thorough()) for (size_t x : {16384, 32769, 65536, 70001, 200000}) L.push_back(x); size_t n = mc::among(L), old = mc::among(std::vector<size_t>{0, 1, 64, 300, 7000}); int kind = mc::choose(8);
  auto zero = [&](size_t i) { switch (kind) { case 0: return i >= n / 2; case 1: return i < n / 2; case 2: return true; case 3: return i % 2 == 0; case 4: return i == n - 1; case 5: return i == 0; case 6: return i != n / 2; default: return false; } };
  std::vector<ZZ_p> v(n); for (size_t i = 0; i < n; i++) v[i] = zero(i) ? NTL::to_ZZ_p(0L) : NTL::to_ZZ_p((long) (i % 100) + 1); std::unique_ptr<ZZ_p[]> arr(new ZZ_p[n]); for (size_t i = 0; i < n; i++) arr[i] = v[i]; std::vector<ZZ_p> keep = v;
  auto same = [&](const vec_ZZ_p &w, const char *how) { if ((size_t) w.length() != n) mc::fail("wrong-length", mc::fmt("%s of %zu entries has %ld", how, n, w.length())); for (size_t i = 0; i < n; i++) if (w[i] != keep[i] || arr[i] != keep[i] || v[i] != keep[i]) mc::fail("wrong-entry", mc::fmt("%s: entry %zu of %zu", how, i, n)); mc::ops(1); };
  auto used = [&] { vec_ZZ_p w; w.SetLength(old); for (size_t i = 0; i < old; i++) w[i] = NTL::to_ZZ_p(7L); return w; };
  same(NTL::vector2VecZZp(v), "vector2VecZZp()"); same(NTL::array2VecZZp(arr.get(), n), "array2VecZZp()"); { vec_ZZ_p w = used(); NTL::vector2VecZZp(w, v); same(w, "vector2VecZZp(into)"); } { vec_ZZ_p w = used(); NTL::array2VecZZp(w, arr.get(), n); same(w, "array2VecZZp(into)"); }
  mc::note(mc::fmt("%zu entries of kind %d into %zu", n, kind, old)); mc::state(mc::fmt("V%zu %zu %d %ld", n, old, kind, NTL::NumBits(ZZ_p::modulus()))); mc::outcome("long");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C17");
  s.add("sizes", "logarithm, byte count, trailing zeros of all naturals to 5000 (thorough 70000), around every power of two to 420 (1100) bits, and of 17 odd numbers of up to 200 bits times every power of two to 2^210 (2^550)", sizes);
  s.add("padding", "padding of the same numbers and some negative ones by 0-140 (0-260) and more bits, and to those widths", padding);
  s.add("counts", "block and byte counts of bit lengths to 2100, around every power of two, and at the top of the type, by block sizes to 130 and more", counts);
  s.add("conversions", "vectors of 0-40 (0-90) entries into fresh and used vectors", conversions);
  s.add("longVectors", "17 (22) lengths of 63 to 65537 (200000) entries, 8 patterns of zeros, into fresh and used vectors", longVectors);
  s.add("reusedConversions", "`conversions` again where memory is handed out again at once", conversions);
  return s.main(argc, argv);
}
