/* C13: byte-string integers behave as natural numbers. */
#include "mc.hpp"
#include <memory>
#include <gmpxx.h>
#include "strint.h"
typedef mpz_class Z;

static std::string hex(const std::string &s) { std::string o; for (unsigned char c : s) o += mc::fmt("%02x", c); return o; }
static Z le(const std::string &s, size_t max) { Z z = 0; for (size_t i = std::min(s.size(), max); i-- > 0;) z = z * 256 + (unsigned char) s[i]; return z; }
static std::string be(const Z &z) { if (z == 0) return std::string(1, '\0'); std::string s; Z x = z; while (x > 0) { Z r = x % 256; s.insert(s.begin(), (char) r.get_ui()); x /= 256; } return s; }
static const std::vector<unsigned long> divisors = {1, 2, 3, 7, 10, 255, 256, 257, 65536, 1000003, 0xffffffffu, 0x100000000ul, 0x100000001ul, (unsigned long) -1L, (unsigned long) -2L, 1ul << 63};

/** Every observation of the number, which change nothing */
static void look(const StrInt &n, const Z &z, const std::string &after, bool exporting = true) {
  auto bad = [&](const char *sig, const std::string &m) { mc::fail(sig, after + ": " + m + ", the number is " + z.get_str()); };
  std::string d = n.toString(); if (d != z.get_str()) bad("wrong-text", "toString() is " + d);
  std::ostringstream o; o << n; if (o.str() != z.get_str()) bad("wrong-text", "<< writes " + o.str());
  if (exporting) for (int f = 0; f < 4; f++) { std::ostringstream q; if (f == 0) q << std::hex; else if (f == 1) q << std::oct; else if (f == 2) q << std::uppercase << std::hex << std::showbase; else q << std::scientific; q << n; if (q.str() != z.get_str()) bad("wrong-text", mc::fmt("<< writes, to a stream set for other numbers (%d), ", f) + q.str()); }
  for (unsigned long v : divisors) { Z r = z % Z(v); if (n.rem(v) != r.get_ui()) bad("wrong-remainder", mc::fmt("rem(%lu) is %lu", v, n.rem(v))); }
  Z low = z % (Z(1) << 64); if (n.lsb() != low.get_ui()) bad("wrong-lsb", mc::fmt("lsb() is %lu", n.lsb()));
  std::string want = be(z); if (n.getByteSize() != want.size()) bad("wrong-size", mc::fmt("getByteSize() is %zu instead of %zu", n.getByteSize(), want.size()));
  mc::ops(4 + divisors.size());
  if (!exporting) return;
  // a new block
  size_t len = 0; byte *b = n.toBytes(nullptr, &len);
  if (!b || len != want.size() || std::string((char *) b, len) != want) bad("wrong-bytes", mc::fmt("toBytes(nullptr) gives %zu bytes ", len) + (b ? hex(std::string((char *) b, std::min(len, want.size()))) : "(null)"));
  // blocks of every size around the needed one: reused if large enough
  for (long d2 : {-2L, -1L, 0L, 1L, 2L, 9L}) {
    long sz = (long) want.size() + d2; if (sz < 1) continue;
    byte *mine = new byte[sz]; memset(mine, 0xA5, sz); len = sz; b = n.toBytes(mine, &len);
    if (!b || len != want.size() || std::string((char *) b, len) != want) bad("wrong-bytes", mc::fmt("toBytes() into %ld bytes gives %zu bytes ", sz, len) + (b ? hex(std::string((char *) b, std::min(len, want.size()))) : "(null)"));
    if ((b == mine) != (d2 >= 0)) bad("wrong-buffer", mc::fmt("toBytes() with a block of %ld bytes for %zu %s", sz, want.size(), d2 >= 0 ? "allocates another" : "uses it"));
    if (d2 >= 0) for (long i = (long) want.size(); i < sz; i++) if (mine[i] != 0xA5) bad("wrong-buffer", "toBytes() writes behind the number");
    delete[] mine; mc::ops(1);
  }
}
static std::string text(size_t len, int kind) {
  std::string s(len, '\0');
  for (size_t i = 0; i < len; i++) switch (kind) { case 0: s[i] = (char) 0xff; break; case 1: s[i] = 0; break; case 2: s[i] = i + 1 == len ? 1 : 0; break; case 3: s[i] = i == 0 ? 1 : 0; break; case 4: s[i] = (char) (i * 37 + 11); break; default: s[i] = i + 1 == len ? (char) 0x80 : (char) 0xff; }
  return s;
}
/** All byte strings of one and two bytes */
static void bytes() {
  int hi = mc::choose(256) , two = mc::choose(2); 
  for (int lo = 0; lo < (two ? 256 : 1); lo++) {
    std::string s = two ? std::string{(char) lo, (char) hi} : std::string(1, (char) hi);
    std::unique_ptr<byte[]> b(new byte[s.size()]); memcpy(b.get(), s.data(), s.size());
    StrInt a(s.size(), b.get(), s.size()); look(a, le(s, s.size()), "bytes " + hex(s), lo % 17 == 0);
    StrInt c(8); c.set(b.get(), s.size()); look(c, le(s, 8), "bytes set " + hex(s), false);
    StrInt d(1); d.set(b.get(), s.size()); look(d, le(s, 1), "one of the bytes " + hex(s), false);
  }
  mc::note(mc::fmt("%d bytes ending in %02x", 1 + two, hi)); mc::state(mc::fmt("%d %d", two, hi)); mc::outcome("bytes");
}
/** All lengths and declared maxima up to several words */
static void lengths() {
  size_t max = 1 + mc::choose(mc::thorough() ? 70 : 40), len = mc::choose(mc::thorough() ? 80 : 48); int kind = mc::choose(6); std::string s = text(len, kind);
  std::unique_ptr<byte[]> b(new byte[len ? len : 1]); memcpy(b.get(), s.data(), len);
  StrInt a(max, b.get(), len); look(a, le(s, max), mc::fmt("StrInt(%zu, %s)", max, hex(s).c_str()));
  StrInt c(max); look(c, 0, "StrInt(max)", false); c.set(b.get(), len); look(c, le(s, max), mc::fmt("set(%s) in %zu", hex(s).c_str(), max), false);
  if (kind == 0) { StrInt e(max, nullptr, len); look(e, 0, mc::fmt("StrInt(%zu, nothing, %zu)", max, len), false); e.set(b.get(), len); look(e, le(s, max), "set afterwards", false); StrInt g(0, b.get(), len); look(g, 0, mc::fmt("StrInt(0, %zu bytes)", len), false); g.set(7ul); look(g, 7, "set to seven", false); g.add(300); look(g, 307, "and added to", false); }
  mc::note(mc::fmt("%zu bytes in at most %zu: %s", len, max, hex(s).c_str())); mc::state(mc::fmt("%zu %zu %d", max, len, kind)); mc::outcome("length");
}
/** All sequences of operations */
static void sequences() {
  size_t max = mc::among(std::vector<size_t>{1, 2, 8, 9, 17, 33}); StrInt n(max); Z z = 0; std::string h; int depth = mc::thorough() ? 5 : 4;
  static const std::vector<std::string> ss = {"", text(1, 0), text(2, 4), text(8, 0), text(9, 2), text(16, 5), text(40, 0), text(3, 1)};
  static const std::vector<unsigned long> us = {0, 1, 255, 0xffffffff, (unsigned long) -1L};
  for (int d = 0; d < depth; d++) {
    int o = mc::choose((int) (ss.size() + us.size() + us.size() + 1)); std::string what;
    if (o < (int) ss.size()) { const std::string &s = ss[o]; std::unique_ptr<byte[]> b(new byte[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size()); n.set(b.get(), s.size()); z = le(s, max); what = "set(" + hex(s) + ")"; }
    else if ((o -= ss.size()) < (int) us.size()) { n.set(us[o]); z = us[o]; what = mc::fmt("set(%lu)", us[o]); }
    else if ((o -= us.size()) < (int) us.size()) { n.add(us[o]); z += us[o]; what = mc::fmt("add(%lu)", us[o]); }
    else { n.inc(); z += 1; what = "inc()"; }
    mc::op(what); look(n, z, what, d == depth - 1); h = mc::fmt("%zu ", max) + z.get_str(16); mc::state(h);
  }
  mc::outcome("sequence");
}
/** Carries over many words */
static void carries() {
  size_t len = mc::among(std::vector<size_t>{7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100}); unsigned long a = mc::among(std::vector<unsigned long>{1, 2, 255, (unsigned long) -1L}); int k = mc::choose(6);
  std::string s = text(len, k); StrInt n(len, (const byte *) s.data(), len); Z z = le(s, len);
  for (int i = 0; i < 20; i++) { if (i % 3 == 2) { n.inc(); z += 1; } else { n.add(a); z += a; } look(n, z, mc::fmt("add %d", i), i == 19); }
  mc::note(mc::fmt("%zu bytes of kind %d, adding %lu", len, k, a)); mc::state(mc::fmt("%zu %lu %d", len, a, k)); mc::outcome("carry");
}
/** Hundreds of bytes, and long histories of additions */
static void large() {
  size_t len = mc::among(std::vector<size_t>{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000}), max = len + mc::choose(3) - 1; int kind = mc::choose(6); std::string s = text(len, kind);
  std::unique_ptr<byte[]> b(new byte[len]); memcpy(b.get(), s.data(), len); StrInt a(max, b.get(), len); Z z = le(s, max); look(a, z, mc::fmt("%zu bytes of kind %d in at most %zu", len, kind, max));
  int n = mc::thorough() ? 3000 : 300; unsigned long v = mc::among(std::vector<unsigned long>{1, 0x8000000000000000ul, (unsigned long) -1L});
  for (int i = 0; i < n; i++) { if (i % 7 == 6) { a.inc(); z += 1; } else { a.add(v); z += v; } if (i % 100 == 99 || i < 5) look(a, z, mc::fmt("step %d", i), false); }
  look(a, z, "the end"); a.set(b.get(), len); look(a, le(s, max), "set again", false); a.set(5ul); look(a, 5, "set to five");
  mc::note(mc::fmt("%zu bytes of kind %d, %d additions of %lu", len, kind, n, v)); mc::state(mc::fmt("big %zu %zu %d %lu", len, max, kind, v)); mc::outcome("large");
}
/** Counting: every number from a start on, through all carries of the lower bytes */
static void counting() {
  size_t bytes = 1 + mc::choose(10); unsigned long start = bytes >= 8 ? ~0ul : (1ul << (8 * bytes)) - 1; long n = mc::thorough() ? 70000 : 3000; int by = mc::choose(3); unsigned long v = by == 0 ? 1 : by == 1 ? 255 : 65537;
  StrInt a(16); Z z = start; a.set(start); if (bytes > 8) { std::string s(bytes, (char) 0xff); a.set((const byte *) s.data(), bytes); z = le(s, 16); } z -= 0;
  for (long i = 0; i < n; i++) { if (by == 0) a.inc(); else a.add(v); z += v; if (i % 97 == 0 || (i & (i + 1)) == 0) { std::string d = a.toString(); if (d != z.get_str()) mc::fail("wrong-text", mc::fmt("after %ld additions of %lu to %lu: ", i + 1, v, start) + d + ", the number is " + z.get_str()); Z r = z % 1000003; if (a.rem(1000003) != r.get_ui()) mc::fail("wrong-remainder", mc::fmt("after %ld additions", i + 1)); mc::ops(2); } }
  look(a, z, "counting"); mc::note(mc::fmt("%ld additions of %lu from %lu", n, v, start)); mc::state(mc::fmt("count %zu %d", bytes, by)); mc::outcome("counted");
}
/** Two numbers at once, of different maxima: operations on one leave the other alone */
static void two() {
  size_t mx[2] = {mc::among(std::vector<size_t>{1, 8, 20}), mc::among(std::vector<size_t>{2, 9, 33})}; std::unique_ptr<StrInt> n[2] = {std::unique_ptr<StrInt>(new StrInt(mx[0])), std::unique_ptr<StrInt>(new StrInt(mx[1]))}; Z z[2] = {0, 0}; std::string h = mc::fmt("two %zu %zu", mx[0], mx[1]);
  for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
    int w = mc::choose(2), o = mc::choose(6); std::string s, what;
    switch (o) {
      case 0: case 1: case 2: { s = text(o == 0 ? 1 : o == 1 ? 9 : 30, o == 1 ? 0 : 4); std::unique_ptr<byte[]> b(new byte[s.size()]); memcpy(b.get(), s.data(), s.size()); n[w]->set(b.get(), s.size()); z[w] = le(s, mx[w]); what = "set(" + hex(s) + ")"; break; }
      case 3: n[w]->set(77ul); z[w] = 77; what = "set(77)"; break;
      case 4: n[w]->add(~0ul); z[w] += ~0ul; what = "add(max)"; break;
      default: { Z keep = z[w]; n[w].reset(new StrInt(mx[w])); z[w] = 0; what = "new"; }
    }
    h += mc::fmt(" %d%d", w, o); mc::op(what); for (int i = 0; i < 2; i++) look(*n[i], z[i], h + ": " + what + mc::fmt(" of number %d, about %d", w, i), d == 3);
    std::ostringstream both; both << *n[0] << "|" << *n[1]; mc::require(both.str() == z[0].get_str() + "|" + z[1].get_str(), "wrong-text", h + ": both written: " + both.str());
    size_t l0 = 0, l1 = 0; byte *b0 = n[0]->toBytes(nullptr, &l0), *b1 = n[1]->toBytes(nullptr, &l1); mc::require(std::string((char *) b0, l0) == be(z[0]) && std::string((char *) b1, l1) == be(z[1]), "wrong-bytes", h + ": both exported"); delete[] b0; delete[] b1; mc::state(h);
  }
  mc::outcome("two");
}
/** Thousands of bytes, around powers of two */
static void huge() {
  size_t len = mc::among(mc::thorough() ? std::vector<size_t>{2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 8200, 16383, 16385, 32769, 65535, 65536, 65537} : std::vector<size_t>{2049, 4095, 4097, 8191, 8192, 8193, 8200, 16385}), max = len + mc::choose(2); int kind = std::vector<int>{0, 2, 3, 4}[mc::choose(4)]; std::string s = text(len, kind);
  std::unique_ptr<byte[]> b(new byte[len]); memcpy(b.get(), s.data(), len); StrInt a(max, b.get(), len); mpz_class z; mpz_import(z.get_mpz_t(), len, -1, 1, 0, 0, s.data());
  auto check = [&](const std::string &after) {
    for (unsigned long v : divisors) { Z r = z % Z(v); if (a.rem(v) != r.get_ui()) mc::fail("wrong-remainder", after + mc::fmt(": rem(%lu)", v)); } Z low = z % (Z(1) << 64); mc::require(a.lsb() == low.get_ui(), "wrong-lsb", after);
    size_t count = 0; std::string want((mpz_sizeinbase(z.get_mpz_t(), 256)), '\0'); mpz_export(&want[0], &count, 1, 1, 0, 0, z.get_mpz_t()); if (!count) { want.assign(1, '\0'); count = 1; } mc::require(a.getByteSize() == count, "wrong-size", after + mc::fmt(": getByteSize() is %zu instead of %zu", a.getByteSize(), count));
    size_t l = 0; byte *x = a.toBytes(nullptr, &l); mc::require(x && l == count && !memcmp(x, want.data(), l), "wrong-bytes", after); delete[] x; mc::require(a.toString() == z.get_str(), "wrong-text", after); std::ostringstream o; o << a; mc::require(o.str() == z.get_str(), "wrong-text", after + ": written"); mc::ops(6 + divisors.size());
  };
  std::string h = mc::fmt("%zu bytes of kind %d in at most %zu", len, kind, max); mc::note(h); check(h); a.add(~0ul); z += ~0ul; a.inc(); z += 1; check(h + ", added to"); a.set(b.get(), len / 2); mpz_import(z.get_mpz_t(), len / 2, -1, 1, 0, 0, s.data()); check(h + ", set to the first half"); a.set(3ul); z = 3; check(h + ", set to three"); mc::state("huge " + h); mc::outcome("huge");
}
int main(int argc, char **argv) {
  mc::Suite s("C13");
  s.add("bytes", "all byte strings of one and two bytes, all observations", bytes);
  s.add("lengths", "all lengths up to 47 (thorough 79) in all declared maxima up to 40 (thorough 70), 6 patterns", lengths);
  s.add("sequences", "all sequences of 4 (thorough 5) of 19 operations, 6 declared maxima", sequences);
  s.add("carries", "20 additions from 66 numbers", carries);
  s.add("large", "63 to 1000 bytes of 6 kinds in maxima one less, equal and one more, and 300 (thorough 3000) additions of 3 numbers", large);
  s.add("huge", "8 (thorough 15) lengths of 2049 to 16385 (65537) bytes, 4 kinds, exact maximum and one more, with additions and settings in between", huge);
  s.add("counting", "3000 (thorough 70000) increments and additions from below the carries of 1-10 bytes", counting);
  s.add("two", "two numbers of 3 x 3 maxima: all sequences of 4 (thorough 5) of 6 operations on either", two);
  s.add("reusedLengths", "`lengths` again where memory is handed out again at once", lengths);
  s.add("reusedTwo", "`two` again where memory is handed out again at once", two);
  return s.main(argc, argv);
}
