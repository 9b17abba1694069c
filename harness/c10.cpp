/* C10: digests are the standard ones and independent of history. */
#include "psi.hpp"
#include "refhash.hpp"
#include "shabyte.h"
#include "shastr.h"
using namespace psi;

static std::string take(const byte *d, size_t n) { return d ? std::string((const char *) d, n) : std::string("(null)"); }
static std::string upper(std::string s) { for (auto &c : s) c = toupper(c); return s; }
static const ZZ &P() { static ZZ p = prime(600); return p; }

static std::string cut(const std::string &s, size_t len) { return len > 0 && len < s.size() ? s.substr(0, len) : s; }

/** A field element of exactly n decimal digits */
static ZZ_p digits(int n, int kind) {
  ZZ z;
  if (kind == 0) z = NTL::power(NTL::to_ZZ(10), n - 1);          // 1000...
  else if (kind == 1) z = NTL::power(NTL::to_ZZ(10), n) - 1;     // 9999...
  else { for (int i = 0; i < n; i++) z = z * 10 + (1 + (i * 7 + kind) % 9); }
  if (n == 1 && kind == 0) z = 0;
  return NTL::to_ZZ_p(z);
}

struct Algo { // one instance under test, whatever its kind
  int kind; uint32_t seed; std::unique_ptr<HashAlgorithm<ZZ_p>> zz; std::unique_ptr<SHAString> str; std::unique_ptr<SHAByteArray> bytes;
  explicit Algo(int k, uint32_t s = 13) : kind(k), seed(s) {
    switch (k) {
      case 0: zz.reset(new MurmurHash3(s)); break; case 1: zz.reset(new SHAZZp(SHA1_FLAVOUR)); break; case 2: zz.reset(new SHAZZp(SHA256_FLAVOUR)); break;
      case 3: str.reset(new SHAString(SHA1_FLAVOUR)); break; case 4: str.reset(new SHAString(SHA256_FLAVOUR)); break;
      case 5: bytes.reset(new SHAByteArray(SHA1_FLAVOUR)); break; case 6: bytes.reset(new SHAByteArray(SHA256_FLAVOUR)); break;
      case 7: zz.reset(new SHAZZp()); break; case 8: str.reset(new SHAString()); break; case 9: bytes.reset(new SHAByteArray()); break;
    }
  }
  bool is256() const { return kind == 2 || kind == 4 || kind == 6; }
  size_t size() const { return zz ? zz->hashSize() : str ? str->hashSize() : bytes->hashSize(); }
  std::string name() const { return zz ? zz->name() : str ? str->name() : bytes->name(); }
  std::string want(const std::string &m) const { return kind == 0 ? ref::murmur3(m, seed) : is256() ? ref::sha256(m) : ref::sha1(m); }
  /** Hash the text (decimal digits if the algorithm is for field elements), only len bytes of it if len > 0 */
  void check(const std::string &m, size_t len, const std::string &where) {
    std::string got, w;
    if (zz) { ZZ z; conv(z, m.c_str()); got = take(zz->hash(NTL::to_ZZ_p(z), len), size()); w = want(cut(m, len)); }
    else if (str) { got = take(str->hash(m, len), size()); w = want(cut(m, len)); }
    else { // exactly the bytes to be read, in a block of their own
      size_t n = len ? std::min(len, m.size()) : m.size();
      std::unique_ptr<byte[]> b(new byte[n ? n : 1]); memcpy(b.get(), m.data(), n);
      std::string before((char *) b.get(), n);
      got = take(bytes->hash(b.get(), n), size()); w = n ? want(m.substr(0, n)) : "(null)";
      mc::require(before == std::string((char *) b.get(), n), "input-changed", where);
    }
    mc::ops(1);
    if (got != w) mc::fail("wrong-digest", mc::fmt("%s: algorithm %d seed %u, message of %zu bytes, length argument %zu: %s, should be %s", where.c_str(), kind, seed, m.size(), len, ref::hex(got).c_str(), ref::hex(w).c_str()));
  }
};
static std::string text(int n, int kind) {
  std::string s; for (int i = 0; i < n; i++) s += kind == 0 ? (char) ('a' + i % 26) : kind == 1 ? '\0' : kind == 2 ? '\xff' : (char) (i * 37 + kind);
  return s;
}
static const std::vector<uint32_t> seeds = {13, 0, 1, 0x80000000u, 0xffffffffu, 0x12345678u};

/** Every length, every prefix length */
static void values() {
  ZZ_p::init(P());
  int k = mc::choose(7); uint32_t seed = k == 0 ? mc::among(seeds) : 0;
  Algo a(k, seed);
  int block = mc::choose(9), kind = mc::choose(5);
  for (int n = 1 + block * 20; n <= 20 + block * 20; n++) {
    std::string m = k <= 2 ? mc::str(digits(n, kind)) : text(n, kind);
    if (k > 2 && kind == 4 && n == 1) m.clear();
    for (size_t len : {(size_t) 0, (size_t) 1, (size_t) 7, (size_t) 15, (size_t) 16, (size_t) 17, (size_t) 31, (size_t) 55, (size_t) 64, m.size() > 1 ? m.size() - 1 : 1, m.size(), m.size() + 1, (size_t) 100000})
      a.check(m, len, "value");
    if (n <= 40) for (size_t len = 0; len <= (size_t) n; len++) a.check(m, len, "every prefix");
    mc::state(mc::fmt("%d %u %d %d", k, seed, kind, n));
  }
  mc::note(mc::fmt("algorithm %d seed %u, messages of %d to %d bytes of kind %d, all length arguments", k, seed, 1 + block * 20, 20 + block * 20, kind));
  mc::outcome(mc::fmt("algorithm %d", k));
}
/** Small and boundary numbers, exhaustively */
static void numbers() {
  ZZ_p::init(mc::choose(2) ? P() : prime(64, false));
  int k = mc::choose(3), part = mc::choose(16);
  Algo a(k);
  for (long i = part * 128; i < (part + 1) * 128; i++) {
    a.check(std::to_string(i), 0, "number");
    ZZ top = ZZ_p::modulus() - 1 - i; a.check(mc::str(top), 0, "number from the top");
  }
  for (int b = 0; b < 64; b++) { ZZ z = NTL::power2_ZZ(b); a.check(mc::str(z), 0, "power"); if (b < 63) a.check(mc::str(ZZ(z + part)), 0, "power"); }
  mc::note(mc::fmt("algorithm %d, numbers %d..%d and as many below the modulus", k, part * 128, part * 128 + 127));
  mc::state(mc::fmt("n%d %d", k, part));
}
/** Sequences of hashes over several instances: every digest depends on its own input alone */
static void history() {
  ZZ_p::init(P());
  std::vector<std::unique_ptr<Algo>> in; 
  in.emplace_back(new Algo(mc::choose(3))); in.emplace_back(new Algo(mc::choose(7), 7));
  std::vector<std::string> ms = {"0", "7", "123456789012345", "1234567890123456", "12345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890"};
  int depth = mc::thorough() ? 5 : 4; std::string h;
  for (int d = 0; d < depth; d++) {
    int i = mc::choose(2), m = mc::choose((int) ms.size()); size_t len = d == 1 ? mc::choose(2) * 6 : 0;
    mc::note(mc::fmt("instance %d (algorithm %d) hashes \"%.20s\" (%zu bytes), length argument %zu", i, in[i]->kind, ms[m].c_str(), ms[m].size(), len));
    in[i]->check(ms[m], len, "history");
    h += mc::fmt("%d%d%d", in[i]->kind, m, (int) len); mc::state(h);
  }
  mc::outcome("history");
}
/** Destroying, recreating and interleaving instances; default seeds; digest stays valid until the next hash */
static void instances() {
  ZZ_p::init(P());
  int k = mc::choose(7), other = mc::choose(7);
  Algo a(k, 99);
  std::string m = "31415926535897932384626433832795028841971";
  const byte *d = a.zz ? a.zz->hash(NTL::to_ZZ_p(NTL::conv<ZZ>(m.c_str()))) : a.str ? a.str->hash(m) : a.bytes->hash((byte *) m.data(), m.size());
  { Algo b(other, 99); b.check("271828182845904523536", 0, "other"); }
  mc::require(take(d, a.size()) == a.want(m), "digest-overwritten", "another instance changed a digest");
  a.check(m, 0, "again"); a.check("1", 0, "short"); a.check(m, 0, "again");
  if (k > 4) { mc::require(a.bytes->hash(nullptr, 5) == nullptr && a.bytes->hash((byte *) "x", 0) == nullptr, "null-digest", "nothing to hash"); a.check(m, 0, "after nothing"); }
  mc::ops(6); mc::note(mc::fmt("algorithms %d and %d", k, other)); mc::state(mc::fmt("i%d%d", k, other));
}
/** Names, sizes, readable form, published vectors */
static void facts() {
  ZZ_p::init(P());
  int k = mc::choose(10);
  Algo a(k);
  size_t want = k == 0 ? 16 : a.is256() ? 32 : 20;
  mc::require(a.size() == want, "wrong-size", mc::fmt("algorithm %d: digest size %zu, should be %zu", k, a.size(), want));
  std::string n = a.name(), u; for (char c : n) u += tolower(c);
  mc::op("name: " + n);
  bool ok = k == 0 ? u.find("murmur") != std::string::npos && u.find('3') != std::string::npos : u.find(a.is256() ? "256" : "1") != std::string::npos && u.find("sha") != std::string::npos && (a.is256() || u.find("256") == std::string::npos);
  mc::require(ok, "wrong-name", mc::fmt("algorithm %d calls itself \"%s\"", k, n.c_str()));
  a.check("123", 0, "facts");
  // the references themselves
  mc::require(ref::hex(ref::sha1("abc")) == "A9993E364706816ABA3E25717850C26C9CD0D89D" && ref::hex(ref::sha256("abc")) == "BA7816BF8F01CFEA414140DE5DAE2223B00361A396177A9CB410FF61F20015AD"
    && ref::hex(ref::murmur3("The quick brown fox jumps over the lazy dog", 0)) == "6C1B07BC7BBC4BE347939AC4A93C437A" && ref::hex(ref::murmur3("", 0)) == std::string(32, '0'), "reference", "the reference digests are wrong");
  for (int len = 0; len <= 40; len++) for (int kind = 0; kind < 4; kind++) {
    std::string b = text(len, kind);
    std::string r = HashAlgorithm<ZZ_p>::readableDigest((const byte *) b.data(), b.size());
    mc::require(upper(r) == ref::hex(b), "wrong-hexadecimal", r + " should be " + ref::hex(b)); mc::ops(1);
  }
  mc::state(mc::fmt("f%d", k));
}

/** Long messages and numbers, with lengths around the block sizes and powers of two, and prefixes of them; a short one afterwards */
static void large() {
  ZZ_p::init(NTL::power2_ZZ(mc::thorough() ? 70000 : 18000) + 1); int k = mc::choose(7), kind = mc::choose(3); Algo a(k, 0x9747b28c);
  std::vector<int> ns = {181, 191, 192, 193, 239, 240, 241, 247, 248, 249, 255, 256, 257, 319, 320, 321, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000}; if (mc::thorough()) for (int n : {8191, 8192, 8193, 16383, 16384, 16385, 20000}) ns.push_back(n);
  if (k > 2) for (int n : {32767, 32768, 65535, 65536, 65537, 100000}) ns.push_back(n);
  for (int n : ns) {
    std::string m = k <= 2 ? mc::str(digits(n, kind)) : text(n, kind + 1); mc::require((int) m.size() == n, "harness", "length");
    for (size_t len : {(size_t) 0, (size_t) n - 1, (size_t) n / 2, (size_t) 255, (size_t) 256, (size_t) 257, (size_t) n + 1}) a.check(m, len, "large");
    a.check("42", 0, "after a large one"); mc::state(mc::fmt("L%d %d %d", k, kind, n));
  }
  // every length once, in one instance
  for (int n = 1; n <= 700; n++) a.check(k <= 2 ? mc::str(digits(n, 2)) : text(n, 4), 0, "every length");
  mc::note(mc::fmt("algorithm %d, lengths to %d, kind %d", k, ns.back(), kind)); mc::outcome(mc::fmt("algorithm %d", k));
}
/** One instance for very many hashes */
static void longRun() {
  ZZ_p::init(P()); int k = mc::choose(7); Algo a(k, 13); int n = mc::thorough() ? 300000 : 20000;
  for (int i = 0; i < n; i++) a.check(std::to_string((long) i * i * 7919 % 1000000007), 0, "long run");
  mc::note(mc::fmt("%d hashes", n)); mc::state(mc::fmt("run %d", k));
}
/** A MurmurHash3 without a seed given has one of its own, which stays; other objects are undisturbed by its creation */
static void ownSeed() {
  ZZ_p::init(P()); mc::env().randMode = mc::among(std::vector<int>{0, 1, 2, 3, 4, 6}); int depth = mc::thorough() ? 6 : 5; Algo fix(0, 99); std::string h;
  std::vector<std::unique_ptr<MurmurHash3>> own; std::vector<std::map<std::string, std::string>> known; static const std::vector<std::string> ms = {"0", "12345678901234567", "31415926535897932384626433832795028841971"};
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(own.empty() ? 2 : 5); if (o > 1 && own.size() < 2 && o == 4) continue;
    if (o == 0) { if (own.size() == 3) continue; own.emplace_back(new MurmurHash3()); known.emplace_back(); mc::op("MurmurHash3()"); mc::require(own.back()->hashSize() == 16, "wrong-size", "hashSize()"); }
    else if (o == 1) { (void) rand(); fix.check(ms[d % 3], 0, "an instance with a seed"); }
    else { size_t i = o == 4 ? own.size() - 1 : 0; const std::string &m = ms[o == 3 ? 0 : (d + o) % 3]; ZZ z; conv(z, m.c_str()); std::string got = take(own[i]->hash(NTL::to_ZZ_p(z)), 16); auto r = known[i].insert({m, got}); mc::require(r.first->second == got, "digest-changed", mc::fmt("instance %zu without a given seed: %s, before %s", i, ref::hex(got).c_str(), ref::hex(r.first->second).c_str())); for (auto &e : known[i]) mc::require(e.first == m || e.second != got, "collision", "two inputs share a digest"); mc::op(mc::fmt("instance %zu hashes", i)); }
    h += (char) ('0' + o); mc::state(h);
  }
  mc::outcome("own seed");
}
/** A message, the same with one place altered, and the message again: every place, one instance; also in the very same memory */
static void altered() {
  int k = mc::choose(7), len = mc::among(std::vector<int>{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500}), how = mc::choose(3); if (k <= 2) ZZ_p::init(NTL::power2_ZZ(1700) + 1); else ZZ_p::init(P());
  Algo a(k, 5); std::string m = k <= 2 ? mc::str(digits(len, 2)) : text(len, 3); a.check(m, 0, "the message");
  for (int i = 0; i < len; i++) {
    std::string x = m; if (k <= 2) x[i] = (char) ('1' + (x[i] - '1' + 1 + how) % 9); else x[i] = (char) (x[i] ^ (how == 0 ? 1 : how == 1 ? 0x80 : 0xff));
    std::string where = mc::fmt("place %d altered", i);
    a.check(x, 0, where); if (i % 3 == 0) a.check(m, 0, "the message again"); if (k > 2 && len > 1) { a.check(m, (size_t) i, "a prefix"); a.check(x, (size_t) i + 1, where + ", a prefix"); }
  }
  if (a.bytes) { std::unique_ptr<byte[]> b(new byte[len]); memcpy(b.get(), m.data(), len); for (int i = 0; i < len; i++) { b[i] ^= (byte) (1 << (i + how) % 8); std::string got = take(a.bytes->hash(b.get(), len), a.size()); mc::ops(1); if (got != a.want(std::string((char *) b.get(), len))) mc::fail("wrong-digest", mc::fmt("memory altered at place %d since", i)); } }
  if (a.zz) { ZZ_p z = digits(len, 2); for (int i = 0; i < len; i++) { z += 1; std::string got = take(a.zz->hash(z), a.size()); mc::ops(1); if (got != a.want(mc::str(z))) mc::fail("wrong-digest", mc::fmt("the number counted up %d times", i + 1)); } }
  mc::note(mc::fmt("algorithm %d, %d bytes, kind %d: every place", k, len, how)); mc::state(mc::fmt("alt %d %d %d", k, len, how)); mc::outcome(mc::fmt("algorithm %d", k));
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C10");
  s.add("facts", "names, sizes, readable form of every algorithm; published test vectors", facts);
  s.add("values", "every message length 1-180, five kinds of content, all prefix lengths up to 40 and boundary ones beyond, six seeds", values);
  s.add("numbers", "all field elements below 2048, the 2048 largest ones and powers of two", numbers);
  s.add("history", "all sequences of 4 (thorough 5) hashes over two instances of any algorithms and five messages", history);
  s.add("instances", "all pairs of instances: digests outlive other instances", instances);
  s.add("ownSeed", "all sequences of 5 (thorough 6) creations of instances without a given seed and hashes by them and by one with a seed, under 6 behaviours of rand()", ownSeed);
  s.add("large", "messages to 5000 digits (thorough 20000) or 100000 bytes around block sizes and powers of two, their prefixes, and all lengths to 700", large);
  s.add("altered", "messages of 25 lengths to 500, altered in every single place in 3 ways, by one instance, with the message itself between; the same in place", altered);
  s.add("longRun", "20000 (thorough 300000) hashes by one instance of each algorithm", longRun);
  s.add("reusedInstances", "`instances` again where memory is handed out again at once", instances);
  s.add("reusedAltered", "`altered` again where memory is handed out again at once", altered);
  s.add("reusedHistory", "`history` again where memory is handed out again at once", history);
  return s.main(argc, argv);
}
