/* C09: the hash table keeps every element and never exceeds a bucket's capacity. */
#include "psi.hpp"
using namespace psi;
typedef HashBuckets<ZZ_p> HB;
typedef HashTable<ZZ_p, MarkedVector<ZZ_p>> HT;

struct Model {
  size_t k, h, n = 0; std::vector<std::vector<ZZ_p>> b; Model(size_t k, size_t h) : k(k), h(h), b(k) {}
  std::string show() const { std::string s = mc::fmt("k%zu h%zu:", k, h); for (auto &v : b) { s += "["; for (auto &e : v) s += mc::str(e) + " "; s += "]"; } return s; }
};
static void agree(HB &t, const Model &m, const std::string &after) {
  mc::require(t.getLength() == m.k && t.getMaxLoad() == m.h, "wrong-shape", after);
  if (t.size() != m.n) mc::fail("wrong-size", mc::fmt("%s: size() is %zu after %zu insertions", after.c_str(), t.size(), m.n));
  for (size_t i = 0; i < m.k; i++) {
    MarkedVector<ZZ_p> v = t.getBucket(i), w = t[i];
    std::vector<ZZ_p> a(v.begin(), v.end()), c(w.begin(), w.end());
    if (a != m.b[i] || c != m.b[i]) mc::fail("wrong-content", mc::fmt("%s: bucket %zu differs; expected %s", after.c_str(), i, m.show().c_str()));
    mc::require(!v.isMarked(), "marked-early", after);
  }
}
class OneValue : public PseudoRandom<ZZ_p, ZZ_p> { // a predictable filler
  public: long next = 1000000; size_t calls = 0;
    ZZ_p generate(const ZZ_p, const size_t, const size_t) { calls++; return NTL::to_ZZ_p(next++); }
    ZZ_p generate(const size_t, const size_t) { calls++; return NTL::to_ZZ_p(next++); }
    ZZ_p generate() { calls++; return NTL::to_ZZ_p(next++); }
    ZZ_p randomSeed() { return NTL::to_ZZ_p(1); }
    ZZ_p defaultSeed() { return NTL::to_ZZ_p(1); }
};
static void expectFatal(const std::function<void()> &f, const std::string &what) {
  mc::Outcome o = mc::isolate([&] { f(); return std::string("went on"); });
  mc::op(what + " -> " + o.show());
  if (o.kind != mc::Outcome::EXITED || o.code == 0) mc::fail("not-refused", what + " should end the program with a failure status, but " + o.show());
  mc::outcome("refused");
}
static void concealed(HB &t, Model &m) {
  if (mc::choose(2)) { ZZpPRF prf(ZZ_p::modulus()); t.conceal(prf); } else { OneValue f; t.conceal(f); size_t room = 0; for (auto &v : m.b) room += m.h - v.size(); mc::require(f.calls == room, "wrong-filling", mc::fmt("%zu values drawn for %zu empty places", f.calls, room)); }
  mc::op("conceal");
  for (size_t i = 0; i < m.k; i++) {
    MarkedVector<ZZ_p> v = t.getBucket(i);
    if (v.size() != m.h) mc::fail("wrong-filling", mc::fmt("bucket %zu has %zu entries after concealment, capacity %zu", i, v.size(), m.h));
    for (size_t j = 0; j < m.b[i].size(); j++) mc::require(v[j] == m.b[i][j], "content-lost", mc::fmt("concealment changed entry %zu of bucket %zu", j, i));
    if (v.isMarked() != m.b[i].empty()) mc::fail("wrong-mark", mc::fmt("bucket %zu held %zu elements and is %smarked", i, m.b[i].size(), v.isMarked() ? "" : "not "));
    for (size_t j = m.b[i].size(); j < m.h; j++) for (size_t x = 0; x < m.k; x++) { MarkedVector<ZZ_p> o = t.getBucket(x); for (size_t y = m.b[x].size(); y < m.h; y++) if ((x != i || y != j) && o[y] == v[j]) mc::fail("fill-repeats", "concealment used one filler value twice"); }
  }
  mc::outcome("concealed");
}

/** All operation sequences over a small table */
static void sequences(int depth) {
  ZZ_p::init(prime(64));
  struct S { size_t k, h; }; S s = mc::among(std::vector<S>{{1, 1}, {2, 1}, {2, 2}, {3, 2}, {1, 3}});
  Placement alg, swap; for (int i = 0; i < 6; i++) { alg.where[NTL::to_ZZ(i)] = i; swap.where[NTL::to_ZZ(i)] = 255 - i; }
  HB t(s.k, s.h, &alg); Model m(s.k, s.h); HashAlgorithm<ZZ_p> *cur = &alg;
  auto bucketOf = [&](const ZZ_p &e) { return (size_t) (cur->hash(e)[0]) % s.k; };
  agree(t, m, "new");
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(6 + (int) s.k + 1);
    std::string what; bool fatal = false; std::function<void()> f;
    if (o < 3) { // add
      ZZ_p e = NTL::to_ZZ_p(o); size_t i = bucketOf(e); what = "add(" + mc::str(e) + ")"; fatal = m.b[i].size() == s.h;
      f = [&t, e] { t.add(e); };
      if (!fatal) { m.b[i].push_back(e); m.n++; }
    } else if (o == 3) { // a list, through the base class; stops where it does not fit
      ZZ_p l[3] = {NTL::to_ZZ_p(4), NTL::to_ZZ_p(5), NTL::to_ZZ_p(4)}; what = "add({4,5,4})";
      Model x = m; for (auto &e : l) { size_t i = bucketOf(e); if (x.b[i].size() == s.h) fatal = true; else { x.b[i].push_back(e); x.n++; } }
      std::vector<ZZ_p> v(l, l + 3);
      f = [&t, v]() mutable { static_cast<HT &>(t).add(v.data(), 3); };
      if (!fatal) m = x;
    } else if (o == 4) { static_cast<HT &>(t).add((ZZ_p *) nullptr, 0); agree(t, m, "adding nothing"); mc::op("add nothing"); continue; }
    else if (o == 5) { cur = cur == &alg ? (HashAlgorithm<ZZ_p> *) &swap : &alg; t.setHashAlgorithm(cur); mc::op("setHashAlgorithm(other)"); agree(t, m, "changing the algorithm"); continue; }
    else { size_t i = o - 6; what = mc::fmt("addToBucket(9, %zu)", i); ZZ_p e = NTL::to_ZZ_p(9); fatal = i >= s.k || m.b[i].size() == s.h; f = [&t, e, i] { t.addToBucket(e, i); }; if (!fatal) { m.b[i].push_back(e); m.n++; } }
    if (fatal) { expectFatal(f, what + " to " + m.show()); mc::state(m.show() + " full"); return; }
    f(); mc::op(what);
    agree(t, m, what);
    mc::state(m.show());
  }
  int end = mc::choose(3);
  if (end == 0) concealed(t, m);
  else if (end == 1) { size_t i = s.k + mc::choose(2) * 1000; expectFatal([&] { t.getBucket(i); }, mc::fmt("getBucket(%zu) of %zu", i, s.k)); }
  else { expectFatal([&] { t[(size_t) -1]; }, "operator[](-1)"); }
}
/** Without an algorithm */
static void bare() {
  ZZ_p::init(prime(64)); size_t h = 1 + mc::choose(3); HB t(2, h); Model m(2, h); int n = mc::choose((int) h + 2);
  for (int i = 0; i < n; i++) {
    if (m.b[0].size() == h) { expectFatal([&] { t.add(NTL::to_ZZ_p(i)); }, "add() without algorithm to a full bucket"); return; }
    t.add(NTL::to_ZZ_p(i)); mc::op("add"); m.b[0].push_back(NTL::to_ZZ_p(i)); m.n++; agree(t, m, "add without algorithm"); mc::state(m.show());
  }
  t.setHashAlgorithm((const HashAlgorithm<ZZ_p> *) nullptr); agree(t, m, "null algorithm");
}
/** A digest of given bytes */
class Digest : public HashAlgorithm<ZZ_p> {
  public: std::string d; explicit Digest(size_t n) : d(n, 0) {}
    byte *hash(const ZZ_p n, const size_t = 0) { ZZ z = rep(n); if (d.size()) NTL::BytesFromZZ((byte *) &d[0], z, d.size()); return (byte *) &d[0]; }
    size_t hashSize() const { return d.size(); }
    std::string name() const { return "digest"; }
};
/** Equidistributed digests spread equally; a digest's bucket is always the same */
static void spread() {
  ZZ_p::init(prime(200));
  int bytes = 1 + mc::choose(2); size_t k = mc::among(std::vector<size_t>{1, 2, 3, 5, 7, 8, 16, 17, 31, 64, 100, 128, 255, 256, 257, 1000});
  size_t total = bytes == 1 ? 256 : 65536;
  Digest alg(bytes);
  HB t(k, total, &alg);
  for (size_t i = 0; i < total; i++) t.add(NTL::to_ZZ_p((long) i));
  mc::ops(total); mc::note(mc::fmt("all %zu digests of %d bytes over %zu buckets", total, bytes, k));
  std::vector<size_t> at(total, k); size_t n = 0;
  for (size_t j = 0; j < k; j++) {
    MarkedVector<ZZ_p> v = t.getBucket(j); n += v.size();
    if (v.size() < total / k || v.size() > (total + k - 1) / k) mc::fail("uneven", mc::fmt("%zu of %zu equidistributed digests of %d bytes in bucket %zu of %zu", v.size(), total, bytes, j, k));
    for (auto &e : v) at[NTL::conv<long>(rep(e))] = j;
  }
  mc::require(n == total, "lost", "elements lost");
  // in reverse, in another table, one by one
  HB u(k, total, &alg);
  for (size_t i = 0; i < total; i += bytes == 1 ? 1 : 97) { HB one(k, 1, &alg); ZZ_p e = NTL::to_ZZ_p((long) (total - 1 - i)); one.add(e); mc::require(one[at[total - 1 - i]].size() == 1, "unstable-bucket", mc::fmt("digest %zu went elsewhere in another table of %zu buckets", total - 1 - i, k)); mc::ops(1); }
  mc::state(mc::fmt("%d %zu", bytes, k)); mc::outcome(mc::fmt("%zu buckets", k));
}
/** Real algorithms and long digests: the same bucket in every table, whatever was inserted before */
static void stable() {
  ZZ_p::init(prime(160, false));
  int a = mc::choose(4); size_t k = mc::among(std::vector<size_t>{1, 2, 3, 10, 97, 1024});
  std::unique_ptr<HashAlgorithm<ZZ_p>> alg;
  auto make = [&]() -> HashAlgorithm<ZZ_p> * { return a == 0 ? (HashAlgorithm<ZZ_p> *) new MurmurHash3(13U) : a == 1 ? (HashAlgorithm<ZZ_p> *) new SHAZZp(SHA1_FLAVOUR) : a == 2 ? (HashAlgorithm<ZZ_p> *) new SHAZZp(SHA256_FLAVOUR) : (HashAlgorithm<ZZ_p> *) new Digest(20); };
  alg.reset(make());
  HB big(k, 400, alg.get()); std::vector<ZZ_p> es;
  for (int i = 0; i < 160; i++) es.push_back(NTL::to_ZZ_p(i < 80 ? NTL::power2_ZZ(i * 2) : NTL::to_ZZ(i * 1000003L)));
  for (auto &e : es) big.add(e);
  std::map<ZZ, size_t> at; size_t n = 0;
  for (size_t j = 0; j < k; j++) { MarkedVector<ZZ_p> v = big[j]; n += v.size(); size_t last = 0; for (auto &e : v) { at[rep(e)] = j; size_t pos = std::find(es.begin(), es.end(), e) - es.begin(); mc::require(pos < es.size() && pos >= last, "wrong-order", "not in insertion order"); last = pos; } }
  mc::require(n == es.size() && big.size() == es.size(), "lost", mc::fmt("%zu of %zu elements, size() %zu", n, es.size(), big.size()));
  for (size_t i = 0; i < es.size(); i++) {
    const ZZ_p &e = es[es.size() - 1 - i]; std::unique_ptr<HashAlgorithm<ZZ_p>> fresh(make());
    HB one(k, 1, i % 2 ? alg.get() : fresh.get()); one.add(e);
    mc::require(one[at[rep(e)]].size() == 1, "unstable-bucket", mc::str(e) + " went to another bucket in another table"); mc::ops(1);
  }
  mc::ops(es.size()); mc::note(mc::fmt("algorithm %d, %zu buckets, %zu elements", a, k, es.size())); mc::state(mc::fmt("%d %zu", a, k));
}
/** Large tables and capacities: content, order, size, concealment and marks; one too many is refused at exactly the capacity */
static void large() {
  ZZ_p::init(prime(96)); struct S { size_t k, h, n; }; S s = mc::among(mc::thorough() ? std::vector<S>{{1, 300, 300}, {1, 5000, 5000}, {2, 257, 513}, {300, 4, 900}, {1000, 3, 100}, {70, 70, 4000}, {1, 70000, 70000}, {66000, 1, 40000}, {17, 33, 561}, {5, 129, 0}, {256, 2, 255}, {257, 300, 66000}} : std::vector<S>{{1, 300, 300}, {2, 257, 513}, {300, 4, 900}, {1000, 3, 100}, {70, 70, 1500}, {1, 70000, 70000}, {17, 33, 561}, {5, 129, 0}, {256, 2, 255}});
  int how = mc::choose(4); Digest alg(8); HB t(s.k, s.h, &alg); Model m(s.k, s.h);
  // element i goes to bucket (low digest bytes) chosen by the pattern; the bucket is read from the table once and must agree for the same digest
  std::vector<size_t> bucketOf(s.k); { std::vector<bool> hit(s.k); for (size_t j = 0; j < s.k; j++) { HB one(s.k, 1, &alg); one.add(NTL::to_ZZ_p((long) j)); size_t b = s.k; for (size_t x = 0; x < s.k; x++) if (one.getBucket(x).size()) b = x; mc::require(b < s.k && !hit[b], "uneven", mc::fmt("digests 0 to %zu do not cover all buckets", s.k - 1)); hit[b] = true; bucketOf[j] = b; if (s.k > 2000) break; } }
  bool direct = s.k > 2000 || how == 3; std::vector<ZZ_p> list;
  for (size_t i = 0; i < s.n; i++) {
    size_t j = how == 1 ? (i / s.h) % s.k : (i * (how == 2 ? 7 : 1)) % s.k, tries = 0; while (m.b[direct ? j : bucketOf[j]].size() == s.h && tries++ < s.k) j = (j + 1) % s.k; if (tries > s.k) break;
    size_t b = direct ? j : bucketOf[j]; ZZ_p e = NTL::to_ZZ_p(NTL::to_ZZ((long) j) + (i % 5 == 4 ? NTL::to_ZZ(0) : NTL::to_ZZ((long) i) << 64));
    if (direct) t.addToBucket(e, b); else if (how == 2) list.push_back(e); else t.add(e);
    m.b[b].push_back(e); m.n++;
  }
  if (list.size()) static_cast<HT &>(t).add(list.data(), list.size());
  mc::ops(s.n); mc::note(mc::fmt("%zu elements in %zu buckets of %zu, pattern %d", m.n, s.k, s.h, how)); agree(t, m, "filling");
  for (size_t b = 0; b < s.k; b++) if (m.b[b].size() == s.h) { expectFatal([&] { t.addToBucket(NTL::to_ZZ_p(1), b); }, "one more into a full bucket"); break; }
  expectFatal([&] { t.getBucket(s.k); }, "a bucket just beyond the last");
  ZZpPRF prf(ZZ_p::modulus()); t.conceal(prf); std::set<ZZ> fill;
  for (size_t i = 0; i < s.k; i++) {
    MarkedVector<ZZ_p> v = t.getBucket(i); mc::require(v.size() == s.h, "wrong-filling", mc::fmt("bucket %zu has %zu entries after concealment, capacity %zu", i, v.size(), s.h)); mc::require(v.isMarked() == m.b[i].empty(), "wrong-mark", mc::fmt("bucket %zu with %zu elements", i, m.b[i].size()));
    for (size_t j = 0; j < s.h; j++) if (j < m.b[i].size()) mc::require(v[j] == m.b[i][j], "content-lost", mc::fmt("entry %zu of bucket %zu", j, i)); else mc::require(fill.insert(rep(v[j])).second, "fill-repeats", mc::fmt("entry %zu of bucket %zu", j, i));
  }
  mc::state(mc::fmt("L%zu %zu %zu %d", s.k, s.h, s.n, how)); mc::outcome("large");
}
/** Lists of elements, repetitions and runs of equal elements included: all of them are kept, in their order */
static void arrays() {
  ZZ_p::init(prime(64)); int most = mc::thorough() ? 6 : 5, n = mc::choose(most + 1), first = mc::choose(3), how = mc::choose(3); size_t k = 1 + mc::choose(3); std::vector<ZZ_p> l; std::string h = mc::fmt("%zu buckets, %d before:", k, first);
  Placement alg; for (int i = 0; i < 6; i++) alg.where[NTL::to_ZZ(i)] = i; HB t(k, 12, &alg); Model m(k, 12); auto put = [&](const ZZ_p &e) { m.b[NTL::conv<long>(rep(e)) % k].push_back(e); m.n++; };
  for (int i = 0; i < n; i++) { l.push_back(NTL::to_ZZ_p(mc::choose(3))); h += " " + mc::str(l.back()); }
  for (int i = 0; i < first; i++) { ZZ_p e = NTL::to_ZZ_p(i); t.add(e); put(e); }
  HT &b = t; size_t half = n / 2; std::vector<ZZ_p> given = l;
  if (how == 0) b.add(given.data(), given.size()); else if (how == 1) { b.add(given.data(), half); b.add(given.data() + half, n - half); } else for (int i = 0; i < n; i++) b.add(&given[i], 1);
  for (auto &e : l) put(e);
  mc::require(given == l, "list-changed", h); mc::op(h + mc::fmt(", given in way %d", how)); agree(t, m, h); mc::state(h); mc::outcome("array");
}
/** More buckets than 16 bits count, filled by digest: every element is kept, in the bucket of its digest, and the buckets share equally */
static void wide() {
  ZZ_p::init(prime(160)); size_t k = mc::among(mc::thorough() ? std::vector<size_t>{65535, 65536, 65537, 70000, 131072, 131073, 300000, 1000003} : std::vector<size_t>{65535, 65536, 65537, 70000, 131073}), bytes = mc::among(std::vector<size_t>{3, 4, 8, 20}), per = 1 + mc::choose(2); if (bytes == 3 && k * per > (1u << 24)) return;
  Digest alg(bytes); HB t(k, per, &alg), u(k, per, &alg); size_t n = k * per;        // exactly as many as there are places: equidistribution leaves none empty
  mc::note(mc::fmt("%zu buckets of %zu, digests of %zu bytes", k, per, bytes)); mc::state(mc::fmt("w%zu %zu %zu", k, per, bytes)); std::vector<ZZ_p> e; for (size_t i = 0; i < n; i++) e.push_back(NTL::to_ZZ_p((long) i));
  for (auto &x : e) t.add(x); for (size_t i = n; i-- > 0;) u.add(e[i]); mc::ops(2 * n); mc::require(t.size() == n && u.size() == n, "wrong-size", "size()");
  std::vector<uint32_t> at(n, (uint32_t) k); for (size_t j = 0; j < k; j++) { MarkedVector<ZZ_p> v = t.getBucket(j); if (v.size() != per) mc::fail("uneven", mc::fmt("%zu of %zu consecutive digests in bucket %zu of %zu", v.size(), n, j, k)); for (auto &x : v) { size_t i = NTL::conv<long>(rep(x)); mc::require(i < n && at[i] == k, "wrong-content", "an element twice, or a strange one"); at[i] = (uint32_t) j; } }
  for (size_t j = 0; j < k; j++) { MarkedVector<ZZ_p> v = u[j]; mc::require(v.size() == per, "uneven", "in reverse"); for (auto &x : v) mc::require(at[NTL::conv<long>(rep(x))] == j, "unstable-bucket", mc::str(x) + " went elsewhere in another table"); }
  expectFatal([&] { t.add(NTL::to_ZZ_p(0L)); }, "one more into full buckets"); mc::outcome("wide");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C09");
  s.add("sequences", "all sequences of 4 (thorough 5) operations over tables of 1-3 buckets with capacity 1-3, then concealment or an access out of range", [] { sequences(mc::thorough() ? 5 : 4); });
  s.add("arrays", "all lists of up to 5 (thorough 6) elements out of 3, added at once, in two parts or one by one, to tables of 1-3 buckets holding 0-2 elements already", arrays);
  s.add("bare", "tables without a hash algorithm", bare);
  s.add("spread", "all digests of one and two bytes over 1-1000 buckets", spread);
  s.add("stable", "real and long digests: same bucket in every table", stable);
  s.add("wide", "5 (thorough 8) tables of 65535 to 131073 (1000003) buckets, filled to the last place by digests of 3 to 20 bytes, in both orders", wide);
  s.add("large", "9 (thorough 12) tables to 1000 (66000) buckets, capacity to 70000, 4 patterns of filling", large);
  s.add("reusedArrays", "`arrays` again where memory is handed out again at once", arrays);
  s.add("reusedSequences", "`sequences` again where memory is handed out again at once", [] { sequences(mc::thorough() ? 5 : 4); });
  return s.main(argc, argv);
}
