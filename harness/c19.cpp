/* C19: running out of memory never produces a wrong answer. */
#include "psi.hpp"
#include <new>
#include "shabyte.h"
#include "shastr.h"
#include "simplebm.h"
#include "strint.h"
#include "zzppoly.h"
#include "zzpprf.h"
using namespace psi;

// ------------------------------------------------------------------------- the allocator: one allocation fails
static bool counting = false; static long allocations = 0, failAt = -1, burst = 1; static bool failed = false;
static void *get(size_t n) {
  if (counting) { if (long i = allocations++; failAt >= 0 && i >= failAt && i - failAt < burst) { failed = true; throw std::bad_alloc(); } }
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

struct Quiet { std::streambuf *o, *e; Quiet() { o = std::cout.rdbuf(nullptr); e = std::cerr.rdbuf(nullptr); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };

struct Case { int alg, k, h, runs; long bits; int more; };
/** The two sets: 3 common elements (one of them zero), 1-2 of each party's own */
static const long A[] = {0, 77, 13, 5, 200}, B[] = {200, 9, 0, 77}; // and "more" further common ones, last of all

/** A complete protocol run with the allocation of that index failing; what happened */
struct Run {
  Case c; Cfg cfg; std::string phase = "start";
  std::unique_ptr<HashAlgorithm<ZZ_p>> alg; std::unique_ptr<HashBuckets<ZZ_p>> ha, hb; std::unique_ptr<EOPSIClient> alice, bob; std::unique_ptr<EOPSIServer> cloud;
  std::vector<ZZ> da, db; EOPSIMessage sa, sb;
  std::string sec1 = "first secret", sec2 = "second, longer than one block of the generator", req1, req2, nameA = "Alice, with a name beyond the small string", nameB = "Bob", nameC = "Cloud";
  std::string want, results;   // what the requesters were told, or nothing yet
  Run(const Case &c) : c(c) {
    cfg.p = prime(c.bits); cfg.k = c.k; cfg.h = c.h;
    for (long x : A) da.push_back(NTL::to_ZZ(x)); for (long x : B) db.push_back(NTL::to_ZZ(x));
    want = "{0,77,200"; for (long x = 0; x < c.more; x++) { da.push_back(NTL::to_ZZ(201 + x)); db.push_back(NTL::to_ZZ(201 + x)); want += mc::fmt(",%ld", 201 + x); } want += "}";
    req1 = requestBytes(nameA, sec1); req2 = requestBytes(nameB, sec2); results.reserve(4096);
    ZZ_p::init(cfg.p);
  }
  void make() {
    phase = "construction";
    if (c.alg == 1) alg.reset(new MurmurHash3(13U)); else alg.reset(new SHAZZp(c.alg == 2 ? SHA1_FLAVOUR : SHA256_FLAVOUR));
    ha.reset(new HashBuckets<ZZ_p>(cfg.k, cfg.h, alg.get())); hb.reset(new HashBuckets<ZZ_p>(cfg.k, cfg.h, alg.get()));
    alice.reset(new EOPSIClient(*ha, cfg.p, cfg.k, cfg.h, cfg.degree(), nameA, (const byte *) sec1.data(), sec1.size()));
    bob.reset(new EOPSIClient(*hb, cfg.p, cfg.k, cfg.h, cfg.degree(), nameB, (const byte *) sec2.data(), sec2.size()));
    cloud.reset(new EOPSIServer(cfg.p, cfg.k, cfg.h, cfg.degree(), nameC));
    phase = "authentication";
    alice->authenticate(*bob); alice->authenticate(*cloud); bob->authenticate(*alice); bob->authenticate(*cloud); cloud->authenticate(*alice); cloud->authenticate(*bob);
  }
  void data() { phase = "blinding"; alice->setRawData(da.data(), da.size(), cfg.bits, 1); bob->setRawData(db.data(), db.size(), cfg.bits, 1); }
  void store() {
    phase = "outsourcing";
    sa.setType(EOPSI_MESSAGE_OUTSOURCING_DATA); sa.setPartyId(nameA); sa.setData(alice->getBlindedData(), alice->getBlindedDataSize()); alice->send(*cloud, &sa);
    sb.setType(EOPSI_MESSAGE_OUTSOURCING_DATA); sb.setPartyId(nameB); sb.setData(bob->getBlindedData(), bob->getBlindedDataSize()); bob->send(*cloud, &sb);
  }
  void ask(bool first) {
    phase = first ? "first run" : "second run";
    EOPSIMessage m; const std::string &b = first ? req1 : req2; m.setData((void *) b.data(), b.size()); m.setType(EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m.setPartyId(first ? nameA : nameB);
    if (first) alice->send(*bob, &m); else bob->send(*alice, &m);
    vec_ZZ got = (first ? *alice : *bob).getIntersection();
    counting = false; std::vector<ZZ> g; for (long i = 0; i < got.length(); i++) g.push_back(got[i]); std::sort(g.begin(), g.end());
    if (psi::show(g) != want) mc::fail("wrong-intersection", mc::fmt("%s of allocation %ld failing: learnt ", phase.c_str(), failAt) + psi::show(g));
    results += "exact "; counting = true;
  }
  void all() { make(); data(); store(); ask(true); if (c.runs > 1) ask(false); }
};

static const std::vector<Case> &cases() {
  static const std::vector<Case> quick = {{1, 2, 8, 2, 64, 0}, {2, 1, 5, 1, 64, 0}, {3, 3, 6, 1, 100, 1}, {1, 1, 16, 1, 64, 11}};
  static const std::vector<Case> deep = {{1, 2, 8, 2, 64, 0}, {2, 1, 5, 2, 64, 0}, {3, 3, 6, 2, 100, 1}, {1, 1, 16, 2, 64, 11}, {1, 8, 5, 2, 300, 2}, {2, 5, 5, 2, 90, 3}, {3, 12, 4, 2, 64, 4}, {2, 1, 40, 1, 64, 35}};
  return mc::thorough() ? deep : quick;
}
/** How many allocations a run performs (after a first run has warmed up what is made once per process) */
static long measure(size_t i) {
  static std::map<size_t, long> known; if (known.count(i)) return known[i];
  Quiet q; failAt = -1; long n = 0;
  for (int r = 0; r < 3; r++) { NTL::SetSeed(NTL::to_ZZ(12345)); mc::env().reset(); Run x(cases()[i]); allocations = 0; counting = true; x.all(); counting = false; n = allocations; }
  return known[i] = n;
}
static void oom(bool bursts) {
  size_t i = bursts && !mc::thorough() ? 1 : mc::choose((int) cases().size()); long many = bursts ? mc::among(std::vector<long>{2, 3, 10, 1000000000}) : 1; long n = measure(i); const Case &c = cases()[i];
  const int PER = 16; long groups = n / PER + 1, g = mc::choose((int) groups);
  for (long at = g * PER; at < (g + 1) * PER; at++) {
    if (at > n + 2) break;
    mc::Outcome o = mc::isolate([&]() -> std::string {
      NTL::SetSeed(NTL::to_ZZ(12345)); mc::env().reset(); Quiet q; std::string how;
      {
        Run x(c); x.phase.reserve(64); burst = many; failAt = at; allocations = 0; failed = false;
        try { counting = true; x.all(); counting = false; how = failed ? "exact nevertheless: " : "no failure: "; how += x.phase; }
        catch (std::bad_alloc &) {
          counting = false; failAt = -1; how = "bad_alloc in " + x.phase;
          // there is memory again: what has not been reached is done now, by the same parties
          try {
            if (x.phase == "outsourcing") { x.store(); x.ask(true); how += ", then exact"; }
            else if (x.phase == "first run") { x.ask(true); how += ", then exact"; }
            else if (x.phase == "second run") { x.ask(false); how += ", then exact"; }
          } catch (mc::Violation &) { throw; } catch (std::exception &e) { how += std::string(", then refused: ") + e.what(); }
          counting = false;
        }
        // the parties are released here
      }
      failAt = -1; Run y(c); y.all(); counting = false; // and others work as ever
      return how;
    });
    std::string what = mc::fmt("case %zu, %ld allocations from number %ld of %ld on: ", i, many, at, n) + o.show();
    mc::ops(1); if (at % 16 == 0 || !o.orderly()) mc::note(what);
    if (!o.orderly()) mc::fail("crash", what);
    if (o.kind == mc::Outcome::EXITED && o.code == 0) mc::fail("false-success", what + " (exit status 0)");
    if (o.kind == mc::Outcome::EXITED && o.code >= 70) mc::fail("crash", what);
    std::string cls = o.kind == mc::Outcome::EXITED ? mc::fmt("exit %d", o.code) : o.text; mc::outcome(cls);
    if (o.kind != mc::Outcome::RETURNED || o.text.compare(0, 10, "no failure")) mc::state(mc::fmt("%zu %ld %ld", i, at, many));
  }
}
/** A building block at work: make() creates it, use() gives what it computed, the same every time on the same object */
struct Block { const char *name; std::function<std::function<std::string()>()> make; };
typedef std::shared_ptr<HashAlgorithm<ZZ_p>> Alg;
static std::string hexOf(const byte *b, size_t n) { std::string s(2 * n, '0'); for (size_t i = 0; i < n; i++) { s[2 * i] = "0123456789abcdef"[b[i] >> 4]; s[2 * i + 1] = "0123456789abcdef"[b[i] & 15]; } return s; }
/** Harness code is never made to fail */
struct Off { bool was; Off() { was = counting; counting = false; } ~Off() { counting = was; } };
static std::string digits(const ZZ &z) { Off o; return mc::str(z); }
static std::vector<Block> blocks() {
  std::vector<Block> v;
  for (int a = 1; a <= 3; a++) v.push_back({"digest of field elements", [a] {
    Alg alg; if (a == 1) alg.reset(new MurmurHash3(13U)); else alg.reset(new SHAZZp(a == 2 ? SHA1_FLAVOUR : SHA256_FLAVOUR));
    return std::function<std::string()>([alg] { std::string r; for (long b : {3L, 40L, 63L}) { byte *d = alg->hash(NTL::to_ZZ_p(NTL::power2_ZZ(b) - 7)); Off o; r += hexOf(d, alg->hashSize()) + " "; } return r; }); }});
  v.push_back({"digest of strings", [] { auto alg = std::make_shared<SHAString>(SHA256_FLAVOUR); return std::function<std::string()>([alg] { byte *d = alg->hash("a string longer than the small ones"); Off o; return hexOf(d, 32); }); }});
  v.push_back({"readable digest", [] { return std::function<std::string()>([] { byte d[32]; for (int i = 0; i < 32; i++) d[i] = (byte) (i * 7); return HashAlgorithm<ZZ_p>::readableDigest(d, 32); }); }});
  v.push_back({"byte-string integer", [] { byte b[20]; memset(b, 0xA7, 20); auto n = std::make_shared<StrInt>(24, b, 20);
    return std::function<std::string()>([n] { byte b[20]; memset(b, 0xA7, 20); n->set(b, 20); n->add(77); n->inc(); std::string t = n->toString(); size_t len = 0; std::unique_ptr<byte[]> x(n->toBytes(nullptr, &len)); Off o; return t + " " + hexOf(x.get(), len) + mc::fmt(" %lu %lu", n->rem(1000003), n->lsb()); }); }});
  v.push_back({"integer generator", [] { auto g = std::make_shared<ZZPRF>();
    return std::function<std::string()>([g] { std::string r; ZZPRF h(*g), k; k = h; for (long bits : {8L, 100L, 700L}) { ZZ a = g->generate(NTL::power2_ZZ(bits) + 3, 5, bits), b = h.generate(NTL::to_ZZ(9), 6, bits), c = k.generate(NTL::to_ZZ(9), 6, bits); r += digits(a) + " " + digits(b) + " " + digits(c) + " "; } return r; }); }});
  v.push_back({"field generator", [] { auto i = std::make_shared<ZZPRF>(); auto g = std::make_shared<ZZpPRF>(ZZ_p::modulus(), i.get());
    return std::function<std::string()>([g, i] { std::string r; for (long x = 1; x < 4; x++) r += digits(rep(g->generate(NTL::to_ZZ_p(x), x, 60))) + " "; return r; }); }});
  v.push_back({"hash table", [] { return std::function<std::string()>([] { MurmurHash3 alg(13U); HashBuckets<ZZ_p> t(2, 9, &alg); for (long x = 0; x < 7; x++) t.add(NTL::to_ZZ_p(x << 40)); ZZpPRF g(ZZ_p::modulus()); t.conceal(g);
    std::string r = mc::fmt("%zu ", t.size()); size_t real = 0; for (size_t i = 0; i < 2; i++) { MarkedVector<ZZ_p> b = t[i]; Off o; r += mc::fmt("(%zu%s) ", b.size(), b.isMarked() ? " marked" : ""); for (auto &e : b) { ZZ z = rep(e); if (z % NTL::power2_ZZ(40) == 0) { real++; r += mc::str(z) + " "; } } } return r + mc::fmt("%zu", real); }); }});
  for (int m : {4, 5, 8, 9, 40}) v.push_back({"table filled to the brim", [m] { return std::function<std::string()>([m] { MurmurHash3 alg(13U); HashBuckets<ZZ_p> t(1, m, &alg); std::string r; for (long x = 0; x < m; x++) t.add(NTL::to_ZZ_p(x + 1)); MarkedVector<ZZ_p> b = t[0]; Off o; for (auto &e : b) r += mc::str(rep(e)) + " "; return r + mc::fmt("%zu", t.size()); }); }});
  v.push_back({"table filled bucket by bucket", [] { return std::function<std::string()>([] { MurmurHash3 alg(13U); HashBuckets<ZZ_p> t(3, 17, &alg); std::string r; for (long x = 0; x < 51; x++) t.addToBucket(NTL::to_ZZ_p(x + 1), x % 3); Off o; for (int i = 0; i < 3; i++) { MarkedVector<ZZ_p> b = t[i]; for (auto &e : b) r += mc::str(rep(e)) + " "; } return r + mc::fmt("%zu", t.size()); }); }});
  v.push_back({"root extraction", [] { auto p = std::make_shared<ZZpPolynomials>(8);
    return std::function<std::string()>([p] {
      vec_ZZ_p x, y[3]; { Off o; x.SetLength(6); for (long i = 0; i < 6; i++) x[i] = NTL::to_ZZ_p(100 + i); for (long j = 0; j < 3; j++) { vec_ZZ_p roots; roots.SetLength(4); for (long i = 0; i < 4; i++) roots[i] = NTL::to_ZZ_p(i == 3 ? 17 + j : (i + j) * 256); ZZ_pX f = NTL::BuildFromRoots(roots); eval(y[j], f, x); } }
      vec_ZZ one = p->findIntersection(x, y, 3); p->interpolate(x, y, 2); p->factorise(); vec_ZZ two = p->findIntersection(); Off o; return ids(one) + " " + ids(two) + mc::fmt(" %zu", p->size()); }); }});
  v.push_back({"chronometer", [] { return std::function<std::string()>([] { SimpleBenchmark b(2); b.start(); for (int i = 0; i < 5; i++) { b.step("a name beyond the small strings"); b.pause("p"); b.cont(); } b.stop("z"); bool ok = b.cumulativeBenchmark("z").count() >= 0 && b.benchmark("a name beyond the small strings").count() >= 0 && b.isStopped(); return std::string(ok ? "ok" : "wrong"); }); }});
  return v;
}
static void parts() {
  static const std::vector<Block> bs = blocks(); int i = mc::choose((int) bs.size()); long many = mc::among(std::vector<long>{1, 2, 3, 10, 1000000000}); ZZ_p::init(prime(64)); const Block &b = bs[i];
  auto run = [&](bool twice) { NTL::SetSeed(NTL::to_ZZ(12345)); mc::env().reset(); std::string r; counting = true; { auto u = b.make(); std::string a = u(); counting = false; r = a; if (twice) { std::string c = u(); if (c != a) mc::fail("wrong-value", mc::fmt("%s gives \"%s\", then \"%s\"", b.name, a.c_str(), c.c_str())); } } counting = false; return r; };
  static std::map<int, std::pair<long, std::string>> known; if (!known.count(i)) { Quiet q; failAt = -1; run(true); run(true); allocations = 0; std::string r = run(false); known[i] = {allocations, r}; }
  long n = known[i].first; std::string want = known[i].second; mc::note(mc::fmt("%s: %ld allocations, ", b.name, n) + want.substr(0, 200)); mc::state(want);
  for (long at = 0; at <= n; at++) {
    mc::Outcome o = mc::isolate([&]() -> std::string {
      NTL::SetSeed(NTL::to_ZZ(12345)); mc::env().reset(); Quiet q; std::string how; burst = many; failAt = at; allocations = 0; failed = false;
      std::function<std::string()> u;
      try { counting = true; u = b.make(); std::string r = u(); counting = false; if (r != want) mc::fail("wrong-value", mc::fmt("%s with allocation %ld of %ld failing gives \"%s\" instead of \"%s\"", b.name, at, n, r.c_str(), want.c_str())); how = failed ? "right nevertheless" : "no failure"; }
      catch (std::bad_alloc &) { counting = false; how = u ? "bad_alloc in use" : "bad_alloc in making"; }
      counting = false; failAt = -1;
      if (u) { std::string r = u(); if (r != want) mc::fail("wrong-value", mc::fmt("%s after a failure of allocation %ld of %ld gives \"%s\" instead of \"%s\"", b.name, at, n, r.c_str(), want.c_str())); how += ", then right"; }
      u = nullptr; return how;
    });
    std::string what = mc::fmt("%s, %ld allocations from number %ld of %ld on: ", b.name, many, at, n) + o.show(); mc::ops(1); mc::note(what);
    if (!o.orderly()) mc::fail("crash", what);
    if (o.kind == mc::Outcome::EXITED && (o.code == 0 || o.code >= 70)) mc::fail("crash", what);
    mc::outcome(o.kind == mc::Outcome::EXITED ? mc::fmt("exit %d", o.code) : o.text); mc::state(mc::fmt("%d %ld %ld", i, at, many));
  }
}
/** A table filled element by element while the memory runs out now and then: it never claims more or other than it holds, and takes the element when there is memory again */
static void steps() {
  size_t k = mc::among(std::vector<size_t>{1, 3}), n = mc::among(std::vector<size_t>{6, 18}); int how = mc::choose(3); long many = mc::among(std::vector<long>{1, 2, 3}); ZZ_p::init(prime(64));
  auto work = [&](long at) {
    long total = 0; MurmurHash3 alg(13U); HashBuckets<ZZ_p> t(k, n, &alg); std::vector<std::vector<ZZ>> want(k); size_t have = 0; Quiet q; counting = false; std::vector<size_t> where(n); // the places, learnt from a table that nothing happens to
    for (size_t i = 0; i < n; i++) { if (how == 1) { where[i] = i % k; continue; } HashBuckets<ZZ_p> one(k, 1, &alg); one.add(NTL::to_ZZ_p((long) (i * 977 + 1))); for (size_t b = 0; b < k; b++) if (one[b].size()) where[i] = b; }
    auto look = [&](const std::string &when) {
      size_t sum = 0; for (size_t b = 0; b < k; b++) { MarkedVector<ZZ_p> v = t[b]; sum += v.size(); std::vector<ZZ> g; for (auto &e : v) g.push_back(rep(e)); if (g != want[b]) mc::fail("wrong-content", mc::fmt("%s: bucket %zu of %zu holds %zu elements, should hold %zu", when.c_str(), b, k, g.size(), want[b].size())); }
      if (t.size() != have || sum != have) mc::fail("wrong-size", mc::fmt("%s: size() is %zu, the buckets hold %zu, put in were %zu", when.c_str(), t.size(), sum, have));
    };
    burst = many; failAt = at; allocations = 0; failed = false;
    for (size_t i = 0; i < n; i++) {
      ZZ_p e = NTL::to_ZZ_p((long) (i * 977 + 1)); int tries = 0;
      for (;;) {
        bool ok = true; try { counting = true; if (how == 0) t.add(e); else if (how == 1) t.addToBucket(e, i % k); else static_cast<HashTable<ZZ_p, MarkedVector<ZZ_p>> &>(t).add(&e, 1); counting = false; } catch (std::bad_alloc &) { counting = false; ok = false; }
        if (ok) { want[where[i]].push_back(rep(e)); have++; look(mc::fmt("element %zu put in", i)); break; }
        look(mc::fmt("element %zu not put in", i)); if (++tries > 5) mc::fail("never-recovers", "an element is refused for ever");
      }
    }
    counting = true; try { counting = false; ZZpPRF g(ZZ_p::modulus()); counting = true; t.conceal(g); counting = false; } catch (std::bad_alloc &) { counting = false; }
    for (size_t b = 0; b < k; b++) { MarkedVector<ZZ_p> v = t[b]; mc::require(v.size() >= want[b].size() && v.size() <= n, "wrong-content", "concealment"); for (size_t j = 0; j < want[b].size(); j++) mc::require(rep(v[j]) == want[b][j], "wrong-content", "concealment interrupted lost an element"); }
    total = allocations; counting = false; failAt = -1; return total;
  };
  work(-1); long total = work(-1); mc::note(mc::fmt("%zu elements into %zu buckets, way %d: %ld allocations", n, k, how, total));
  for (long at = 0; at <= total; at++) {
    mc::Outcome o = mc::isolate([&] { work(at); return std::string(failed ? "recovered" : "no failure"); }); std::string what = mc::fmt("%ld allocations from number %ld on: ", many, at) + o.show(); mc::ops(1);
    if (!o.orderly() || (o.kind == mc::Outcome::EXITED && (o.code == 0 || o.code >= 70))) mc::fail("crash", what); mc::outcome(o.kind == mc::Outcome::EXITED ? mc::fmt("exit %d", o.code) : o.text); mc::state(mc::fmt("S%zu %zu %d %ld %ld", k, n, how, many, at));
  }
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C19");
  s.add("oom", "every single C++ allocation of complete protocol histories (construction, authentication, blinding, outsourcing, one or two runs) fails once", [] { oom(false); });
  s.add("bursts", "the same with 2, 3, 10 and all following allocations failing until the error is caught (quick: one history)", [] { oom(true); });
  s.add("steps", "tables of 1 and 3 buckets filled element by element in three ways while every single allocation, or it and the next 1 or 2, fail: content and size after every step, then concealment", steps);
  s.add("blocks", "every single C++ allocation made by each building block fails, alone or with the next 1, 2, 9 or all following ones: the right value, a catchable error or an orderly exit, and the right value from the same object afterwards", parts);
  return s.main(argc, argv);
}
