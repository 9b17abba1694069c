/* C22: what is no longer in use is released. */
#include "psi.hpp"
#include "shabyte.h"
#include "shastr.h"
#include "simplebm.h"
#include "strint.h"
#include "zzppoly.h"
#include "zzpprf.h"
using namespace psi;

/** Bytes of the heap in use (whoever asked for them: the library, NTL, GMP, Crypto++) */
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long inUse() { return (long) __sanitizer_get_current_allocated_bytes(); }

/** Repeats what() and measures, again and again: what is lost every time adds up in every one of four periods, of which each is as long as all before it
 *  together (so that containers that grow by doubling show); what is made once, or grows to its final size (the pools of NTL), does not */
static void steady(const std::string &what, int warm, int times, const std::function<void(int)> &step) {
  int n = 0; while (n < warm) step(n++);
  std::string grown;
  for (int period = 0; period < 4; period++) {
    int reps = std::max(times, n); long before = inUse(); for (int i = 0; i < reps; i++) step(n++);
    long more = inUse() - before; mc::ops(reps); grown += mc::fmt(" %ld", more);
    if (more < reps) return;
  }
  mc::fail("memory-grows", mc::fmt("%s: in four periods of %d and more times each,%s more bytes were in use at the end than at the beginning", what.c_str(), times, grown.c_str()));
}
static std::unique_ptr<HashAlgorithm<ZZ_p>> algorithm(int a) {
  if (a == 0) return std::unique_ptr<HashAlgorithm<ZZ_p>>(new MurmurHash3(13U));
  return std::unique_ptr<HashAlgorithm<ZZ_p>>(new SHAZZp(a == 1 ? SHA1_FLAVOUR : SHA256_FLAVOUR));
}
/** Answers can be held back and delivered in the other order */
class Holder : public EOPSIClient {
  public:
    bool hold = false; std::vector<EOPSIMessage> held;
    using EOPSIClient::EOPSIClient;
    void receive(EOPSIMessage *m) override {
      if (hold && m && (m->getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION || m->getType() == EOPSI_MESSAGE_POLYNOMIAL)) { held.push_back(*m); return; }
      EOPSIClient::receive(m);
    }
    void release(bool reverse) { hold = false; if (reverse) std::reverse(held.begin(), held.end()); for (auto &m : held) EOPSIClient::receive(&m); held.clear(); }
};
struct Three {
  Cfg c; std::unique_ptr<HashAlgorithm<ZZ_p>> alg; std::unique_ptr<HashBuckets<ZZ_p>> hb[3]; std::unique_ptr<Holder> p[3]; std::unique_ptr<EOPSIServer> cloud; std::vector<ZZ> d[3]; EOPSIMessage store[3]; Set want[3][3];
  const char *name[3] = {"Alice", "Bob", "Carol, whose name is longer than a short string"}; std::string secret[3] = {"first", "second", "third, which is also longer than the others"}, req[3];
  Three(const Cfg &cfg, int a) : c(cfg) {
    ZZ_p::init(c.p); alg = algorithm(a); long n = std::max<long>(1, (long) c.h / 2);
    for (int i = 0; i < 3; i++) {
      for (long j = 0; j < n; j++) d[i].push_back(NTL::to_ZZ(j + i));
      hb[i].reset(new HashBuckets<ZZ_p>(c.k, c.h, alg.get())); req[i] = requestBytes(name[i], secret[i]);
      p[i].reset(new Holder(*hb[i], c.p, c.k, c.h, c.degree(), name[i], (const byte *) secret[i].data(), secret[i].size()));
    }
    cloud.reset(new EOPSIServer(c.p, c.k, c.h, c.degree(), "Cloud"));
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p[i]->authenticate(*p[j]); p[i]->authenticate(*cloud); cloud->authenticate(*p[i]); }
    for (int i = 0; i < 3; i++) p[i]->setRawData(d[i].data(), d[i].size(), c.bits, 1);
    for (int i = 0; i < 3; i++) outsource(i);
  }
  void outsource(int i) { store[i].setType(EOPSI_MESSAGE_OUTSOURCING_DATA); store[i].setPartyId(name[i]); store[i].setData(p[i]->getBlindedData(), p[i]->getBlindedDataSize()); p[i]->send(*cloud, &store[i]); }
  void send(int r, int h, const std::string &payload, EOPSIMessageType type, const char *from, EOPSIParty &to) { EOPSIMessage m((void *) payload.data(), payload.size(), type); m.setPartyId(from); p[r]->send(to, &m); (void) h; }
  void run(int r, int h, int order = -1) {
    p[r]->hold = order >= 0; send(r, h, req[r], EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, name[r], *p[h]); if (order >= 0) p[r]->release(order);
    Set x(d[r].begin(), d[r].end()), y(d[h].begin(), d[h].end()), s; std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(s, s.begin()));
    vec_ZZ got = p[r]->getIntersection(); checkExact(got, s, "run");
  }
  void refused(const std::function<void()> &f) { try { f(); } catch (ProtocolException &) { return; } mc::fail("not-refused", ""); }
};
static const std::vector<Cfg> &cfgs() {
  static std::vector<Cfg> v; if (v.size()) return v;
  auto add = [&](long pb, size_t k, size_t h, size_t extra, size_t bits) { Cfg c; c.p = prime(pb); c.k = k; c.h = h; c.extra = extra; c.bits = bits; v.push_back(c); };
  add(64, 2, 4, 0, 8); add(64, 1, 5, 3, 16); add(160, 5, 4, 0, 8); add(300, 3, 4, 1, 100);
  if (mc::thorough()) { add(64, 17, 3, 0, 8); add(65, 2, 12, 0, 8); add(600, 2, 3, 0, 64); }
  return v;
}
/** Histories repeated over and over by the same parties: every sequence of up to that many operations is the period */
static void histories() {
  int ci = mc::choose((int) cfgs().size()); Cfg c = cfgs()[ci]; int a = mc::deviate(3), len = 1 + mc::choose((mc::thorough() ? 3 : 2) + (ci || a ? 0 : 1)); std::vector<int> seq; for (int i = 0; i < len; i++) seq.push_back(mc::choose(9));
  std::string s = c.show() + mc::fmt(", algorithm %d:", a); for (int o : seq) s += mc::fmt(" %d", o);
  mc::op(s); mc::state(s);
  Three w(c, a);
  steady(s, 3, 6, [&](int i) {
    for (int o : seq) switch (o) {
      case 0: w.run(0, 1); break;
      case 1: w.run(1, 0); break;
      case 2: w.run(2, 0, 0); break;
      case 3: w.run(0, 2, 1); break;
      case 4: w.outsource(i % 3); break;
      case 5: w.refused([&] { w.send(0, 1, requestBytes(w.name[1], w.secret[1]), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, w.name[0], *w.p[1]); }); break;   // in somebody else's name
      case 6: w.refused([&] { w.send(0, 1, w.req[0], EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, "Mallory", *w.p[1]); }); break;                             // from a stranger
      case 7: w.refused([&] { w.send(0, 1, w.req[0], EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, w.name[0], *w.cloud); }); break;                              // to the wrong party
      case 8: w.refused([&] { w.send(0, 1, std::string(w.name[0]) + '\0' + "Nobody" + '\0' + std::string(17, 'k'), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, w.name[0], *w.cloud); }); break; // about nobody
    }
  });
  mc::outcome("history");
}
/** Whole systems, built, used (or not) and taken down again */
static void systems() {
  Cfg c = mc::among(cfgs()); int a = mc::choose(3), runs = mc::choose(3), order = mc::choose(3) - 1; if (!runs && order >= 0) return;
  std::string s = c.show() + mc::fmt(", algorithm %d, %d runs, order %d", a, runs, order); mc::op(s); mc::state(s);
  steady(s, 3, 8, [&](int) { Three w(c, a); for (int i = 0; i < runs; i++) w.run(i, 1 - i, order); });
  mc::outcome("system");
}
/** Every building block: made, used by a sequence of operations, released; and used over and over without being released */
static void blocks() {
  static std::unique_ptr<ZZ[]> raw; int what = mc::choose(11), x = mc::choose(4), y = mc::choose(4); bool once = mc::choose(2); ZZ p = prime(mc::among(std::vector<long>{64, 200})); ZZ_p::init(p);
  auto el = [](long v) { return NTL::to_ZZ_p(NTL::to_ZZ(v)); }; static const size_t L[] = {1, 20, 21, 500}; std::string s = mc::fmt("block %d (%d, %d) %s", what, x, y, once ? "kept" : "released"); mc::op(s); mc::state(s + mc::str(NTL::NumBits(p)));
  switch (what) {
    case 0: case 1: case 2: { // digests of field elements
      std::unique_ptr<HashAlgorithm<ZZ_p>> h = algorithm(what);
      steady(s, 4, 40, [&](int i) { if (!once) h = algorithm(what); ZZ_p v; for (int j = 0; j <= x; j++) { NTL::conv(v, NTL::power(NTL::to_ZZ(10), (long) L[(y + j) % 4]) + i % 2); std::string o = HashAlgorithm<ZZ_p>::readableDigest(h->hash(v), h->hashSize()) + h->name(); mc::require(o.size() > 20, "digest"); } }); break; }
    case 3: { // of strings and bytes
      std::unique_ptr<SHAString> h(new SHAString()); std::unique_ptr<SHAByteArray> b(new SHAByteArray()); std::string t(L[x], 'x');
      steady(s, 4, 40, [&](int i) { if (!once) { h.reset(new SHAString(i % 2 ? SHA1_FLAVOUR : SHA256_FLAVOUR)); b.reset(new SHAByteArray(*b)); } SHAByteArray copy(*b), other(SHA256_FLAVOUR); other = copy; h->hash(t, L[y]); other.hash((byte *) &t[0], std::min(t.size(), L[y])); }); break; }
    case 4: { // integer generators, their copies
      std::unique_ptr<ZZPRF> g(new ZZPRF());
      steady(s, 4, 40, [&](int i) { if (!once) g.reset(new ZZPRF(*g)); ZZPRF o(*g), n; n = o; n.generate(NTL::power2_ZZ((long) L[x]), i % 2, 8 * L[y]); g->generate(NTL::power2_ZZ((long) L[y]), i % 2, 8 * L[x]); o.generate((size_t) i % 2, L[x]); g->generate(L[x], L[y]); }); break; }
    case 5: { // field generators
      ZZPRF g; std::unique_ptr<ZZpPRF> f(new ZZpPRF(p, x % 2 ? &g : nullptr));
      steady(s, 4, 40, [&](int i) { if (!once) f.reset(new ZZpPRF(p, x % 2 ? &g : nullptr)); ZZpPRF o(*f); for (int j = 0; j <= y; j++) ((PseudoRandom<ZZ_p, ZZ_p> &) *f).generate(); o.generate(el(7), i % 2, L[x]); }); break; }
    case 6: { // byte-string integers
      std::unique_ptr<StrInt> n(new StrInt(L[x])); std::string t(L[y], '\xfe');
      steady(s, 4, 40, [&](int i) { if (!once) n.reset(new StrInt(L[x], (const byte *) t.data(), t.size())); n->set((const byte *) t.data(), t.size()); n->inc(); n->add(12345678ul); n->rem(7); n->lsb(); n->toString(); std::ostringstream o; o << *n; size_t len = 0; byte *e = n->toBytes(nullptr, &len); mc::require(len == n->getByteSize(), "bytes"); delete [] e; if (i % 2) n->set(5ul); }); break; }
    case 7: { // tables
      std::unique_ptr<HashAlgorithm<ZZ_p>> h = algorithm(y % 3), h2 = algorithm((y + 1) % 3); ZZpPRF f(p);
      steady(s, 4, 20, [&](int) { HashBuckets<ZZ_p> t(1 + x, 6, once ? nullptr : h.get()); if (y == 3) { t.setHashAlgorithm(h2.get()); t.setHashAlgorithm(h.get()); } for (int i = 0; i < 5; i++) if (once && y != 3) t.addToBucket(el(i), i % (1 + x)); else t.add(el(i)); if (y) t.conceal(f); mc::CaptureOut o; t.printStats(true); t.getBucket(0); t[x]; }); break; }
    case 8: { // root extraction: one-shot, staged, in batches of several sizes
      std::unique_ptr<ZZpPolynomials> q(new ZZpPolynomials(8)); vec_ZZ_p xs; for (long i = 0; i < 9; i++) NTL::append(xs, el(i + 3)); std::vector<vec_ZZ_p> ys(4);
      for (int j = 0; j < 4; j++) { ZZ_pX f; NTL::SetCoeff(f, 0, 1); for (int r = 0; r <= j; r++) { ZZ_pX l; NTL::SetX(l); l = l - el(256 * r); f = f * l; } for (long i = 0; i < 9; i++) NTL::append(ys[j], NTL::eval(f, xs[i])); }
      steady(s, 4, 12, [&](int i) {
        if (!once) q.reset(new ZZpPolynomials(8)); size_t n = 1 + (x + i) % 4; PolynomialFactoringAlgorithm pa = y & 1 ? PFA_BERLEKAMP : PFA_CANZASS; mc::CaptureOut o;
        if (y < 2) { mc::require(q->findIntersection(xs, ys.data(), n, pa).length() == (long) (n * (n + 1) / 2), "roots"); }
        else { q->interpolate(xs, ys.data(), n); q->makeMonic(); q->factorise(pa); mc::require(q->findIntersection().length() == (long) (n * (n + 1) / 2), "roots"); }
      }); break; }
    case 9: { // chronometers
      std::unique_ptr<SimpleBenchmark> b(new SimpleBenchmark());
      steady(s, 4, 40, [&](int) { if (!once) b.reset(new SimpleBenchmark(L[x])); b->start(); for (int j = 0; j < 30 * y; j++) { b->step(mc::fmt("a rather long name of a time %d", j)); b->pause("p"); b->cont(); } b->stop("end"); b->average(); b->variance(false); b->cumulativeBenchmark("end"); b->max(); b->min(); }); break; }
    case 10: { // parties alone, and clients that hold data
      Cfg c; c.p = p; c.k = 1 + x; c.h = 2 + y; c.bits = 8; std::unique_ptr<HashAlgorithm<ZZ_p>> h = algorithm(x % 3); ZZ d[2] = {NTL::to_ZZ(1), NTL::to_ZZ(200)};
      steady(s, 4, 12, [&](int) {
        HashBuckets<ZZ_p> t(c.k, c.h, h.get()); EOPSIClient a(t, c.p, c.k, c.h, c.degree(), "a party with quite a long name", NTL::power2_ZZ(300)); EOPSIServer v(c.p, c.k, c.h, c.degree(), "cloud"); a.authenticate(v); v.authenticate(a); a.authenticate(a);
        if (once) { a.setRawData(d, 2, 8, 1); EOPSIMessage m(a.getBlindedData(), a.getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId(a.getId()); a.send(v, &m); a.send(v, &m); }
        else { try { a.setRawData(d, 2, 7, 1); } catch (ProtocolException &) {} }
      }); break; }
  }
  mc::outcome(mc::fmt("block %d", what));
}
/** Every kind of refused message and call, over and over */
static void refusals() {
  Cfg c = cfgs()[mc::choose(2) * 2]; Three w(c, 0); EOPSIServer other(c.p, c.k, c.h, c.degree(), "another server, with a long name"); for (auto &x : w.p) x->authenticate(other); w.cloud->authenticate(other);
  EOPSIClient fresh(*w.hb[0], c.p, c.k, c.h, c.degree(), "a client that has not outsourced", NTL::to_ZZ(77)); w.cloud->authenticate(fresh); w.p[1]->authenticate(fresh);
  int kind = mc::choose(4); std::string h = c.show();
  if (kind == 3) { // calls
    int x = mc::choose(8); h += mc::fmt(" call %d", x); mc::op(h); mc::state(h); Holder &a = *w.p[0]; ZZ wide[3]; wide[0] = 1; wide[1] = 2; wide[2] = NTL::power2_ZZ((long) c.bits + 3); ZZ neg[2]; neg[1] = -5; EOPSIMessage m; m.setPartyId(w.name[1]);
    HashBuckets<ZZ_p> small(c.k + 1, c.h, w.alg.get()); EOPSIClient unfit(small, c.p, c.k, c.h, c.degree(), "unfit", NTL::to_ZZ(5));
    steady(h, 4, 40, [&](int) { switch (x) {
      case 0: w.refused([&] { a.setRawData(wide, 3, c.bits, 1); }); break; case 1: w.refused([&] { a.setRawData(neg, 2, c.bits, 1); }); break; case 2: w.refused([&] { a.setRawData(wide, 3, (size_t) NTL::NumBits(c.p), 1); }); break;
      case 3: a.setRawData(nullptr, 3, c.bits, 1); a.setRawData(wide, 0, c.bits, 1); break; case 4: w.refused([&] { a.send(*w.cloud, nullptr); }); w.refused([&] { a.receive(nullptr); }); w.refused([&] { w.cloud->receive(nullptr); }); break;
      case 5: a.isAuthorised(&m); a.isAuthorised(nullptr); w.cloud->isAuthorised(&m); a.hasAuthenticated(*w.cloud); a.hasAuthenticated(other); w.cloud->hasAuthenticated(*w.p[2]); break;
      case 6: a.getIntersection(); a.getBlindedData(); a.getBlindedDataSize(); a.getSecret(); a.getId(); a.getFieldsize(); a.getDegree(); a.getRawData(); break;
      case 7: w.refused([&] { unfit.setRawData(wide, 2, c.bits, 1); }); break;
    } });
    mc::outcome("call"); return;
  }
  int type = mc::choose(7), from = mc::choose(8); std::string sender = from < 3 ? w.name[from] : from == 3 ? "Cloud" : from == 4 ? "Mallory, of whom nobody knows anything" : from == 5 ? "another server, with a long name" : from == 6 ? "a client that has not outsourced" : "";
  static const EOPSIMessageType T[] = {EOPSI_MESSAGE_OUTSOURCING_DATA, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, EOPSI_MESSAGE_OUTPUT_COMPUTATION, EOPSI_MESSAGE_POLYNOMIAL, EOPSI_MESSAGE_UNKNOWN, (EOPSIMessageType) 1000};
  EOPSIParty &to = kind == 2 ? (EOPSIParty &) *w.cloud : *w.p[kind]; std::string full; bool null = false, whole = false;
  if (T[type] == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST || T[type] == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) {
    int p = mc::choose(5); full = p == 1 ? std::string(w.name[2]) : sender; full += '\0'; size_t id = full.size();
    if (T[type] == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) full += (p == 2 ? "nobody" : p == 3 ? "a client that has not outsourced" : w.name[1]) + std::string(1, '\0') + std::string(NTL::bytes(DEFAULT_KEY_BITSIZE), 'K'); else full += "a secret of some length";
    size_t n = mc::choose((int) full.size() + 1); bool client = T[type] == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST; null = p == 4 && n == 0; if (p == 4 && n) return;
    if (client ? n > id : n == full.size()) whole = true; // complete
    if (whole || (client && n > id)) { bool refusedAnyway = (client ? kind == 2 || from >= 3 || from == kind : kind != 2) || (p == 1 && from != 2) || (!client && (p == 2 || p == 3 || from >= 3)); if (!refusedAnyway) return; }
    if (client && from == 6 && kind == 1 && n > id) return; // the helper would be refused by the cloud
    full.resize(n); h += mc::fmt(" payload %d cut to %zu", p, n);
  } else { int p = mc::choose(3); null = p == 0; full.assign(p, 'x'); if (p && (T[type] == EOPSI_MESSAGE_OUTPUT_COMPUTATION || T[type] == EOPSI_MESSAGE_POLYNOMIAL)) { bool client = kind != 2, answer = T[type] == EOPSI_MESSAGE_OUTPUT_COMPUTATION ? from == 3 || from == 5 : from < 3 || from == 6; if (client && answer) return; } h += mc::fmt(" payload of %d", p); }
  h += mc::fmt(" type %d from %s to %d", type, sender.c_str(), kind); mc::op(h); mc::state(h); size_t len = full.size();
  steady(h, 4, 12, [&](int) { std::unique_ptr<byte[]> b(new byte[full.size() ? full.size() : 1]); memcpy(b.get(), full.data(), full.size()); EOPSIMessage m(null ? nullptr : b.get(), null ? 0 : len, T[type]); m.setPartyId(sender); w.refused([&] { to.receive(&m); }); });
  mc::outcome("refused");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C22");
  s.add("histories", "every sequence of up to 2 (3 with one configuration; thorough 3 and 4) runs, outsourcings and refused requests repeated over and over by three clients and a cloud", histories, 1, 1);
  s.add("systems", "whole systems built, used for up to two runs in either order and released", systems);
  s.add("blocks", "every building block made, used and released, and used over and over", blocks);
  s.add("refusals", "3 receivers x 7 types x 8 senders x payloads cut to every length, and refused calls and queries, over and over", refusals);
  return s.main(argc, argv);
}
