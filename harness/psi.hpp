/* The closed system of the protocol properties: a cloud and clients of the library, driven the way eopsisimul does. */
#pragma once
#include <functional>
#include "mc.hpp"
#include <memory>
#include <NTL/ZZ.h>
#include <NTL/ZZ_p.h>
#include <NTL/ZZ_pX.h>
#include <NTL/vec_ZZ_p.h>
#include "eopsiclient.h"
#include "eopsiserver.h"
#include "hashbuckets.hpp"
#include "murmurhash3.h"
#include "shazzp.h"

namespace psi {
using NTL::ZZ; using NTL::ZZ_p; using NTL::ZZ_pX; using NTL::vec_ZZ; using NTL::vec_ZZ_p;
typedef std::vector<ZZ> Elems;
typedef std::set<ZZ> Set;

/** The smallest (low) or largest prime of that many bits */
inline ZZ prime(long bits, bool low = true) {
  static std::map<std::pair<long, bool>, ZZ> cache;
  ZZ &p = cache[{bits, low}];
  if (NTL::IsZero(p)) {
    if (low) p = NTL::NextPrime(NTL::power2_ZZ(bits - 1), 30);
    else { p = NTL::power2_ZZ(bits) - 1; while (!NTL::ProbPrime(p, 30)) p -= 2; }
  }
  return p;
}
inline std::string show(const Elems &e) { std::string s = "{"; for (auto &z : e) s += (s.size() > 1 ? "," : "") + mc::str(z); return s + "}"; }
inline std::string show(const vec_ZZ &v) { std::string s = "["; for (long i = 0; i < v.length(); i++) s += (i ? "," : "") + mc::str(v[i]); return s + "]"; }

/** Bucket placement chosen by the explorer: element (padded) -> bucket */
class Placement : public HashAlgorithm<ZZ_p> {
  public:
    std::map<ZZ, int> where; int other = 0; byte d[1];
    byte *hash(const ZZ_p n, const size_t = 0) { auto i = where.find(rep(n)); d[0] = (byte) (i == where.end() ? other : i->second); return d; }
    size_t hashSize() const { return 1; }
    std::string name() const { return "placement"; }
};

struct Cfg {
  ZZ p = prime(64); size_t k = 2, h = 2, extra = 0, bits = 8;
  size_t degree() const { return 2 * h + 1 + extra; }
  size_t pad() const { return NTL::NumBits(p) - bits - 1; }
  std::string show() const { return mc::fmt("p=%ld bits (%s...) k=%zu h=%zu degree=%zu bits=%zu", NTL::NumBits(p), mc::str(p).substr(0, 6).c_str(), k, h, degree(), bits); }
};

struct Seen { EOPSIMessageType type; std::string from; void *data; size_t len; std::string bytes; };

class Client : public EOPSIClient {
  public:
    std::function<void(const EOPSIMessage *, bool)> react; /* before and after a message is heard */ std::vector<EOPSIMessage> held; bool hold = false; std::vector<Seen> seen; // halves kept back until the explorer delivers them
    Client(HashBuckets<ZZ_p> &hb, const Cfg &c, const std::string &id, const ZZ &secret) : EOPSIClient(hb, c.p, c.k, c.h, c.degree(), id, secret) {}
    Client(HashBuckets<ZZ_p> &hb, const Cfg &c, const std::string &id, const std::string &secret) : EOPSIClient(hb, c.p, c.k, c.h, c.degree(), id, (const byte *) secret.data(), secret.size()) {}
    void receive(EOPSIMessage *m) override {
      if (m) seen.push_back({m->getType(), m->getPartyId(), m->getData(), m->length(), ""});
      if (hold && m && (m->getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION || m->getType() == EOPSI_MESSAGE_POLYNOMIAL)) { held.push_back(*m); return; }
      if (react) react(m, false);
      EOPSIClient::receive(m);
      if (react) react(m, true);
    }
    void deliver(size_t i) { EOPSIMessage m = held[i]; held.erase(held.begin() + i); EOPSIClient::receive(&m); }
    vec_ZZ_p points(size_t n) { return getUnknowns(n); }
};
class Server : public EOPSIServer {
  public:
    std::vector<Seen> seen; std::function<void(const EOPSIMessage *, bool)> react;
    Server(const Cfg &c, const std::string &id) : EOPSIServer(c.p, c.k, c.h, c.degree(), id) {}
    void receive(EOPSIMessage *m) override {
      if (m) {
        Seen s = {m->getType(), m->getPartyId(), m->getData(), m->length(), ""};
        if (m->getType() == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST && m->getData()) s.bytes.assign((const char *) m->getData(), m->length());
        seen.push_back(s);
      }
      if (react) react(m, false);
      EOPSIServer::receive(m);
      if (react) react(m, true);
    }
    vec_ZZ_p points(size_t n) { return getUnknowns(n); }
};

inline std::string secretBytes(const ZZ &s) {
  std::string b(NTL::NumBytes(s), 0);
  if (b.size()) NTL::BytesFromZZ((byte *) &b[0], s, b.size());
  return b;
}
/** The payload of a client's request: its name, NUL, its secret, NUL */
inline std::string requestBytes(const std::string &id, const std::string &secret) { return id + '\0' + secret + '\0'; }

struct Member {
  std::string id, secret; std::unique_ptr<Client> c; std::unique_ptr<HashBuckets<ZZ_p>> hb; std::unique_ptr<ZZ[]> raw; Elems data; EOPSIMessage store; std::vector<std::unique_ptr<std::string>> payloads;
  Set set() const { return Set(data.begin(), data.end()); }
};

struct World {
  Cfg cfg; std::unique_ptr<HashAlgorithm<ZZ_p>> alg; std::vector<std::unique_ptr<Member>> m; std::unique_ptr<Server> cloud;
  /** alg: 0 placement, 1 Murmur, 2 SHA-1, 3 SHA-256 */
  World(const Cfg &c, int algo = 0, const std::string &cloudId = "Cloud") : cfg(c) {
    ZZ_p::init(cfg.p);
    switch (algo) {
      case 1: alg.reset(new MurmurHash3(13U)); break;
      case 2: alg.reset(new SHAZZp(SHA1_FLAVOUR)); break;
      case 3: alg.reset(new SHAZZp(SHA256_FLAVOUR)); break;
      default: alg.reset(new Placement());
    }
    cloud.reset(new Server(cfg, cloudId));
  }
  Placement &placement() { return *static_cast<Placement *>(alg.get()); }
  void place(const ZZ &e, int bucket) { placement().where[NTL::LeftShift(e, (long) cfg.pad())] = bucket; }
  size_t add(const std::string &id, const std::string &secret) {
    m.emplace_back(new Member());
    Member &x = *m.back(); x.id = id; x.secret = secret;
    x.hb.reset(new HashBuckets<ZZ_p>(cfg.k, cfg.h, alg.get()));
    x.c.reset(new Client(*x.hb, cfg, id, secret));
    return m.size() - 1;
  }
  Client &c(size_t i) { return *m[i]->c; }
  void acquaint() {
    for (auto &a : m) { cloud->authenticate(*a->c); a->c->authenticate(*cloud); for (auto &b : m) if (a != b) a->c->authenticate(*b->c); }
  }
  void data(size_t i, const Elems &e, unsigned threads = 1) {
    Member &x = *m[i]; x.data = e; x.raw.reset(new ZZ[e.size() ? e.size() : 1]);
    for (size_t j = 0; j < e.size(); j++) x.raw[j] = e[j];
    mc::op(mc::fmt("%s.setRawData(%s)", x.id.c_str(), psi::show(e).c_str()));
    x.c->setRawData(x.raw.get(), e.size(), cfg.bits, threads);
  }
  void outsource(size_t i) {
    Member &x = *m[i];
    x.store.setType(EOPSI_MESSAGE_OUTSOURCING_DATA); x.store.setPartyId(x.id); x.store.setData(x.c->getBlindedData(), x.c->getBlindedDataSize());
    mc::op(x.id + " outsources");
    x.c->send(*cloud, &x.store);
  }
  /** Client r asks client h */
  void request(size_t r, size_t h) { Member &x = *m[r]; request(r, h, requestBytes(x.id, x.secret)); }
  void request(size_t r, size_t h, const std::string &payload) {
    Member &x = *m[r]; x.payloads.emplace_back(new std::string(payload));
    std::string &b = *x.payloads.back();
    // an exactly sized heap block, so that reading beyond the payload is noticed
    std::unique_ptr<byte[]> blk(new byte[b.size() ? b.size() : 1]); memcpy(blk.get(), b.data(), b.size());
    EOPSIMessage msg(blk.get(), b.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
    msg.setPartyId(x.id);
    mc::op(x.id + " asks " + m[h]->id);
    x.c->send(*m[h]->c, &msg);
  }
};

inline Set common(const Member &a, const Member &b) {
  Set s, x = a.set(), y = b.set(), r; std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.begin())); return r;
}
inline void checkExact(const vec_ZZ &got, const Set &want, const std::string &what) {
  Set g; for (long i = 0; i < got.length(); i++) g.insert(got[i]);
  if ((size_t) got.length() != want.size() || g != want)
    mc::fail("wrong-intersection", what + ": learnt " + show(got) + ", should be " + show(Elems(want.begin(), want.end())));
}
inline std::string ids(const vec_ZZ &v) { std::vector<std::string> s; for (long i = 0; i < v.length(); i++) s.push_back(mc::str(v[i])); std::sort(s.begin(), s.end()); std::string o; for (auto &x : s) o += x + ","; return o; }

inline void install() { mc::resetHook() = [] { NTL::SetSeed(NTL::to_ZZ(12345)); }; }
} // namespace psi
