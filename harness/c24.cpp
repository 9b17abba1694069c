/* C24: messages, parties, tables and generators report and carry what they were given. */
#include "psi.hpp"
#include "zzppoly.h"
#include "zzpprf.h"
using namespace psi;

static const std::vector<std::string> &names() { static const std::vector<std::string> n = {"", "A", "a", std::string("with\0zero", 9), "a name that does not fit a short string", std::string(300, 'n') + "1", std::string(300, 'n') + "2"}; return n; }
static const EOPSIMessageType TYPES[] = {EOPSI_MESSAGE_OUTSOURCING_DATA, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, EOPSI_MESSAGE_OUTPUT_COMPUTATION, EOPSI_MESSAGE_POLYNOMIAL, EOPSI_MESSAGE_UNKNOWN};
static char store[3][8];
static const size_t LEN[] = {1, 0, 255, 256, 65536, 1ul << 32, ~0ul};
/** Every sequence of set operations on a message, its copies independent of it */
static void messages() {
  struct M { std::string id; EOPSIMessageType t; void *d; size_t l; } ref[2]; EOPSIMessage m[2]; int used = 1;
  auto check = [&](const std::string &when) { for (int i = 0; i < used; i++) { mc::ops(4);
    mc::require(m[i].getPartyId() == ref[i].id, "message-sender", when); mc::require(m[i].getType() == ref[i].t, "message-type", when); mc::require(m[i].getData() == ref[i].d, "message-data", when); if (ref[i].d) mc::require(m[i].length() == ref[i].l, "message-length", when); } };
  int how = mc::choose(3), d0 = mc::choose(2), t0 = how ? mc::choose(6) : 5; ref[0] = {"", EOPSI_MESSAGE_UNKNOWN, nullptr, 0};
  if (how == 1) { m[0] = EOPSIMessage(store[d0], LEN[2 + d0], TYPES[t0]); ref[0] = {"", TYPES[t0], store[d0], LEN[2 + d0]}; }
  if (how == 2) { m[0] = EOPSIMessage(nullptr, 0, TYPES[t0]); ref[0].t = TYPES[t0]; if (d0) return; }
  if (how == 0 && d0) return;
  check("constructed"); std::string h = mc::fmt("%d %d %d:", how, d0, t0); int depth = mc::thorough() ? 4 : how == 0 ? 3 : 2;
  for (int i = 0; i < depth; i++) {
    int o = mc::choose(5), w = used > 1 ? mc::choose(2) : 0, v = 0;
    switch (o) {
      case 0: v = mc::choose((int) names().size()); m[w].setPartyId(names()[v]); ref[w].id = names()[v]; break;
      case 1: v = mc::choose(6); m[w].setType(TYPES[v]); ref[w].t = TYPES[v]; break;
      case 2: v = mc::choose(7); m[w].setData(store[v % 3], LEN[v]); ref[w].d = store[v % 3]; ref[w].l = LEN[v]; break;
      case 3: m[w].setData(nullptr); ref[w].d = nullptr; break;
      case 4: { EOPSIMessage c(m[w]); m[1 - w] = c; ref[1 - w] = ref[w]; used = 2; break; }
    }
    h += mc::fmt(" %d/%d/%d", o, w, v); check(h); mc::state(h);
  }
  mc::outcome("message");
}
/** Sends: to the addressee, once, the message itself; what the addressee raises reaches the sender */
struct Special : public ProtocolException { int detail; Special(const std::string &s, int d) : ProtocolException(s, NON_FATAL, 9), detail(d) {} };
class Mailbox : public EOPSIParty {
  public:
    std::vector<EOPSIMessage *> got; int raise = 0; std::string text;
    Mailbox(EOPSIPartyType t, const std::string &id) : EOPSIParty(t, prime(64), 2, 2, 5, id) {}
    void receive(EOPSIMessage *m) override { got.push_back(m); if (raise == 1) throw ProtocolException(text); if (raise == 2) throw std::bad_alloc(); if (raise == 3) throw 42; if (raise == 4) throw Special(text, 4711); if (raise == 5) throw OutOfBoundException(text); if (raise == 6) throw std::runtime_error(text); if (raise == 7) throw Exception(text, false, 3); }
    bool isAuthorised(const EOPSIMessage *) const override { return true; }
};
static void sending() {
  std::vector<std::unique_ptr<Mailbox>> p; std::vector<std::vector<EOPSIMessage *>> want(3); for (int i = 0; i < 3; i++) p.emplace_back(new Mailbox(i == 2 ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT, mc::fmt("P%d", i)));
  EOPSIMessage m[2]; std::string h; bool authenticated = mc::choose(2); if (authenticated) for (auto &a : p) for (auto &b : p) a->authenticate(*b);
  for (int d = 0; d < (mc::thorough() ? 3 : 2); d++) {
    int from = mc::choose(3), to = mc::choose(3), what = mc::choose(3), raise = mc::choose(8); m[d % 2].setType(TYPES[(from + to) % 6]); EOPSIMessage *x = what == 2 ? nullptr : &m[what]; p[to]->raise = raise; p[to]->text = "refusal " + std::string(20 * d, 'x'); int caught = 0; std::string text;
    h += mc::fmt(" %d>%d%s%d", from, to, what == 2 ? "null" : "", raise); mc::op(h);
    try { p[from]->send(*p[to], x); } catch (Special &e) { caught = 4; text = e.what(); mc::require(e.detail == 4711 && e.getExitCode() == 9 && !e.isFatal(), "error-changed", h); }
    catch (ProtocolException &e) { caught = 1; text = e.what(); } catch (OutOfBoundException &e) { caught = 5; text = e.what(); } catch (Exception &e) { caught = 7; text = e.what(); mc::require(e.getExitCode() == 3, "error-changed", h); }
    catch (std::bad_alloc &) { caught = 2; text = p[to]->text; } catch (std::runtime_error &e) { caught = 6; text = e.what(); } catch (int) { caught = 3; text = p[to]->text; }
    if (!x) { mc::require(caught == 1, "null-sent", h); } else { want[to].push_back(x); mc::require(caught == raise, "error-lost", h + mc::fmt(": raised %d, caught %d", raise, caught)); if (raise) mc::require(text == p[to]->text, "error-changed", h + ": " + text); }
    for (int i = 0; i < 3; i++) mc::require(p[i]->got == want[i], "delivery", h + mc::fmt(": party %d", i)); mc::state(h);
  }
  mc::outcome("sent");
}
/** Parties: every constructor and sequence of set operations */
static void parties() {
  bool server = mc::choose(2); std::string id = names()[mc::choose((int) names().size())]; ZZ p = mc::choose(2) ? prime(64) : prime(251); size_t k = mc::among(std::vector<size_t>{1, 7}), h = mc::among(std::vector<size_t>{1, 5}), deg = 2 * h + 1 + mc::choose(2); ZZ_p::init(p);
  MurmurHash3 mh(13U); HashBuckets<ZZ_p> hb(k, h, &mh); std::unique_ptr<EOPSIParty> x; EOPSIClient *c = nullptr; ZZ secret = NTL::power2_ZZ(200) + 77;
  const std::string sb("ab\0\xff\0", 5); bool bytes = !server && mc::choose(2); if (bytes) secret = NTL::ZZFromBytes((const byte *) sb.data(), 5);
  if (server) x.reset(new EOPSIServer(p, k, h, deg, id)); else { c = bytes ? new EOPSIClient(hb, p, k, h, deg, id, (const byte *) sb.data(), sb.size()) : new EOPSIClient(hb, p, k, h, deg, id, secret); x.reset(c); }
  ZZ *raw = nullptr; size_t rawSize = 0; EOPSIPartyType type = server ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT; std::unique_ptr<ZZ[]> data(new ZZ[2]); data[0] = 3; data[1] = 5; std::string hst = mc::fmt("%d %zu %zu %zu", server, k, h, deg);
  auto check = [&]() {
    mc::require(x->getId() == id, "party-id", hst); mc::require(x->getType() == type, "party-type", hst); mc::require(x->getFieldsize() == p, "party-field", hst); mc::require(x->getDegree() == deg, "party-degree", hst); mc::ops(4);
    if (c) { mc::require(c->getSecret() == secret, "party-secret", hst); mc::require(c->getRawData() == raw && c->getRawDataSize() == rawSize, "party-data", hst); mc::require(c->getBlindedDataSize() == k * deg, "party-size", hst); mc::require(c->getIntersection().length() == 0, "party-intersection", hst); mc::require(rawSize || !c->getBlindedData(), "party-blinded", hst); mc::require(!rawSize || (data[0] == 3 && data[1] == 5), "data-changed", hst); mc::ops(4); }
  };
  check(); int depth = mc::thorough() ? 3 : 2;
  for (int i = 0; i < depth; i++) {
    int o = mc::choose(c ? 6 : 4); hst += mc::fmt(" %d", o);
    switch (o) {
      case 0: { int v = mc::choose((int) names().size()); x->setId(names()[v]); id = names()[v]; hst += mc::fmt("=%d", v); break; }
      case 1: if (rawSize) return; deg += 3; x->setDegree(deg); break;
      case 2: if (rawSize) return; p = p == prime(64) ? prime(65) : prime(64); x->setFieldsize(p); ZZ_p::init(p); break;
      case 3: type = type == EOPSI_PARTY_CLIENT ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT; x->setType(type); break;
      case 4: { static const ZZ S[] = {NTL::to_ZZ(0), NTL::to_ZZ(1), NTL::power2_ZZ(999)}; int v = mc::choose(3); secret = S[v]; c->setSecret(secret); break; }
      case 5: if (rawSize || (k == 1 && h == 1)) return; { bool small = h == 1; if (small) return; c->setRawData(data.get(), 2, 8, 1); raw = data.get(); rawSize = 2; break; }
    }
    check(); mc::state(hst);
  }
  mc::outcome("party");
}
/** Clients whose name, secret, degree or field were given by setters before their data compute with them */
static void setUpLater() {
  Cfg c; c.p = mc::choose(2) ? prime(113) : prime(64); c.k = 2; c.h = 3; c.extra = mc::choose(3); int late = mc::choose(16); bool both = mc::choose(2); World w(c); MurmurHash3 mh(13U); HashBuckets<ZZ_p> t0(c.k, c.h, &mh), t1(c.k, c.h, &mh);
  auto make = [&](HashBuckets<ZZ_p> &t, const std::string &id, const std::string &secret, int late) {
    Cfg d = c; if (late & 1) d.extra += 2; if (late & 2) d.p = c.p; // a table's field is the global one
    std::unique_ptr<Client> x(new Client(t, d, late & 4 ? "somebody" : id, late & 8 ? std::string("another") : secret));
    if (late & 1) x->setDegree(c.degree()); if (late & 2) x->setFieldsize(c.p); if (late & 4) x->setId(id); if (late & 8) x->setSecret(NTL::ZZFromBytes((const byte *) secret.data(), (long) secret.size())); return x; };
  auto a = make(t0, "Alice", "first secret", late), b = make(t1, "Bob", "other", both ? late : 0); ZZ da[3], db[3]; da[0] = 0; da[1] = 7; da[2] = 255; db[0] = 7; db[1] = 255; db[2] = 9;
  a->setRawData(da, 3, 8, 1); b->setRawData(db, 3, 8, 1); for (auto *x : {a.get(), b.get()}) { w.cloud->authenticate(*x); x->authenticate(*w.cloud); } a->authenticate(*b); b->authenticate(*a);
  EOPSIMessage s[2]; int i = 0; for (auto *x : {a.get(), b.get()}) { s[i].setType(EOPSI_MESSAGE_OUTSOURCING_DATA); s[i].setPartyId(x->getId()); s[i].setData(x->getBlindedData(), x->getBlindedDataSize()); x->send(*w.cloud, &s[i]); i++; }
  std::string h = c.show() + mc::fmt(" late %d %d", late, both); mc::op(h); mc::state(h);
  auto ask = [&](Client &r, Client &q, const std::string &secret) { std::string p = requestBytes(r.getId(), secret); EOPSIMessage m((void *) p.data(), p.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m.setPartyId(r.getId()); r.send(q, &m); checkExact(r.getIntersection(), Set{NTL::to_ZZ(7), NTL::to_ZZ(255)}, h); };
  ask(*a, *b, "first secret"); ask(*b, *a, "other"); mc::outcome("computed");
}
/** Tables, their marks, generators and extractors report their parameters */
static void others() {
  ZZ_p::init(prime(64)); int what = mc::choose(4), x = mc::choose(5), y = mc::choose(5); static const size_t V[] = {1, 2, 30, 31, 70000}; std::string h = mc::fmt("%d %d %d", what, x, y); mc::op(h); mc::state(h);
  switch (what) {
    case 0: { if (x == 4 && y == 4) return; HashBuckets<ZZ_p> t(V[x], y == 4 ? 1000 : V[y]); if (x == 4 && y > 2) return; mc::require(t.getLength() == V[x] && t.getMaxLoad() == (y == 4 ? 1000 : V[y]) && t.size() == 0, "table-shape", h); t.addToBucket(NTL::to_ZZ_p(5), V[x] - 1); mc::require(t.getLength() == V[x] && t.getMaxLoad() == (y == 4 ? 1000 : V[y]) && t.size() == 1, "table-shape", h); break; }
    case 1: { MarkedVector<int> v; bool m = false; mc::require(!v.isMarked(), "mark", h); for (int o : {x, y, x}) { switch (o) { case 0: v.mark(); m = true; break; case 1: v.unmark(); m = false; break; case 2: v.mark(false); m = false; break; case 3: v.mark(true); m = true; break; case 4: { MarkedVector<int> c(v); v.mark(!m); v = c; v.push_back(1); break; } } mc::require(v.isMarked() == m, "mark", h); } mc::ops(3); break; }
    case 2: { static const long P[] = {17, 64, 65, 251, 600}; ZZpPRF g(prime(P[x])); mc::require(g.getModulo() == prime(P[x]), "modulus", h); g.setModulo(prime(P[y])); mc::require(g.getModulo() == prime(P[y]), "modulus", h); mc::ops(2); break; }
    case 3: {
      ZZpPolynomials q(V[x]); mc::require(q.getPadsize() == V[x] && q.size() == 0, "extractor", h); vec_ZZ_p xs, ys; for (int i = 0; i < 3; i++) { NTL::append(xs, NTL::to_ZZ_p(i + 1)); NTL::append(ys, NTL::to_ZZ_p(i + 5)); } std::vector<vec_ZZ_p> all(31, ys);
      { std::ostringstream o; o << q; mc::require(o.str().find("empty") != std::string::npos, "extractor-text", h + ": " + o.str()); }
      size_t n = V[y % 4]; q.interpolate(xs, all.data(), n); mc::require(q.size() == n, "extractor", h); q.findIntersection(xs, all.data(), V[(y + 1) % 4]); mc::require(q.size() == V[(y + 1) % 4] && q.getPadsize() == V[x], "extractor", h); std::ostringstream o; o << q; mc::require(o.str().find(mc::fmt("%zu", q.size())) != std::string::npos, "extractor-text", h + ": " + o.str()); mc::ops(4); break; }
  }
  mc::outcome("reported");
}
/** Names and secrets of every length to 700 and around powers of two; every character */
static void lengths() {
  int what = mc::choose(4), part = mc::choose(8); ZZ p = prime(64); ZZ_p::init(p); MurmurHash3 mh(13U); HashBuckets<ZZ_p> hb(2, 3, &mh); std::vector<size_t> ns; for (size_t n = part; n <= 700; n += 8) ns.push_back(n);
  for (size_t b = 1024; b <= (mc::thorough() ? 1048576 : 65536); b *= 2) if ((ns.size() + b) % 2 == part % 2 || mc::thorough()) for (size_t n : {b - 1, b, b + 1}) ns.push_back(n);
  EOPSIMessage m; std::unique_ptr<EOPSIServer> sv(new EOPSIServer(p, 2, 3, 7, "x")); EOPSIClient cl(hb, p, 2, 3, 7, "y", NTL::to_ZZ(5));
  for (size_t n : ns) {
    std::string s; for (size_t i = 0; i < n; i++) s += what == 1 ? 'w' : (char) (i * 7 + n + part); std::string h = mc::fmt("%zu characters of kind %d", n, what); mc::state(h); mc::ops(1);
    if (what < 2) {
      m.setPartyId(s); mc::require(m.getPartyId() == s, "message-sender", h); EOPSIMessage c(m); mc::require(c.getPartyId() == s && m.getPartyId() == s, "message-sender", h); EOPSIMessage e; e = c; c.setPartyId("other"); mc::require(e.getPartyId() == s, "message-sender", h);
      sv->setId(s); mc::require(sv->getId() == s, "party-id", h); cl.setId(s); mc::require(cl.getId() == s, "party-id", h); EOPSIServer t(p, 2, 3, 7, s); mc::require(t.getId() == s, "party-id", h);
    } else if (what == 2) { EOPSIClient t(hb, p, 2, 3, 7, s, (const byte *) s.data(), n); mc::require(t.getId() == s, "party-id", h); mc::require(t.getSecret() == NTL::ZZFromBytes((const byte *) s.data(), (long) n), "party-secret", h); }
    else { ZZ z = NTL::power2_ZZ((long) n) + part; cl.setSecret(z); mc::require(cl.getSecret() == z, "party-secret", h); EOPSIClient t(hb, p, 2, 3, 7, "z", z); mc::require(t.getSecret() == z, "party-secret", h); }
  }
  mc::note(mc::fmt("kind %d, part %d", what, part)); mc::outcome("lengths");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C24");
  s.add("messages", "every way to make a message, then every sequence of 2 or 3 (thorough 4) set operations and copies", messages);
  s.add("sending", "every sequence of 2 (thorough 3) sends among three parties, of two messages or none, with eight reactions of the addressee (its own kinds of error among them)", sending);
  s.add("parties", "clients and servers of 7 names, 2 fields, 4 shapes, 2 degrees, 3 secrets, then every sequence of 2 (thorough 3) set operations", parties);
  s.add("late", "runs of clients that were given name, secret, degree and field (all combinations) by set operations before their data", setUpLater);
  s.add("others", "tables, marks, field generators and root extractors over 5 x 5 parameters", others);
  s.add("lengths", "names of messages and parties, secrets, of every length to 700 and around powers of two to 65536 (thorough 1048576)", lengths);
  s.add("reusedParties", "`parties` again where memory is handed out again at once", parties);
  s.add("reusedOthers", "`others` again where memory is handed out again at once", others);
  return s.main(argc, argv);
}
