/* C04: only authenticated parties in the right role are heard. */
#include "psi.hpp"
using namespace psi;

static Elems el(std::initializer_list<long> l) { Elems e; for (long x : l) e.push_back(NTL::to_ZZ(x)); return e; }
static const EOPSIMessageType types[] = {EOPSI_MESSAGE_OUTSOURCING_DATA, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, EOPSI_MESSAGE_OUTPUT_COMPUTATION, EOPSI_MESSAGE_POLYNOMIAL, EOPSI_MESSAGE_UNKNOWN, (EOPSIMessageType) 7};
static const char *typeName[] = {"outsourced data", "client request", "cloud request", "cloud answer", "helper answer", "unknown type", "type 7"};
static const char *kindName[] = {"an authenticated client", "an authenticated server", "an unauthenticated client", "an unauthenticated server", "an unknown party", "the receiver itself", "nobody (empty id)", "no message"};

/** Alice and Bob know each other and the cloud, which knows them and another server. Carol and a third server know everybody, but nobody knows them. */
struct Stage {
  Cfg c; World w; Server s2, s3; std::vector<std::vector<vec_ZZ_p>> junk; std::vector<std::string> bytes; std::vector<EOPSIMessage> msgs;
  Stage(const Cfg &c_) : c(c_), w(c_), s2(c_, "Second"), s3(c_, "Third") {
    w.add("Alice", std::string("\0\0\x02", 3)); w.add("Bob", "Topsy Kretts"); w.add("Carol", "\x07");
    for (long e : {0, 1, 2, 5, 7, 9}) w.place(NTL::to_ZZ(e), (int) (e % c.k));
    w.data(0, el({0, 1, 5})); w.data(1, el({1, 5, 7})); w.data(2, el({0, 2, 9}));
    for (int i = 0; i < 2; i++) { w.cloud->authenticate(w.c(i)); w.c(i).authenticate(*w.cloud); w.c(i).authenticate(w.c(1 - i)); }
    w.cloud->authenticate(s2); s2.authenticate(*w.cloud);
    for (int i = 0; i < 2; i++) { w.c(2).authenticate(w.c(i)); s3.authenticate(w.c(i)); s2.authenticate(w.c(i)); }
    w.c(2).authenticate(*w.cloud); s3.authenticate(*w.cloud);
    msgs.reserve(16); bytes.reserve(16);
  }
  EOPSIParty &receiver(int r) { return r == 2 ? (EOPSIParty &) *w.cloud : (EOPSIParty &) w.c(r); }
  /** the sender of that kind, null if it does not exist */
  EOPSIParty *sender(int r, int kind) {
    switch (kind) {
      case 0: return &w.c(r == 0 ? 1 : 0);
      case 1: return r == 2 ? (EOPSIParty *) &s2 : (EOPSIParty *) w.cloud.get();
      case 2: return &w.c(2);
      case 3: return &s3;
      case 5: return &receiver(r);
      default: return nullptr;
    }
  }
  std::string senderId(int r, int kind) { EOPSIParty *s = sender(r, kind); return s ? s->getId() : kind == 4 ? "Nobody" : ""; }
  EOPSIMessage *message(int r, int kind, int t, int payload) {
    std::string id = senderId(r, kind); void *d = nullptr; size_t len = 0;
    if (payload == 0) switch (types[t]) {
      case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST: bytes.push_back(requestBytes(id, "\x07")); d = &bytes.back()[0]; len = bytes.back().size(); break;
      case EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST: bytes.push_back(id + '\0' + (r == 1 ? "Alice" : "Bob") + '\0' + std::string(16, '\x80') + '\0'); d = &bytes.back()[0]; len = bytes.back().size(); break;
      default: {
        vec_ZZ_p v; v.SetLength(c.degree()); for (long i = 0; i < v.length(); i++) v[i] = NTL::to_ZZ_p(77 + i);
        junk.emplace_back(c.k, v); d = junk.back().data(); len = types[t] == EOPSI_MESSAGE_OUTSOURCING_DATA ? c.degree() * c.k : 1;
      }
    }
    msgs.emplace_back(d, len, types[t]); msgs.back().setPartyId(id);
    return &msgs.back();
  }
  static bool allowed(int r, int kind, int t) {
    if (r == 2) return kind == 0 && (types[t] == EOPSI_MESSAGE_OUTSOURCING_DATA || types[t] == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST);
    return (kind == 0 && (types[t] == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST || types[t] == EOPSI_MESSAGE_POLYNOMIAL)) || (kind == 1 && types[t] == EOPSI_MESSAGE_OUTPUT_COMPUTATION);
  }
  void intact() { for (auto &v : junk) for (auto &x : v) for (long i = 0; i < x.length(); i++) mc::require(x[i] == NTL::to_ZZ_p(77 + i), "payload-changed", "the payload of a refused message was modified"); }
};

static std::string draw(Stage &st, bool byParty, bool nullToo) {
  int r = mc::choose(3), kind = mc::choose(nullToo ? 8 : 7);
  EOPSIParty &to = st.receiver(r); std::string what = mc::fmt("%s <- ", to.getId().c_str());
  EOPSIMessage *m = nullptr;
  if (kind < 7) {
    int t = mc::choose(7), payload = nullToo ? mc::choose(2) : 0;
    what += mc::fmt("%s%s from %s", typeName[t], payload ? " without payload" : "", kindName[kind]);
    if (Stage::allowed(r, kind, t)) return "";
    m = st.message(r, kind, t, payload);
  } else what += kindName[kind];
  EOPSIParty *from = kind < 7 && byParty ? st.sender(r, kind) : nullptr;
  mc::op(what + (from ? " (sent)" : " (received)"));
  if (m && (kind == 2 || kind == 3 || kind >= 4)) mc::require(r == 2 ? !st.w.cloud->isAuthorised(m) : !st.w.c(r).isAuthorised(m), "authorised", what);
  if (!m) mc::require(r == 2 ? !st.w.cloud->isAuthorised(m) : !st.w.c(r).isAuthorised(m), "authorised", what);
  try { if (from) from->send(to, m); else to.receive(m); }
  catch (ProtocolException &e) { mc::outcome("refused"); return what; }
  mc::fail("not-refused", what);
}
/** Refused messages at any point of a run, which ends as if they had not been sent */
static void refused(int count, bool nullToo) {
  Cfg c; c.h = 3; Stage st(c); World &w = st.w; Set none;
  int point = mc::choose(5), at2 = count > 1 ? mc::choose(5) : -1; bool byParty = mc::choose(2);
  std::string done; auto here = [&](int p) {
    std::vector<vec_ZZ> before; for (int i = 0; i < 3; i++) before.push_back(w.c(i).getIntersection());
    for (int k = 0; k < count; k++) if (p == (k ? at2 : point)) {
      size_t seen[4]; for (int i = 0; i < 3; i++) seen[i] = w.c(i).seen.size(); seen[3] = w.cloud->seen.size();
      std::string x = draw(st, byParty, nullToo && !k); if (x.empty()) return false; done += x;
      size_t sent = w.cloud->seen.size() - seen[3]; for (int i = 0; i < 3; i++) sent += w.c(i).seen.size() - seen[i];
      mc::require(sent <= 1, "answered", "a refused message made its receiver send one: " + x);
    }
    for (int i = 0; i < 3; i++) mc::require(before[i] == w.c(i).getIntersection(), "learnt-changed", "a refused message changed an intersection");
    return true;
  };
  if (!here(0)) return;
  w.outsource(0); w.outsource(1);
  if (!here(1)) return;
  w.c(0).hold = true; w.request(0, 1); w.c(0).hold = false;
  mc::require(w.c(0).held.size() == 2, "half-missing", "the request produced no two halves");
  if (!here(2)) return;
  w.c(0).deliver(0);
  if (!here(3)) return;
  w.c(0).deliver(0);
  checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "Alice");
  if (!here(4)) return;
  w.request(1, 0); checkExact(w.c(1).getIntersection(), common(*w.m[0], *w.m[1]), "Bob");
  w.request(0, 1); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "Alice again");
  mc::require(w.c(2).getIntersection().length() == 0, "learnt-changed", "Carol learnt something");
  st.intact(); mc::state(mc::fmt("%d %d %d ", point, at2, (int) byParty) + done);
}
/** One refused message over and over, before and between the halves of a run: everybody else is heard as before */
static void hammered() {
  Cfg c; c.h = 3; Stage st(c); World &w = st.w; int r = mc::choose(3), kind = mc::choose(7), t = mc::choose(7), n = mc::thorough() ? 20000 : 1100; if (Stage::allowed(r, kind, t)) return; EOPSIParty &to = st.receiver(r); std::string what = mc::fmt("%s <- %s from %s", to.getId().c_str(), typeName[t], kindName[kind]);
  auto send = [&](bool byParty) { EOPSIMessage *m = st.message(r, kind, t, 0); EOPSIParty *from = byParty ? st.sender(r, kind) : nullptr; mc::op(what + mc::fmt(", %d times", n)); for (int i = 0; i < n; i++) { bool heard = true; try { if (from) from->send(to, m); else to.receive(m); } catch (ProtocolException &) { heard = false; } if (heard) mc::fail("not-refused", what + mc::fmt(", the %dth time", i + 1)); } };
  send(true); w.outsource(0); w.outsource(1); w.c(0).hold = true; w.request(0, 1); w.c(0).hold = false; w.c(0).deliver(0); send(false); w.c(0).deliver(0); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "Alice after " + what);
  w.outsource(0); w.request(1, 0); checkExact(w.c(1).getIntersection(), common(*w.m[0], *w.m[1]), "Bob after " + what); st.intact(); mc::state(mc::fmt("hammer %d %d %d", r, kind, t)); mc::outcome("hammered");
}
/** What is allowed is not refused */
static void accepted() {
  Cfg c; c.h = 3; Stage st(c); World &w = st.w; int r = mc::choose(3), kind = mc::choose(2), t = mc::choose(5); bool byParty = mc::choose(2);
  if (!Stage::allowed(r, kind, t)) return;
  w.outsource(0); w.outsource(1);
  EOPSIMessage *m = st.message(r, kind, t, 0);
  if (types[t] == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) { byte *b = new byte[m->length()]; memcpy(b, m->getData(), m->length()); m->setData(b, m->length()); w.c(1).hold = true; }
  if (types[t] == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST) { w.c(0).hold = w.c(1).hold = true; }
  mc::op(mc::fmt("%s <- %s from %s", st.receiver(r).getId().c_str(), typeName[t], kindName[kind]));
  try { if (byParty) st.sender(r, kind)->send(st.receiver(r), m); else st.receiver(r).receive(m); }
  catch (ProtocolException &e) { mc::fail("refused", mc::fmt("%s <- %s from %s: %s", st.receiver(r).getId().c_str(), typeName[t], kindName[kind], e.what())); }
  mc::outcome("accepted"); mc::state(mc::fmt("ok %d %d %d %d", r, kind, t, (int) byParty));
}
/** Who has authenticated whom, after every sequence of authentications */
static void graphs(int depth) {
  Cfg c; ZZ_p::init(c.p); HashBuckets<ZZ_p> hb(2, 2, nullptr);
  Client a(hb, c, "Alice", "x"), b(hb, c, "Bob", "y"), twin(hb, c, "Alice", "z"); Server s(c, "Cloud"), al(c, "Al");
  std::vector<EOPSIParty *> ps = {&a, &b, &twin, &s, &al}; std::map<std::pair<int, std::string>, bool> g; int n = (int) ps.size();
  std::string h;
  for (int d = 0; d < depth; d++) {
    int x = mc::choose(n), y = mc::choose(n); mc::op(mc::fmt("%d authenticates %d", x, y));
    ps[x]->authenticate(*ps[y]); if (ps[x]->getId() != ps[y]->getId()) g[{x, ps[y]->getId()}] = true;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      bool want = g.count({i, ps[j]->getId()}), byId = ps[i]->hasAuthenticated(ps[j]->getId()), byParty = ps[i]->hasAuthenticated(*ps[j]);
      if (want != byId || want != byParty) mc::fail("wrong-authentication", mc::fmt("%d (%s) about %d (%s): by id %d, by party %d, should be %d", i, ps[i]->getId().c_str(), j, ps[j]->getId().c_str(), byId, byParty, want));
    }
    for (int i = 0; i < n; i++) for (const char *id : {"", "Bo", "Bobb", "alice", "Nobody"}) mc::require(!ps[i]->hasAuthenticated(std::string(id)), "wrong-authentication", id);
    h.clear(); for (auto &e : g) h += mc::fmt("%d%s ", e.first.first, e.first.second.c_str()); mc::state(h);
  }
  mc::outcome("graph");
}
/** A party heard only after it was authenticated */
static void becomes() {
  Cfg c; c.h = 3; Stage st(c); World &w = st.w; w.outsource(0); w.outsource(1); std::string h;
  bool known[3] = {false, false, false}, stored = false;  // cloud knows Carol, Carol's helper (Bob) knows Carol, Carol's data is stored
  for (int d = 0; d < (mc::thorough() ? 6 : 5); d++) {
    int o = mc::choose(4); bool ok = true; std::string why; h += (char) ('0' + o);
    if (o == 0) { mc::op("the cloud authenticates Carol"); w.cloud->authenticate(w.c(2)); known[0] = true; }
    else if (o == 1) { mc::op("Bob authenticates Carol"); w.c(1).authenticate(w.c(2)); known[1] = true; }
    else if (o == 2) { try { w.outsource(2); } catch (ProtocolException &) { ok = false; } mc::require(ok == known[0], ok ? "not-refused" : "refused", "Carol's data"); if (ok) stored = true; }
    else {
      if (known[1] && !(known[0] && stored)) continue;     // the helper's own failure: another property
      try { w.request(2, 1); } catch (ProtocolException &) { ok = false; }
      mc::require(ok == known[1], ok ? "not-refused" : "refused", "Carol's request");
      if (ok) checkExact(w.c(2).getIntersection(), common(*w.m[2], *w.m[1]), "Carol");
    }
    mc::outcome(ok ? "accepted" : "refused"); mc::state("b" + h);
  }
  w.request(0, 1); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "Alice");
}
/** Names: every pair of a known and a claimed one, over parties that know several; only exact matches are heard */
static void names() {
  static std::vector<std::string> ns; if (ns.empty()) {
    ns = {"Alice", "alice", "Alic", "Alicee", " Alice", "Alice ", "Alice\n", "\xc3\x81lice", "A", "0", "1", "01", "a", "Al", "Bob", "\xff", "\x80", "lice"};
    for (size_t n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 5000}) { ns.push_back(std::string(n, 'x')); ns.push_back(std::string(n - 1, 'x') + 'y'); }
  }
  int k = mc::choose((int) ns.size()), role = mc::choose(2), others = mc::among(std::vector<int>{0, 3, 40}); const std::string &name = ns[k];
  Cfg c; ZZ_p::init(c.p); HashBuckets<ZZ_p> hb(2, 2, nullptr); Client me(hb, c, "Me myself", "x"), known(hb, c, name, "y"); Server cloud(c, "The cloud"); EOPSIParty &to = role ? (EOPSIParty &) cloud : (EOPSIParty &) me;
  std::vector<std::unique_ptr<Client>> more; for (int i = 0; i < others; i++) { more.emplace_back(new Client(hb, c, mc::fmt("other %d", i), "z")); if (i < others / 2) to.authenticate(*more.back()); }
  to.authenticate(known); for (int i = others / 2; i < others; i++) to.authenticate(*more[i]);
  mc::op(mc::fmt("%s authenticates a name of %zu bytes among %d others", to.getId().c_str(), name.size(), others)); byte nothing[1] = {0};
  for (int i = 0; i < (int) ns.size(); i++) {
    mc::require(to.hasAuthenticated(ns[i]) == (i == k), "wrong-authentication", mc::fmt("name %d when %d is known", i, k));
    for (EOPSIMessageType t : {EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, EOPSI_MESSAGE_POLYNOMIAL, EOPSI_MESSAGE_OUTSOURCING_DATA, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, EOPSI_MESSAGE_OUTPUT_COMPUTATION, EOPSI_MESSAGE_UNKNOWN}) {
      EOPSIMessage m(nothing, 1, t); m.setPartyId(ns[i]); bool may = i == k && (role ? t == EOPSI_MESSAGE_OUTSOURCING_DATA || t == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST : t == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST || t == EOPSI_MESSAGE_POLYNOMIAL);
      if (role ? !cloud.isAuthorised(&m) == may : !me.isAuthorised(&m) == may) mc::fail("authorised", mc::fmt("type %d in name %d when %d is known: should be %d", (int) t, i, k, (int) may));
      if (i == k) continue;
      bool ok = false; try { to.receive(&m); ok = true; } catch (ProtocolException &) {} mc::require(!ok, "not-refused", mc::fmt("type %d in name %d when %d is known", (int) t, i, k)); mc::ops(1);
    }
  }
  for (auto &m : more) mc::require(to.hasAuthenticated(*m) && to.hasAuthenticated(m->getId()) && !m->hasAuthenticated(to), "wrong-authentication", "another party");
  mc::require(to.hasAuthenticated(known) && !known.hasAuthenticated(to) && !to.hasAuthenticated(to), "wrong-authentication", "the party");
  mc::state(mc::fmt("n%d %d %d", k, role, others)); mc::outcome("name");
}
/** Many parties, everyone knowing a chosen part of the others: only that part is heard */
static void manyParties() {
  Cfg c; ZZ_p::init(c.p); HashBuckets<ZZ_p> hb(2, 2, nullptr); int n = mc::among(mc::thorough() ? std::vector<int>{12, 40, 130, 300} : std::vector<int>{12, 40, 70}), rule = mc::choose(5), back = mc::choose(2);
  std::vector<std::unique_ptr<EOPSIParty>> ps; for (int i = 0; i < n; i++) if (i % 4 == 3) ps.emplace_back(new Server(c, mc::fmt("p%d", i))); else ps.emplace_back(new Client(hb, c, mc::fmt("p%d", i), "z"));
  auto knows = [&](int i, int j) { if (i == j) return false; switch (rule) { case 0: return j == (i + 1) % n; case 1: return i < j; case 2: return (i ^ j) % 3 == 0; case 3: return j % 4 == 3; default: return (i * 31 + j * 17) % 5 < 2; } };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int x = back ? n - 1 - i : i, y = back ? n - 1 - j : j; if (knows(x, y)) for (int t = 0; t <= (x + y) % 2; t++) ps[x]->authenticate(*ps[y]); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    bool k = knows(i, j); mc::require(ps[i]->hasAuthenticated(*ps[j]) == k && ps[i]->hasAuthenticated(ps[j]->getId()) == k, "wrong-authentication", mc::fmt("party %d of %d about %d", i, n, j));
    for (EOPSIMessageType t : {EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, EOPSI_MESSAGE_POLYNOMIAL, EOPSI_MESSAGE_OUTSOURCING_DATA, EOPSI_MESSAGE_OUTPUT_COMPUTATION}) {
      EOPSIMessage m(nullptr, 0, t); m.setPartyId(ps[j]->getId()); bool client = i % 4 != 3, fromClient = j % 4 != 3;
      if (!client) { if (!k) mc::require(!((Server *) ps[i].get())->isAuthorised(&m), "authorised", mc::fmt("%d %d", i, j)); else if (fromClient && t == EOPSI_MESSAGE_OUTSOURCING_DATA) mc::require(((Server *) ps[i].get())->isAuthorised(&m), "refused", mc::fmt("%d %d", i, j)); }
      else mc::require(((Client *) ps[i].get())->isAuthorised(&m) == (k && ((fromClient && (t == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST || t == EOPSI_MESSAGE_POLYNOMIAL)) || (!fromClient && t == EOPSI_MESSAGE_OUTPUT_COMPUTATION))), "authorised", mc::fmt("type %d from %d to %d", (int) t, j, i));
      mc::ops(1);
    }
  }
  mc::state(mc::fmt("m%d %d %d", n, rule, back)); mc::outcome(mc::fmt("%d parties", n));
}
/** The same authentication over and over */
static void repeated() {
  Cfg c; ZZ_p::init(c.p); HashBuckets<ZZ_p> hb(2, 2, nullptr); Client a(hb, c, "A", "x"), b(hb, c, "B", "y"); Server s(c, "S"), s2(c, "S2"); EOPSIParty *ps[] = {&a, &s, &b, &s2}; int i = mc::choose(2), j = mc::choose(4), n = mc::thorough() ? 1 << 21 : 140000; bool between = mc::choose(2);
  for (int k = 0; k < n; k++) { ps[i]->authenticate(*ps[j]); if (between && i != 2 && j != 2 && k % 2) ps[i]->authenticate(b); if (!ps[i]->hasAuthenticated(ps[j]->getId()) != (i == j) || !ps[i]->hasAuthenticated(*ps[j]) != (i == j)) mc::fail("wrong-authentication", mc::fmt("after %d authentications of %d by %d", k + 1, j, i)); }
  mc::require(!ps[j]->hasAuthenticated(*ps[i]) && !ps[j]->hasAuthenticated("Zed") && !ps[i]->hasAuthenticated("Zed"), "wrong-authentication", "others"); mc::ops(n); mc::state(mc::fmt("again %d %d %d", i, j, between)); mc::outcome("again");
}
/** Several parties of one name, of which the receiver has authenticated some: the last one authenticated counts, with its role, and hears the answers */
static void namesakes() {
  Cfg c; c.h = 3; Stage st(c); World &w = st.w; w.outsource(0); w.outsource(1); HashBuckets<ZZ_p> t1(c.k, c.h, w.alg.get()), t2(c.k, c.h, w.alg.get());
  Client one(t1, c, "Twin", std::string("\x05")), two(t2, c, "Twin", std::string("other")); Server srv(c, "Twin"); EOPSIParty *ps[] = {&one, &two, &srv}; ZZ d1[3] = {NTL::to_ZZ(1), NTL::to_ZZ(2), NTL::to_ZZ(9)}, d2[2] = {NTL::to_ZZ(0), NTL::to_ZZ(5)}; one.setRawData(d1, 3, c.bits, 1); two.setRawData(d2, 2, c.bits, 1);
  Client *cl[] = {&one, &two}; std::string h; Set other = {NTL::to_ZZ(1), NTL::to_ZZ(5), NTL::to_ZZ(7)}, own[] = {{d1[0], d1[1], d1[2]}, {d2[0], d2[1]}};
  for (auto *x : cl) { x->authenticate(*w.cloud); x->authenticate(w.c(1)); } int last[2] = {-1, -1}, stored = -1, depth = mc::thorough() ? 6 : 5; size_t heard[2] = {0, 0};
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(10); h += (char) ('0' + o);
    if (o < 6) { int r = o / 3, p = o % 3; mc::op(mc::fmt("%s authenticates Twin number %d", r ? "Bob" : "the cloud", p)); if (r) w.c(1).authenticate(*ps[p]); else w.cloud->authenticate(*ps[p]); last[r] = p; }
    else if (o < 8) {
      int p = o - 6; mc::op(mc::fmt("Twin number %d outsources", p)); EOPSIMessage m(cl[p]->getBlindedData(), cl[p]->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId("Twin"); bool ok = true; try { cl[p]->send(*w.cloud, &m); } catch (ProtocolException &) { ok = false; }
      mc::require(ok == (last[0] == 0 || last[0] == 1), ok ? "not-refused" : "refused", h + ": outsourced data"); if (ok) stored = p;
    } else {
      int p = o - 8; if (last[1] == p && !((last[0] == 0 || last[0] == 1) && last[0] == p && stored == p)) return; // a run that cannot end exactly
      if (last[1] != 2 && last[1] >= 0 && last[1] != p) return;      // a namesake asks in the name of the known one: the same claimed sender
      std::string b = requestBytes("Twin", p ? "other" : "\x05"); std::unique_ptr<byte[]> blk(new byte[b.size()]); memcpy(blk.get(), b.data(), b.size()); EOPSIMessage m(blk.get(), b.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m.setPartyId("Twin"); mc::op(mc::fmt("Twin number %d asks Bob", p)); bool ok = true; try { cl[p]->send(w.c(1), &m); } catch (ProtocolException &) { ok = false; }
      mc::require(ok == (last[1] == p), ok ? "not-refused" : "refused", h + ": a request");
      if (ok) { Set want; std::set_intersection(own[p].begin(), own[p].end(), other.begin(), other.end(), std::inserter(want, want.begin())); checkExact(cl[p]->getIntersection(), want, h); heard[p] += 2; }
    }
    for (int p = 0; p < 2; p++) mc::require(cl[p]->seen.size() == heard[p], "wrong-addressee", h + mc::fmt(": Twin number %d was sent %zu messages, should be %zu", p, cl[p]->seen.size(), heard[p]));
    for (int r = 0; r < 2; r++) { EOPSIParty &to = r ? (EOPSIParty &) w.c(1) : (EOPSIParty &) *w.cloud; mc::require(to.hasAuthenticated(std::string("Twin")) == (last[r] >= 0), "wrong-authentication", h);
      for (int t = 0; t < 7; t++) { EOPSIMessage m((void *) "x", 1, types[t]); m.setPartyId("Twin"); bool client = last[r] == 0 || last[r] == 1, got = to.isAuthorised(&m); if (!r) { if (last[0] < 0) mc::require(!got, "authorised", h); else if (client && (t == 0 || t == 2)) mc::require(got, "refused", h); else if (client) mc::require(!got, "authorised", h + mc::fmt(" type %d", t)); } else mc::require(got == (client ? t == 1 || t == 4 : last[1] == 2 && t == 3), "authorised", h + mc::fmt(": type %d, Bob knows number %d", t, last[1])); } }
    mc::outcome("namesake"); mc::state("ns" + h);
  }
  w.request(0, 1); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "Alice");
}
/** Parties that take another name: known are the names they had when they were authenticated, whoever bears them now */
static void renamed() {
  Cfg c; ZZ_p::init(c.p); HashBuckets<ZZ_p> hb(2, 2, nullptr); Client a(hb, c, "A", "x"), b(hb, c, "B", "y"); Server s(c, "S"); EOPSIParty *p[] = {&a, &b, &s}; std::string name[] = {"A", "B", "S"}; std::set<std::string> known[3]; static const char *NEW[] = {"A", "B", "S", "C"}; std::string h; int depth = mc::thorough() ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(18); h += (char) ('a' + o); if (o < 12) { p[o / 4]->setId(NEW[o % 4]); name[o / 4] = NEW[o % 4]; mc::op(mc::fmt("%d takes the name %s", o / 4, NEW[o % 4])); }
    else { int x = (o - 12) / 2, y = (x + 1 + (o - 12) % 2) % 3; mc::op(mc::fmt("%d authenticates %d", x, y)); p[x]->authenticate(*p[y]); if (name[x] != name[y]) known[x].insert(name[y]); }
    for (int x = 0; x < 3; x++) { for (const char *n : NEW) if (p[x]->hasAuthenticated(std::string(n)) != (bool) known[x].count(n)) mc::fail("wrong-authentication", h + mc::fmt(": party %d about %s", x, n)); for (int y = 0; y < 3; y++) if (p[x]->hasAuthenticated(*p[y]) != (bool) known[x].count(name[y])) mc::fail("wrong-authentication", h + mc::fmt(": party %d about party %d, now %s", x, y, name[y].c_str())); mc::require(p[x]->getId() == name[x], "party-id", h); }
    mc::state("r" + h);
  }
  mc::outcome("renamed");
}
/** Parties that change their role: the role they have counts, whatever they had when they were authenticated */
static void changed() {
  Cfg c; ZZ_p::init(c.p); vec_ZZ_p v; v.SetLength(c.degree()); std::vector<vec_ZZ_p> junk(c.k, v); HashBuckets<ZZ_p> hb(2, 2, nullptr); Client a(hb, c, "A", "x"), b(hb, c, "B", "y"); Server s(c, "S"); EOPSIParty *p[] = {&a, &b, &s}; EOPSIPartyType role[] = {EOPSI_PARTY_CLIENT, EOPSI_PARTY_CLIENT, EOPSI_PARTY_SERVER}; std::set<int> known[3]; std::string h; int depth = mc::thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(9); h += (char) ('a' + o); if (o < 6) { int x = o / 2, y = (x + 1 + o % 2) % 3; mc::op(mc::fmt("%d authenticates %d", x, y)); p[x]->authenticate(*p[y]); known[x].insert(y); }
    else { int x = o - 6; role[x] = role[x] == EOPSI_PARTY_CLIENT ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT; mc::op(mc::fmt("%d becomes a %s", x, role[x] == EOPSI_PARTY_CLIENT ? "client" : "server")); p[x]->setType(role[x]); }
    for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) for (int t = 0; t < 7; t++) {
      EOPSIMessage m((void *) "x", 1, types[t]); m.setPartyId(p[y]->getId()); bool client = role[y] == EOPSI_PARTY_CLIENT, got = p[x]->isAuthorised(&m), want = known[x].count(y) && (x < 2 ? (client ? t == 1 || t == 4 : t == 3) : client && (t == 0 || t == 2));
      if (x == 2 && known[x].count(y) && !client && (t == 0 || t == 2 || t == 3)) continue; // between servers: refused when received
      if (got != want) mc::fail(got ? "authorised" : "refused", h + mc::fmt(": %s about %s of %d", p[x]->getId().c_str(), typeName[t], y));
    }
    for (int y = 0; y < 2; y++) { EOPSIMessage m(junk.data(), junk.size() * c.degree(), EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId(p[y]->getId()); bool ok = true, want = known[2].count(y) && role[y] == EOPSI_PARTY_CLIENT; try { p[2]->receive(&m); } catch (ProtocolException &) { ok = false; } mc::require(ok == want, ok ? "not-refused" : "refused", h + mc::fmt(": data of %d", y)); }
    for (int y = 0; y < 3; y++) mc::require(p[y]->getType() == role[y], "party-type", h);
    mc::state("k" + h);
  }
  mc::outcome("changed");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C04");
  s.add("accepted", "every allowed combination of receiver, sender and type is accepted", accepted);
  s.add("refused", "3 receivers x 7 kinds of senders (and no message) x 7 types x with or without payload, sent or received, at 5 points of a run that ends exactly", [] { refused(1, true); });
  s.add("hammered", "3 receivers x 7 kinds of senders x 7 types: the same refused message 1100 (thorough 20000) times over before a run and between its halves", hammered);
  s.add("graphs", "all sequences of 3 (thorough 4) authentications among 5 parties", [] { graphs(mc::thorough() ? 4 : 3); });
  s.add("becomes", "all sequences of 5 (thorough 6) authentications, outsourcings and requests of a newcomer", becomes);
  s.add("names", "58 names (case, prefixes, spaces, lengths around powers of two to 5000) x all of them as claimed sender x 6 types, client and server, among 0, 3 and 40 other known parties", names);
  s.add("many", "12, 40 and 70 (thorough 300) parties under 5 relations, each asked about all others", manyParties);
  s.add("repeated", "one party authenticated by another 140000 (thorough 2097152) times in a row", repeated);
  s.add("renamed", "all sequences of 4 (thorough 5) renamings to 4 names and authentications among 3 parties", renamed);
  s.add("changed", "all sequences of 5 (thorough 6) authentications and changes of role among two clients and a server, each asked about all 7 types of messages of all", changed);
  s.add("namesakes", "two clients and a server of one name: all sequences of 5 (thorough 6) authentications by the cloud and the helper, outsourcings and requests", namesakes);
  s.add("pairs", "all pairs of refused messages at all pairs of points", [] { refused(2, false); }, 0, 0, true);
  s.add("reusedBecomes", "`becomes` again where memory is handed out again at once", becomes);
  s.add("reusedRenamed", "`renamed` again where memory is handed out again at once", renamed);
  s.add("reusedGraphs", "`graphs` again where memory is handed out again at once", [] { graphs(mc::thorough() ? 4 : 3); });
  return s.main(argc, argv);
}
