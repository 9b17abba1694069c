/* C23: nobody is told more than the protocol says.  Executions that differ in what a party must not learn are compared in what it sees. */
#include "psi.hpp"
using namespace psi;

typedef std::vector<std::string> View;
static std::string text(const vec_ZZ_p *m, const Cfg &c) { std::string s; for (size_t j = 0; j < c.k; j++) s += mc::str(m[j]) + ";"; return s; }
/** What happened in one run */
struct Run {
  View layout;                      // receiver: type, sender, size of every message, in the order of arrival at each party
  std::string payload, key, t, q;   // of the cloud request; the two answers
};
/** Everything a world's parties have received from now on, while client r asks client h under a given state of the random source */
static Run observe(World &w, size_t r, size_t h, long seed, bool finish = true) {
  const Cfg &c = w.cfg; Run o; std::vector<size_t> before; for (auto &m : w.m) before.push_back(m->c->seen.size());
  size_t cloudBefore = w.cloud->seen.size(); NTL::SetSeed(NTL::to_ZZ(seed)); mc::env().randState = 88172645463325252ull + (uint64_t) seed;
  Client &q = w.c(r); q.hold = true; w.request(r, h); q.hold = false;
  auto line = [&](const std::string &to, const Seen &s) { o.layout.push_back(mc::fmt("%s gets message type %d of size %zu from %s", to.c_str(), (int) s.type, s.len, s.from.c_str())); };
  mc::require(w.cloud->seen.size() == cloudBefore + 1 && w.cloud->seen.back().type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST && w.cloud->seen.back().from == w.m[h]->id, "cloud-messages", "the cloud did not get exactly one request, from the helper");
  line("cloud", w.cloud->seen.back());
  for (size_t i = 0; i < w.m.size(); i++) {
    auto &s = w.m[i]->c->seen; size_t n = s.size() - before[i];
    if (i == r) {
      mc::require(n == 2 && q.held.size() == 2 && s[before[i]].type != s[before[i] + 1].type, "requester-messages", mc::fmt("the requester got %zu messages instead of the two answers", n));
      for (size_t j = before[i]; j < s.size(); j++) mc::require(s[j].from == (s[j].type == EOPSI_MESSAGE_OUTPUT_COMPUTATION ? w.cloud->getId() : w.m[h]->id), "requester-messages", "an answer from somebody else");
    } else mc::require(n == (i == h ? 1 : 0), i == h ? "helper-messages" : "bystander-messages", mc::fmt("%s got %zu messages", w.m[i]->id.c_str(), n));
    for (size_t j = before[i]; j < s.size(); j++) line(i == r ? "requester" : i == h ? "helper" : "bystander", s[j]);
  }
  const std::string &b = w.cloud->seen.back().bytes; size_t head = w.m[h]->id.size() + w.m[r]->id.size() + 2;
  mc::require(b.size() >= head + 16 && b.compare(0, head, w.m[h]->id + '\0' + w.m[r]->id + '\0') == 0, "request-format", "the cloud request does not hold the two names and a key");
  o.payload = b; o.key = b.substr(head, 16);
  for (auto &m : q.held) (m.getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION ? o.t : o.q) = text((vec_ZZ_p *) m.getData(), c);
  if (!finish) { for (auto &m : q.held) delete [] (vec_ZZ_p *) m.getData(); q.held.clear(); return o; } // finding the roots takes longest
  while (!q.held.empty()) q.deliver(0);
  checkExact(q.getIntersection(), common(*w.m[r], *w.m[h]), "the run observed");
  return o;
}
static std::unique_ptr<World> world(const Cfg &c, const std::vector<Elems> &sets, const std::vector<std::string> &names, const std::vector<std::string> &secrets, const std::map<ZZ, int> &where, int salt = 0) {
  std::unique_ptr<World> w(new World(c)); mc::env().randState = 88172645463325252ull + 977 * (uint64_t) salt;
  for (auto &x : where) w->place(x.first, x.second);
  for (size_t i = 0; i < sets.size(); i++) { w->add(names[i], secrets[i]); w->data(i, sets[i]); }
  w->acquaint(); for (size_t i = 0; i < sets.size(); i++) w->outsource(i);
  return w;
}
static Elems subset(const Elems &u, int mask) { Elems e; for (size_t i = 0; i < u.size(); i++) if (mask >> i & 1) e.push_back(u[i]); return e; }
static std::string diff(const View &a, const View &b) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { std::string x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing"; if (x != y) return "\"" + x + "\" became \"" + y + "\""; } return ""; }
static std::vector<Cfg> cfgs() {
  std::vector<Cfg> v; auto add = [&](long pb, bool low, size_t k, size_t h, size_t extra, size_t bits) { Cfg c; c.p = prime(pb, low); c.k = k; c.h = h; c.extra = extra; c.bits = bits; v.push_back(c); };
  add(64, true, 2, 3, 0, 8); add(113, true, 1, 3, 1, 32); add(160, false, 3, 2, 0, 64); if (mc::thorough()) { add(64, false, 5, 3, 2, 8); add(250, true, 2, 4, 0, 100); }
  return v;
}
/** The same run over every pair of sets: nothing that the cloud sees of the run, and nothing of the helper's answer, may change */
static void elements() {
  Cfg c = mc::among(cfgs()); ZZ top = NTL::power2_ZZ((long) c.bits) - 1; Elems u = {NTL::to_ZZ(0), NTL::to_ZZ(1), top, NTL::to_ZZ(2)};
  std::map<ZZ, int> where; int lay = mc::choose(2); for (size_t i = 0; i < u.size(); i++) where[u[i]] = lay ? (int) (i % c.k) : 0;
  int n = 16, a = 1 + mc::choose(n - 1), b = 1 + mc::choose(n - 1); auto fit = [&](int m) { std::vector<size_t> load(c.k, 0); for (size_t i = 0; i < u.size(); i++) if (m >> i & 1 && ++load[where[u[i]]] > c.h) return false; return true; };
  if (!fit(a) || !fit(b)) return;
  std::vector<std::string> names = {"Alice", "Bob"}, secrets = {"first secret", "other secret"}; int role = mc::choose(2);
  Run base = observe(*world(c, {subset(u, 1), subset(u, 1)}, names, secrets, where), role, 1 - role, 7), again = observe(*world(c, {subset(u, 1), subset(u, 1)}, names, secrets, where), role, 1 - role, 7);
  Run x = observe(*world(c, {subset(u, a), subset(u, b)}, names, secrets, where), role, 1 - role, 7);
  mc::note(c.show() + mc::fmt(" sets %d and %d instead of 1 and 1", a, b)); mc::state(mc::fmt("%s %d %d %d %d", c.show().c_str(), lay, a, b, role));
  mc::require(base.layout == x.layout, "messages-depend-on-elements", diff(base.layout, x.layout));
  if (base.payload != again.payload) { mc::outcome("the key is not reproducible"); return; } // no comparison possible
  mc::require(base.payload == x.payload, "request-depends-on-elements", "the helper's request to the cloud differs");
  if (base.q == again.q) mc::require(base.q == x.q, "helper-answer-depends-on-elements", "the helper's answer differs though key and secrets are the same");
  mc::outcome("elements");
}
/** The same run under other secrets and names: the key, and what is beside the names in the cloud request, may not change; nor may the cloud's answer to the same data */
static void secrets() {
  Cfg c = mc::among(cfgs()); static const std::vector<std::string> S = {"first secret", "x", std::string("\0\0\1", 3), "Topsy Kretts", std::string(40, '\xff'), std::string(500, 's')};
  static const std::vector<std::string> N = {"Alice", "Bob", "A", "a rather longer name than the others have"}; int s0 = mc::choose((int) S.size()), s1 = mc::choose((int) S.size()), n0 = mc::choose((int) N.size()), n1 = mc::choose((int) N.size()); if (n0 == n1 || s0 == s1) return;
  std::vector<Elems> e = {{NTL::to_ZZ(1), NTL::to_ZZ(2)}, {NTL::to_ZZ(2)}}; std::map<ZZ, int> where;
  Run base = observe(*world(c, e, {"Alice", "Bob"}, {S[0], S[3]}, where), 0, 1, 7), again = observe(*world(c, e, {"Alice", "Bob"}, {S[0], S[3]}, where), 0, 1, 7), x = observe(*world(c, e, {N[n0], N[n1]}, {S[s0], S[s1]}, where), 0, 1, 7);
  mc::note(c.show() + mc::fmt(" secrets %d, %d, names %s, %s", s0, s1, N[n0].c_str(), N[n1].c_str())); mc::state(c.show() + mc::fmt("%d %d %d %d", s0, s1, n0, n1));
  mc::require(x.payload.size() - N[n0].size() - N[n1].size() == base.payload.size() - 8, "request-size-depends", "the size of the cloud request depends on more than the lengths of the names");
  if (base.payload != again.payload) { mc::outcome("the key is not reproducible"); return; }
  mc::require(x.key == base.key, "key-depends-on-secrets", "the key depends on secrets or names"); mc::require(x.payload.substr(x.payload.size() - (base.payload.size() - 10)) == base.payload.substr(10), "request-depends-on-secrets", "what follows the names in the cloud request depends on secrets or names");
  mc::outcome("secrets");
}
/** Whatever happened before, and whoever else is there: both answers are functions of the key and the secrets, or the data */
static void histories() {
  Cfg c = cfgs()[mc::choose(2)]; std::vector<Elems> e = {{NTL::to_ZZ(1), NTL::to_ZZ(2)}, {NTL::to_ZZ(2)}, {NTL::to_ZZ(3), NTL::to_ZZ(1)}}; std::map<ZZ, int> where; const std::vector<std::string> N = {"Alice", "Bob", "Carol"}, S = {"first secret", "Topsy Kretts", "q"};
  auto fresh = world(c, e, N, S, where), control = world(c, e, N, S, where), used = world(c, e, N, S, where); int depth = mc::thorough() ? 4 : 3; std::string h;
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(9); h += (char) ('0' + o);
    static const int R[] = {0, 1, 2, 1, 0, 2}, H[] = {1, 0, 1, 2, 2, 0};
    if (o < 6) { used->request(R[o], H[o]); }
    else if (o == 6) used->outsource(0);
    else if (o == 7) { try { used->request(0, 1, requestBytes("Carol", S[2])); mc::fail("not-refused", ""); } catch (ProtocolException &) {} }
  }
  int probe = mc::choose(3); static const int PR[] = {0, 1, 2}, PH[] = {1, 0, 0};
  Run a = observe(*fresh, PR[probe], PH[probe], 11), b = observe(*control, PR[probe], PH[probe], 11), x = observe(*used, PR[probe], PH[probe], 11); mc::note(c.show() + " after " + h); mc::state(c.show() + h + (char) ('0' + probe));
  mc::require(a.layout == x.layout, "messages-depend-on-history", diff(a.layout, x.layout));
  if (a.payload != b.payload || a.t != b.t || a.q != b.q) { mc::outcome("not reproducible"); return; }
  mc::require(a.payload == x.payload, "request-depends-on-history", "the cloud request differs"); mc::require(a.q == x.q, "helper-answer-depends-on-history", "the helper's answer to the same key and secrets differs"); mc::require(a.t == x.t, "cloud-answer-depends-on-history", "the cloud's answer to the same key and data differs");
  mc::outcome("history");
}
/** However many others each of the three parties knows, of either kind (the helper knows one cloud only, for which of several it asks is its own business) */
static void company() {
  Cfg c = cfgs()[mc::choose(2)]; static const int N[] = {0, 1, 2, 3, 4, 7, 15, 16, 40, 300}; int more[3], kinds = mc::choose(3), most = mc::thorough() ? 10 : 7; for (int &m : more) m = N[mc::choose(most)]; std::vector<Elems> e = {{NTL::to_ZZ(1), NTL::to_ZZ(2)}, {NTL::to_ZZ(2)}}; std::map<ZZ, int> where;
  auto make = [&](std::vector<std::unique_ptr<EOPSIParty>> *others, HashBuckets<ZZ_p> *t) {
    auto w = world(c, e, {"Kate", "Lena"}, {"first", "other"}, where); if (!others) return w;
    EOPSIParty *p[3] = {w->m[0]->c.get(), w->m[1]->c.get(), w->cloud.get()};
    for (int i = 0; i < 40 || (mc::thorough() && i < 300); i++) { std::string id = (i % 2 ? "Zoe" : "Amy") + std::to_string(i); // before and after the others' names
      bool server = kinds == 1 ? i % 2 : kinds == 2;
      if (server) others->emplace_back(new EOPSIServer(c.p, c.k, c.h, c.degree(), id)); else others->emplace_back(new EOPSIClient(*t, c.p, c.k, c.h, c.degree(), id, NTL::to_ZZ(i + 5)));
      for (int k = 0; k < 3; k++) if (i < more[k] && !(server && k == 1)) p[k]->authenticate(*others->back()); }
    return w; };
  Placement none; std::vector<std::unique_ptr<EOPSIParty>> others; auto base = make(nullptr, nullptr), control = make(nullptr, nullptr); HashBuckets<ZZ_p> t(1, 1, &none); auto x = make(&others, &t);
  Run a = observe(*base, 0, 1, 7), b = observe(*control, 0, 1, 7), r = observe(*x, 0, 1, 7); std::string h = c.show() + mc::fmt(" %d %d %d others, kind %d", more[0], more[1], more[2], kinds); mc::note(h); mc::state(h);
  mc::require(a.layout == r.layout, "messages-depend-on-company", diff(a.layout, r.layout)); if (a.payload != b.payload || a.t != b.t || a.q != b.q) { mc::outcome("not reproducible"); return; }
  mc::require(a.payload == r.payload, "request-depends-on-company", h); mc::require(a.q == r.q, "helper-answer-depends-on-company", h); mc::require(a.t == r.t, "cloud-answer-depends-on-company", h);
  mc::outcome("company");
}
/** The cloud, asked directly: its answer depends on the key and the two data sets only, and on all of them */
static void cloud() {
  Cfg c = mc::among(cfgs()); std::map<ZZ, int> where; static const std::vector<std::string> keys = {std::string(16, '\x81'), std::string(15, '\0') + '\x80', std::string("\x01") + std::string(14, '\0') + '\x80', std::string(16, '\xff')};
  int ki = mc::choose((int) keys.size()), names = mc::choose(3), third = mc::choose(2), again = mc::choose(2); std::vector<std::vector<std::string>> N = {{"Alice", "Bob", "Carol"}, {"Bob", "Alice", "Carol"}, {"X", "a rather longer name than the others have", "Carol"}};
  auto ask = [&](World &w, const std::string &key) {
    std::string p = w.m[0]->id + '\0' + w.m[1]->id + '\0' + key + '\0'; byte *d = new byte[p.size()]; memcpy(d, p.data(), p.size()); EOPSIMessage m(d, p.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId(w.m[0]->id);
    Client &to = w.c(1); to.hold = true; size_t before = to.held.size(), own = w.c(0).seen.size(); w.c(0).send(*w.cloud, &m); mc::require(to.held.size() == before + 1 && w.c(0).seen.size() == own, "answer-addressee", "the answer did not go to the partner alone"); vec_ZZ_p *t = (vec_ZZ_p *) to.held.back().getData(); std::string s = text(t, c); delete [] t; to.held.pop_back(); to.hold = false; mc::ops(1); return s;
  };
  auto make = [&](int names, bool third) { std::vector<Elems> e = {{NTL::to_ZZ(1)}, {NTL::to_ZZ(2), NTL::to_ZZ(1)}}; if (third) e.push_back({NTL::to_ZZ(9)}); return world(c, e, N[names], {"s", "t", "u"}, where); };
  auto a = make(0, false), b = make(0, false), x = make(names, third); mc::note(c.show() + mc::fmt(" key %d names %d", ki, names)); mc::state(c.show() + mc::fmt("%d %d %d %d", ki, names, third, again));
  if (text(a->c(0).getBlindedData(), c) != text(b->c(0).getBlindedData(), c) || text(a->c(0).getBlindedData(), c) != text(x->c(0).getBlindedData(), c) || text(a->c(1).getBlindedData(), c) != text(x->c(1).getBlindedData(), c)) { mc::outcome("data not reproducible"); return; }
  std::string ta = ask(*a, keys[ki]); if (again) for (auto &k : keys) ask(*x, k);
  mc::require(ask(*x, keys[ki]) == ta, "cloud-answer-depends", "the cloud's answer to the same key and data depends on names, earlier answers or other clients");
  for (size_t k = 0; k < keys.size(); k++) if ((int) k != ki) mc::require(ask(*a, keys[k]) != ta, "key-unused", "another key, the same answer");
  mc::outcome("cloud");
}
/** No bit of the key is idle: each of them, switched, gives another answer, with another mask everywhere */
static void keyBits() {
  Cfg c = mc::among(cfgs()); std::map<ZZ, int> where; int base = mc::choose(mc::thorough() ? 4 : 2), bit = mc::choose(127); std::string k0 = base == 0 ? std::string(16, '\x81') : base == 1 ? std::string(16, '\xff') : base == 2 ? std::string(15, '\0') + '\x80' : std::string("\1\2\3\4\5\6\7\10\11\12\13\14\15\16\17\x90"), k1 = k0; k1[bit / 8] = (char) (k1[bit / 8] ^ (1 << bit % 8)); // the top bit is always set
  auto w = world(c, {{NTL::to_ZZ(1)}, {NTL::to_ZZ(2)}}, {"Alice", "Bob"}, {"s", "t"}, where); vec_ZZ_p *got[2]; int n = 0;
  for (auto &key : {k0, k1}) { std::string p = w->m[0]->id + '\0' + w->m[1]->id + '\0' + key + '\0'; byte *d = new byte[p.size()]; memcpy(d, p.data(), p.size()); EOPSIMessage m(d, p.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId(w->m[0]->id); Client &to = w->c(1); to.hold = true; w->c(0).send(*w->cloud, &m); mc::require(to.held.size() == 1, "answer-addressee", "no answer"); got[n++] = (vec_ZZ_p *) to.held.back().getData(); to.held.pop_back(); mc::ops(1); }
  mc::note(c.show() + mc::fmt(" key %d bit %d", base, bit)); mc::state(c.show() + mc::fmt("%d %d", base, bit));
  for (size_t j = 0; j < c.k; j++) { mc::require((size_t) got[0][j].length() == c.degree() && (size_t) got[1][j].length() == c.degree(), "shape", "a vector of another length"); for (size_t i = 0; i < c.degree(); i++) if (got[0][j][i] == got[1][j][i]) mc::fail("key-unused", mc::fmt("keys differing in bit %d give the same value at [%zu][%zu]", bit, j, i)); }
  delete [] got[0]; delete [] got[1]; mc::outcome("key bits");
}
/** Sets of very different sizes, in tables of the same shape */
static void sizes() {
  Cfg c; c.p = prime(113); c.k = mc::among(std::vector<size_t>{1, 8, 40}); c.h = c.k == 1 ? 40 : c.k == 8 ? 16 : 8; c.bits = 32; std::map<ZZ, int> where; static const int N[] = {1, 2, 5, 16, 17, 40}; int a = mc::choose(6), b = mc::choose(6); bool spread = c.k == 1 || mc::choose(2);
  for (int i = 0; i < 80; i++) where[NTL::to_ZZ(1000 * i)] = spread ? i % (int) c.k : i / (int) c.h % (int) c.k;
  auto set = [&](int n, int from) { Elems e; for (int i = 0; i < n; i++) e.push_back(NTL::to_ZZ(1000 * (from + i))); return e; };
  auto run = [&](int x, int y) { return observe(*world(c, {set(x, 0), set(y, 20)}, {"Alice", "Bob"}, {"first", "other"}, where), 0, 1, 7, x + y < 12); };
  Run base = run(1, 1), again = run(1, 1), r = run(N[a], N[b]); mc::note(c.show() + mc::fmt(" %d and %d elements", N[a], N[b])); mc::state(c.show() + mc::fmt("%d %d %d", a, b, spread));
  mc::require(base.layout == r.layout, "messages-depend-on-elements", diff(base.layout, r.layout)); if (base.payload != again.payload) { mc::outcome("the key is not reproducible"); return; }
  mc::require(base.payload == r.payload, "request-depends-on-elements", "the helper's request to the cloud differs"); if (base.q == again.q) mc::require(base.q == r.q, "helper-answer-depends-on-elements", "the helper's answer differs though key and secrets are the same");
  mc::outcome("sizes");
}
/** Sets beyond the counts of one and two bytes */
static void crowds() {
  struct S { size_t k, h; int n; }; S s = mc::among(mc::thorough() ? std::vector<S>{{8, 200, 300}, {40, 40, 1200}, {3, 100, 257}, {2000, 60, 70000}} : std::vector<S>{{8, 200, 300}, {40, 40, 1200}, {3, 100, 257}}); int who = mc::choose(3); Cfg c; c.p = prime(113); c.k = s.k; c.h = s.h; c.bits = 32; std::map<ZZ, int> where; for (int i = 0; i < s.n; i++) where[NTL::to_ZZ(1000 * i)] = i % (int) c.k;
  auto set = [&](int n) { Elems e; for (int i = 0; i < n; i++) e.push_back(NTL::to_ZZ(1000 * i)); return e; };
  auto run = [&](int x, int y) { return observe(*world(c, {set(x), set(y)}, {"Alice", "Bob"}, {"first", "other"}, where), 0, 1, 7, false); };
  Run base = run(1, 1), again = run(1, 1), r = run(who == 1 ? 1 : s.n, who == 0 ? 1 : s.n); mc::note(c.show() + mc::fmt(" %d elements, %d", s.n, who)); mc::state(c.show() + mc::fmt("crowd %d %d", s.n, who));
  mc::require(base.layout == r.layout, "messages-depend-on-elements", diff(base.layout, r.layout)); if (base.payload != again.payload) { mc::outcome("the key is not reproducible"); return; }
  mc::require(base.payload == r.payload, "request-depends-on-elements", "the helper's request to the cloud differs"); if (base.q == again.q) mc::require(base.q == r.q, "helper-answer-depends-on-elements", "the helper's answer differs though key and secrets are the same"); mc::outcome("crowds");
}
/** Several clouds that all know everybody and hold everybody's data: still one is asked, once, and answers */
static void clouds() {
  Cfg c = cfgs()[mc::choose(2)]; static const char *N[] = {"Amy", "Cloud2", "Kit", "Zoe"}; int mask = mc::choose(16), order = mc::choose(2), runs = 1 + mc::choose(2), role = mc::choose(2); std::vector<Elems> e = {{NTL::to_ZZ(1), NTL::to_ZZ(2)}, {NTL::to_ZZ(2)}, {NTL::to_ZZ(1)}}; std::map<ZZ, int> where;
  std::vector<std::unique_ptr<Server>> more; World w(c); for (int i = 0; i < 3; i++) { static const char *M[] = {"Bob", "Lena", "Rob"}; w.add(M[i], M[i]); w.data(i, e[i]); } if (order) w.acquaint();
  for (int i = 0; i < 4; i++) if (mask >> i & 1) { more.emplace_back(new Server(c, N[i])); for (auto &m : w.m) { m->c->authenticate(*more.back()); more.back()->authenticate(*m->c); } } if (!order) w.acquaint();
  std::vector<Server *> all = {w.cloud.get()}; for (auto &s : more) all.push_back(s.get());
  for (size_t i = 0; i < 3; i++) { w.outsource(i); for (auto &s : more) { EOPSIMessage x = w.m[i]->store; w.c(i).send(*s, &x); } }
  std::string h = c.show() + mc::fmt(" other clouds %d order %d", mask, order); mc::note(h); mc::state(h + mc::fmt(" %d %d", runs, role));
  for (int run = 0; run < runs; run++) {
    size_t r = run ? 2 : role, q = run ? role : 1 - role; std::vector<size_t> before, cb; for (auto &m : w.m) before.push_back(m->c->seen.size()); for (auto *s : all) cb.push_back(s->seen.size());
    w.request(r, q); std::string id; size_t total = 0; for (size_t i = 0; i < all.size(); i++) { size_t n = all[i]->seen.size() - cb[i]; total += n; if (n) { id = all[i]->getId(); mc::require(all[i]->seen.back().type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST && all[i]->seen.back().from == w.m[q]->id, "cloud-messages", h); } }
    mc::require(total == 1, "cloud-messages", h + mc::fmt(": the clouds got %zu messages", total));
    for (size_t i = 0; i < 3; i++) { size_t n = w.c(i).seen.size() - before[i], want = i == r ? 2 : i == q; mc::require(n == want, i == r ? "requester-messages" : i == q ? "helper-messages" : "bystander-messages", h + mc::fmt(": %s got %zu messages", w.m[i]->id.c_str(), n)); for (size_t j = before[i]; j < w.c(i).seen.size(); j++) if (w.c(i).seen[j].type == EOPSI_MESSAGE_OUTPUT_COMPUTATION) mc::require(w.c(i).seen[j].from == id, "requester-messages", h + ": an answer from a cloud that was not asked"); }
    checkExact(w.c(r).getIntersection(), common(*w.m[r], *w.m[q]), h);
  }
  mc::outcome("clouds");
}
/** The keys of a helper, one after another: the same under every secret, name and set */
static void keyStream() {
  Cfg c; c.k = 1; c.h = 2; c.p = prime(64); std::map<ZZ, int> where; int what = mc::choose(4), v = mc::choose(mc::thorough() ? 256 : 64); const int N = 24;
  auto keys = [&](const std::string &id, const std::string &secret, const std::string &other, const std::string &otherId, long e, long seed) { auto w = world(c, {{NTL::to_ZZ(1)}, {NTL::to_ZZ(e)}}, {otherId, id}, {other, secret}, where); View k; NTL::SetSeed(NTL::to_ZZ(seed)); mc::env().randState = 4711; Client &q = w->c(0); q.hold = true; /* root finding draws random numbers according to the intersection */ for (int i = 0; i < N; i++) { w->request(0, 1); for (auto &m : q.held) delete [] (vec_ZZ_p *) m.getData(); q.held.clear(); const std::string &b = w->cloud->seen.back().bytes; k.push_back(b.substr(id.size() + otherId.size() + 2, 16)); } return k; };
  std::string x = std::string(1, (char) (v + 1)) + "x" + (char) (v * 37); View base = keys("Bob", "base", "one", "Alice", 2, 5), again = keys("Bob", "base", "one", "Alice", 2, 5); if (base != again) { mc::outcome("the key is not reproducible"); return; }
  View k = what == 0 ? keys("Bob", x, "one", "Alice", 2, 5) : what == 1 ? keys("Bob", "base", x, "Alice", 2, 5) : what == 2 ? keys(mc::fmt("Bob%d", v), "base", "one", mc::fmt("%dAlice", v % 7), 2, 5) : keys("Bob", "base", "one", "Alice", v * 4 + 3, 5);
  static const char *W[] = {"the helper's secret", "the requester's secret", "the names", "the helper's element"}; mc::note(mc::fmt("%s, number %d", W[what], v)); mc::state(mc::fmt("stream %d %d", what, v));
  for (int i = 0; i < N; i++) mc::require(k[i] == base[i], "key-depends-on-secrets", mc::fmt("key %d of %d depends on %s", i, N, W[what])); mc::outcome("keys");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C23");
  s.add("elements", "every pair of non-empty subsets of 4 elements, in two layouts, both roles, 3 (thorough 5) configurations: the run compared with that over the smallest sets", elements);
  s.add("sizes", "every pair of 6 sizes from 1 to 40 elements, spread or crowded, in tables of 1, 8 and 40 buckets", sizes);
  s.add("crowds", "257 to 1200 (thorough 70000) elements of either or both, compared with one", crowds);
  s.add("secrets", "every pair of 6 secrets and 4 names: the run compared with that under others", secrets);
  s.add("histories", "every sequence of 3 (thorough 4) runs, outsourcings and refused requests among three clients, then a run compared with that of a fresh system", histories);
  s.add("company", "requester, helper and cloud each know 0 to 15 (thorough 300) others, clients, servers or both: all combinations of 7 (10) numbers", company);
  s.add("clouds", "every subset of 4 further clouds with names before and after the others', all knowing everybody and holding everybody's data, one or two runs", clouds);
  s.add("cloud", "the cloud asked directly: 4 keys, 3 pairs of names, with and without other clients and earlier answers", cloud);
  s.add("keyStream", "24 keys one after another, the same under 64 (thorough 256) secrets of either side, names and elements", keyStream);
  s.add("keyBits", "every bit of the cloud's key but the top one, about 2 (thorough 4) keys: no value of the answer stays", keyBits);
  s.add("reusedHistories", "`histories` again where memory is handed out again at once", histories);
  return s.main(argc, argv);
}
