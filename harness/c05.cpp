/* C05: bad requests are refused without damage. */
#include "psi.hpp"
using namespace psi;

static Elems el(std::initializer_list<long> l) { Elems e; for (long x : l) e.push_back(NTL::to_ZZ(x)); return e; }
/** Alice, Bob and the cloud know each other. Dave's data was never outsourced; Carol's was, but the cloud does not know her any more than Eve. Lone knows no cloud. */
struct Stage {
  Cfg c; World w;
  Stage() : w(cfg()) {
    c = cfg();
    w.add("Alice", std::string("\0\0\x02", 3)); w.add("Bob", "Topsy Kretts"); w.add("Dave", "\x07"); w.add("Eve", "zz"); w.add("Lone", "l");
    for (long e : {0, 1, 2, 5, 7, 9}) w.place(NTL::to_ZZ(e), (int) (e % c.k));
    w.data(0, el({0, 1, 5})); w.data(1, el({1, 5, 7})); w.data(2, el({0, 2, 9})); w.data(3, el({1, 7})); w.data(4, el({0, 1}));
    for (int i = 0; i < 5; i++) { if (i != 3) w.cloud->authenticate(w.c(i)); if (i != 4) w.c(i).authenticate(*w.cloud); for (int j = 0; j < 5; j++) w.c(i).authenticate(w.c(j)); }
  }
  static Cfg cfg() { Cfg c; c.h = 3; return c; }
  std::vector<vec_ZZ> learnt() { std::vector<vec_ZZ> l; for (int i = 0; i < 5; i++) l.push_back(w.c(i).getIntersection()); return l; }
  /** answers handed to anybody so far */
  size_t answers() { size_t n = 0; for (int i = 0; i < 5; i++) for (auto &s : w.c(i).seen) n += s.type == EOPSI_MESSAGE_OUTPUT_COMPUTATION || s.type == EOPSI_MESSAGE_POLYNOMIAL; return n; }
  size_t asked() { size_t n = 0; for (auto &s : w.cloud->seen) n += s.type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST; return n; }
};
static std::string cloudRequest(const std::string &own, const std::string &partner) { return own + '\0' + partner + '\0' + std::string(15, '\x11') + '\x80' + '\0'; }
static std::string requestTail(const std::string &s) { return '\0' + s + '\0'; }
/** A request of that kind sent by s to the cloud (s: index of the client) */
struct Bad { const char *what; int from; bool toCloud; EOPSIMessageType type; std::string data; bool null; int early; };
static const EOPSIMessageType RQ = EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, CQ = EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, OD = EOPSI_MESSAGE_OUTSOURCING_DATA;
static const std::string &longName() { static const std::string n(3000, 'n'); return n; }
static const std::vector<Bad> &bads() {
  static std::vector<Bad> b;
  if (b.empty()) {
    struct N { const char *what, *own, *partner; int early; };  // early: bad only before the outsourcing
    for (N n : {N{"unknown partner", "Bob", "Nobody", 0}, N{"empty partner", "Bob", "", 0}, N{"prefix of a partner", "Bob", "Alic", 0}, N{"partner with a suffix", "Bob", "Alicee", 0}, N{"partner in other case", "Bob", "alice", 0}, N{"unauthenticated partner", "Bob", "Eve", 0}, N{"the cloud as partner", "Bob", "Cloud", 0},
                N{"partner without data", "Bob", "Dave", 0}, N{"another's identity", "Alice", "Bob", 0}, N{"an unknown identity", "Nobody", "Alice", 0}, N{"an empty identity", "", "Alice", 0}, N{"a prefix of its identity", "Bo", "Alice", 0}, N{"its identity with a suffix", "Bobb", "Alice", 0}, N{"its identity in other case", "bob", "Alice", 0}, N{"the cloud's identity", "Cloud", "Alice", 0},
                N{"a long partner", "Bob", longName().c_str(), 0}, N{"a long identity", longName().c_str(), "Alice", 0}, N{"two long names", longName().c_str(), longName().c_str(), 0}, N{"a partner beginning with a space", "Bob", " Alice", 0}, N{"nothing outsourced yet", "Bob", "Alice", 1}})
      b.push_back({n.what, 1, true, CQ, cloudRequest(n.own, n.partner), false, n.early});
    b.push_back({"requester without data", 2, true, CQ, cloudRequest("Dave", "Alice"), false, 0});
    b.push_back({"both without data", 2, true, CQ, cloudRequest("Dave", "Dave"), false, 0});
    b.push_back({"no payload", 1, true, CQ, "", true, 0});
    b.push_back({"no payload in the outsourcing", 2, true, OD, "", true, 0});
    Cfg c = Stage::cfg(); for (size_t n : {(size_t) 0, c.k, c.degree(), c.degree() * c.k - 1, c.degree() * c.k + 1, 2 * c.degree() * c.k}) b.push_back({"outsourced data of another size", 1, true, OD, std::string(n, 'x'), false, 0});
    for (const char *n : {"Alice", "Nobody", "", "Bo", "Bobb", "bob", "Cloud", "Dave"}) b.push_back({"a client request in another's name", 1, false, RQ, std::string(n) + requestTail("Topsy Kretts"), false, 0});
    b.push_back({"a client request without payload", 1, false, RQ, "", true, 0});
    b.push_back({"a helper's answer without payload", 1, false, EOPSI_MESSAGE_POLYNOMIAL, "", true, 0});
    b.push_back({"a cloud's answer without payload", -1, false, EOPSI_MESSAGE_OUTPUT_COMPUTATION, "", true, 0});
  }
  return b;
}
static std::string show(const Bad &b) { std::string s; for (char c : b.data) s += c > 31 && c < 127 ? c : '.'; return mc::fmt("%s: %s to %s, %zu bytes \"%s\"", b.what, b.from == 1 ? "Bob" : b.from < 0 ? "Cloud" : "Dave", b.toCloud ? "the cloud" : "Alice", b.data.size(), s.substr(0, 60).c_str()); }
static void sendBad(Stage &st, const Bad &b) {
  World &w = st.w; size_t before = st.answers() + (b.type == EOPSI_MESSAGE_POLYNOMIAL || b.type == EOPSI_MESSAGE_OUTPUT_COMPUTATION); std::vector<vec_ZZ> l = st.learnt(); size_t asked = st.asked() + (b.toCloud && b.type == CQ);
  // on the heap, as the protocol demands of cloud requests; whoever refuses it may or may not release it
  byte *d = nullptr; if (!b.null) { d = new byte[b.data.size()]; memcpy(d, b.data.data(), b.data.size()); }
  EOPSIMessage *m = new EOPSIMessage(d, b.data.size(), b.type); EOPSIParty &from = b.from < 0 ? (EOPSIParty &) *w.cloud : (EOPSIParty &) w.c(b.from); m->setPartyId(from.getId());
  mc::op(show(b)); bool ok = false;
  try { from.send(b.toCloud ? (EOPSIParty &) *w.cloud : (EOPSIParty &) w.c(0), m); ok = true; } catch (ProtocolException &e) { }
  mc::require(!ok, "not-refused", show(b));
  mc::require(st.answers() == before, "answered", show(b)); mc::require(st.asked() == asked, "answered", "the cloud was asked to answer: " + show(b));
  mc::require(st.learnt() == l, "learnt-changed", show(b)); mc::outcome("refused");
}
static void good(Stage &st, int r, int h) { st.w.request(r, h); checkExact(st.w.c(r).getIntersection(), common(*st.w.m[r], *st.w.m[h]), st.w.m[r]->id); mc::outcome("served"); }
/** One or two bad requests at every pair of points of a legitimate history */
static void damage(int count) {
  Stage st; World &w = st.w; int a = mc::choose((int) bads().size()), at = mc::choose(5), b = count > 1 ? mc::choose((int) bads().size()) : -1, bt = count > 1 ? at + mc::choose(5 - at) : -1;   // the other order of points is another pair
 
  auto here = [&](int p) { for (int k = 0; k < 2; k++) { int x = k ? b : a; if (x >= 0 && p == (k ? bt : at) && (!bads()[x].early || p == 0)) sendBad(st, bads()[x]); } };
  here(0); w.outsource(0); w.outsource(1); here(1);
  w.c(0).hold = true; w.request(0, 1); w.c(0).hold = false; mc::require(w.c(0).held.size() == 2, "half-missing", "a correct request was not answered twice");
  here(2); w.c(0).deliver(1); here(3); w.c(0).deliver(0);
  checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "Alice");
  here(4); good(st, 1, 0); good(st, 0, 1);
  mc::state(mc::fmt("%d %d %d %d", a, at, b, bt));
}
/** Requests by clients whose helper is refused by the cloud: an error or an orderly exit, and nobody is answered */
static void helperRefused() {
  struct Case { const char *what; int r, h; bool outsourced; };
  static const std::vector<Case> cs = {{"the requester's data is missing", 2, 0, true}, {"the helper's data is missing", 0, 2, true}, {"both are missing", 0, 1, false}, {"the requester is unknown to the cloud", 3, 0, true}, {"the helper is unknown to the cloud", 0, 3, true}, {"the helper knows no cloud", 0, 4, true}};
  int k = mc::choose((int) cs.size()), runs = mc::choose(3); const Case &c = cs[k]; mc::op(c.what);
  mc::Outcome o = mc::isolate([&]() -> std::string {
    mc::CaptureOut quiet; Stage st; World &w = st.w;
    if (c.outsourced) { w.outsource(0); w.outsource(1); for (int i = 0; i < runs; i++) good(st, i % 2, 1 - i % 2); }
    // an exit reports whether anybody was given an answer or learnt something
    static Stage *S; static size_t n; static std::vector<vec_ZZ> l; S = &st; n = st.answers(); l = st.learnt();
    atexit([] { if (S->answers() != n || S->learnt() != l) { fprintf(stderr, "ANSWERED\n"); _exit(99); } });
    try { w.request(c.r, c.h); } catch (ProtocolException &) {
      if (st.answers() != n || st.learnt() != l) return "answered";
      w.outsource(0); w.outsource(1); good(st, 0, 1); good(st, 1, 0); return "refused";
    }
    return st.answers() != n ? "answered" : "silent";
  });
  mc::require(o.orderly(), "crash", std::string(c.what) + ": " + o.show() + o.err.substr(0, 600));
  mc::require(o.kind != mc::Outcome::EXITED || o.code != 99, "answered", c.what);
  mc::require(o.kind != mc::Outcome::EXITED || o.code != 0, "exit-success", std::string(c.what) + ": the helper's failure ends the program successfully");
  mc::require(o.kind != mc::Outcome::RETURNED || o.text == "refused", "not-refused", std::string(c.what) + ": " + o.text);
  mc::require(o.kind != mc::Outcome::THREW, "wrong-error", o.show());
  mc::outcome(o.kind == mc::Outcome::EXITED ? "exit" : "refused"); mc::state(mc::fmt("h%d %d", k, runs));
}
/** Payloads cut short or with something in excess, in exactly sized blocks: refused, or what is there is used - never more */
static void cut() {
  Stage st; World &w = st.w; w.outsource(0); w.outsource(1); int to = mc::choose(3);   // 0: a client request; 1, 2: cloud requests
  std::string full = to == 0 ? requestBytes("Bob", "Topsy Kretts") : cloudRequest("Bob", to == 1 ? "Alice" : "Dave"); size_t n = 1 + mc::choose((int) full.size() - 1); std::string d = full.substr(0, n);
  int end = mc::choose(3); if (end == 1) d[n - 1] = '\xff'; else if (end == 2) d[n - 1] = 0;       // what the cut leaves at the end
  byte *x = new byte[n]; memcpy(x, d.data(), n); EOPSIMessage m(x, n, to ? CQ : RQ); m.setPartyId("Bob"); mc::op(mc::fmt("the first %zu of %zu bytes of a %s request", n, full.size(), to ? "cloud" : "client"));
  size_t before = st.answers(); w.c(0).hold = w.c(1).hold = true; bool ok = false; try { w.c(1).send(to ? (EOPSIParty &) *w.cloud : (EOPSIParty &) w.c(0), &m); ok = true; } catch (ProtocolException &) {}
  // too short to hold everything: the name and a secret's end; both names and a key
  if (to == 0 ? n < 5 : to == 2 || n < 4 + 6 + 16) { mc::require(!ok, "not-refused", mc::fmt("%zu bytes of a request", n)); mc::require(st.answers() == before, "answered", mc::fmt("%zu bytes of a request", n)); }
  for (int i = 0; i < 2; i++) { w.c(i).held.clear(); w.c(i).hold = false; } if (!ok || !to) delete[] x;
  good(st, 0, 1); good(st, 1, 0); mc::state(mc::fmt("cut %d %zu %d", to, n, end)); mc::outcome(ok ? "used" : "refused");
}
/** Very many bad requests before, between and after good ones */
static void many() {
  Stage st; World &w = st.w; w.outsource(0); w.outsource(1); int step = 1 + mc::choose(3), n = 0; good(st, 0, 1);
  for (int r = 0; r < (mc::thorough() ? 40 : 6); r++) for (size_t i = 0; i < bads().size(); i += step) { if (!bads()[i].early) { sendBad(st, bads()[i]); n++; } if (n % 25 == 24) good(st, n % 2, 1 - n % 2); }
  good(st, 1, 0); good(st, 0, 1); mc::state(mc::fmt("many %d", step));
}
/** One kind of bad request over and over */
static void hammer() {
  Stage st; World &w = st.w; w.outsource(0); w.outsource(1); good(st, 0, 1); int kind = mc::choose((int) bads().size()), n = mc::thorough() ? 10000 : 1100; if (bads()[kind].early) return;
  for (int i = 0; i < n; i++) { sendBad(st, bads()[kind]); if ((i & (i + 1)) == 0 && i > 100) good(st, i % 2, 1 - i % 2); }
  good(st, 1, 0); w.outsource(0); good(st, 0, 1); mc::state(mc::fmt("hammer %d", kind)); mc::outcome("survived");
}
/** A partner or a claimed identity that differs from a known name in one place, every place, for names of many lengths */
static void misspelt() {
  Cfg c = Stage::cfg(); World w(c); size_t len = mc::among(std::vector<size_t>{1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600}); int content = mc::choose(3), target = mc::choose(3), way = mc::choose(6);
  std::string names[2]; for (int k = 0; k < 2; k++) for (size_t i = 0; i < len; i++) names[k] += content == 0 ? (char) ('a' + (i * 7 + (i / 26) + (i + 1 == len ? 13 * k : 0)) % 26) : content == 1 ? (i + 1 == len ? (char) ('x' + k) : 'x') : (char) ((i == 0 ? "AB"[k] : "0123456789. "[i % 12]));
  if (names[0] == names[1]) return;
  w.add(names[0], "first"); w.add(names[1], "second"); w.acquaint(); for (long e : {0, 1, 2, 5}) w.place(NTL::to_ZZ(e), (int) (e % c.k)); w.data(0, el({0, 1, 5})); w.data(1, el({1, 2, 5})); w.outsource(0); w.outsource(1); const std::string &name = names[target == 0 ? 0 : 1];
  auto answers = [&] { return w.c(0).seen.size() + w.c(1).seen.size() - (target == 2 ? w.c(0).seen.size() : 0); };
  w.request(0, 1); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), "before");
  for (size_t i = 0; i <= len; i++) {
    std::string x = name; if (i == len && way != 3) break;
    switch (way) { case 0: x[i] = (char) (x[i] ^ 1); break; case 1: x[i] = (char) (x[i] ^ 0x80); break; case 2: x.erase(i, 1); break; case 3: x.insert(i, 1, i < len ? x[i] : '!'); break; case 4: x = x.substr(0, i); break; case 5: x[i] = (char) (isalpha((unsigned char) x[i]) ? x[i] ^ 0x20 : x[i] + 1); break; }
    if (x == names[0] || x == names[1]) { if (target || x == name) continue; } if (target == 0 && x == names[1]) continue;
    std::string d = target == 0 ? cloudRequest(names[1], x) : target == 1 ? cloudRequest(x, names[0]) : x + requestTail("second"); byte *b = new byte[d.size()]; memcpy(b, d.data(), d.size()); EOPSIMessage m(b, d.size(), target == 2 ? RQ : CQ); m.setPartyId(names[1]);
    size_t before = answers(), asked = w.cloud->seen.size(); bool ok = false; try { w.c(1).send(target == 2 ? (EOPSIParty &) w.c(0) : (EOPSIParty &) *w.cloud, &m); ok = true; } catch (ProtocolException &) { } mc::ops(1);
    std::string what = mc::fmt("a name of %zu characters (kind %d) altered at place %zu (way %d) as %s", len, content, i, way, target == 0 ? "partner" : target == 1 ? "identity before the cloud" : "identity before the helper");
    mc::require(!ok, "not-refused", what); mc::require(answers() == before && (target < 2 || w.cloud->seen.size() == asked), "answered", what); delete[] b;
  }
  w.request(1, 0); checkExact(w.c(1).getIntersection(), common(*w.m[0], *w.m[1]), "afterwards"); mc::note(mc::fmt("%zu characters of kind %d, target %d, way %d", len, content, target, way)); mc::state(mc::fmt("m%zu %d %d %d", len, content, target, way)); mc::outcome("refused");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C05");
  s.add("damage", "41 kinds of bad requests at each of 5 points of a history of three runs", [] { damage(1); });
  s.add("pairs", "all ordered pairs of bad requests at all pairs of points, the first not after the second", [] { damage(2); });
  s.add("helper", "helpers refused by the cloud after 0-2 good runs: error or orderly exit, nobody answered", helperRefused);
  s.add("cut", "every proper prefix of the payload of a client request and of two cloud requests, with three last bytes", cut);
  s.add("misspelt", "names of 27 lengths to 600 and 3 kinds, altered in every single place in 6 ways, as partner and as claimed identity before cloud and helper", misspelt);
  s.add("hammer", "each kind 1100 (thorough 10000) times over, then good requests", hammer);
  s.add("many", "every third, second and single kind 6 (thorough 40) times over, with good requests between", many);
  s.add("reusedDamage", "`damage` again where memory is handed out again at once", [] { damage(1); });
  return s.main(argc, argv);
}
