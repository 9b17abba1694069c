/* C06: the cloud computes on each client's latest outsourced data. */
#include "psi.hpp"
using namespace psi;

static Elems el(std::initializer_list<long> l) { Elems e; for (long x : l) e.push_back(NTL::to_ZZ(x)); return e; }
typedef std::vector<std::vector<ZZ_p>> Raw;
static Raw copy(const vec_ZZ_p *d, size_t k) { Raw r(k); for (size_t j = 0; j < k; j++) for (long i = 0; i < d[j].length(); i++) r[j].push_back(d[j][i]); return r; }
static const char *names[] = {"Alice", "Bob", "Carol"};
static const std::string secrets[] = {std::string("\0\0\x02", 3), "Topsy Kretts", "\x07"};

/** n clients with v versions of their data each; what a client's message object is used for after it was sent is up to envelope */
static void stores(int n, int versions, int depth, int envelope, const Cfg &c) {
  static const Elems sets[3][3] = {{el({0, 1, 5}), el({2, 7}), el({9})}, {el({1, 5, 7}), el({0, 2}), el({9, 5, 0})}, {el({0, 9, 7}), el({1, 2, 5}), el({3})}};
  std::vector<std::unique_ptr<World>> keep; World w(c);
  auto placeAll = [&](World &x) { for (long e : {0, 1, 2, 3, 5, 7, 9}) x.place(NTL::to_ZZ(e), (int) (e % c.k)); };
  placeAll(w);
  for (int i = 0; i < n; i++) { w.add(names[i], secrets[i]); w.data(i, sets[i][0]); }
  w.acquaint();
  std::vector<std::vector<vec_ZZ_p *>> data(n); std::vector<std::vector<Raw>> orig(n); std::vector<std::vector<Elems>> own(n);
  for (int i = 0; i < n; i++) for (int v = 0; v < versions; v++) {
    vec_ZZ_p *d; 
    if (v == 0) d = w.c(i).getBlindedData();
    else { keep.emplace_back(new World(c)); World &x = *keep.back(); placeAll(x); x.add(names[i], secrets[i]); x.data(0, sets[i][v]); d = x.c(0).getBlindedData(); }
    data[i].push_back(d); orig[i].push_back(copy(d, c.k)); own[i].push_back(sets[i][v]);
  }
  std::vector<std::unique_ptr<EOPSIMessage>> msgs; std::vector<EOPSIMessage> mine(n);
  int stored[3] = {-1, -1, -1}; Set learnt[3]; std::string h;
  for (int d = 0; d < depth; d++) {
    struct O { int a, b; bool run; }; std::vector<O> os;
    for (int i = 0; i < n; i++) for (int v = 0; v < versions; v++) os.push_back({i, v, false});
    for (int r = 0; r < n; r++) for (int x = 0; x < n; x++) if (r != x && stored[r] >= 0 && stored[x] >= 0) os.push_back({r, x, true});
    O o = os[mc::choose((int) os.size())]; std::string what;
    if (!o.run) {
      what = mc::fmt("%s outsources version %d", names[o.a], o.b); mc::op(what);
      EOPSIMessage *m;
      if (envelope == 0) { msgs.emplace_back(new EOPSIMessage()); m = msgs.back().get(); }
      else if (envelope == 1) m = new EOPSIMessage();
      else m = &mine[o.a];
      m->setType(EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(names[o.a]); m->setData(data[o.a][o.b], c.degree() * c.k);
      w.c(o.a).send(*w.cloud, m);
      if (envelope == 1) delete m;
      if (envelope == 2) { m->setData(nullptr); m->setType(EOPSI_MESSAGE_UNKNOWN); m->setPartyId("gone"); }
      stored[o.a] = o.b; mc::outcome("stored");
    } else {
      what = mc::fmt("%s asks %s", names[o.a], names[o.b]);
      w.request(o.a, o.b); const Elems &x = own[o.a][stored[o.a]], &y = own[o.b][stored[o.b]]; Set sx(x.begin(), x.end()), sy(y.begin(), y.end()); learnt[o.a].clear();
      std::set_intersection(sx.begin(), sx.end(), sy.begin(), sy.end(), std::inserter(learnt[o.a], learnt[o.a].begin())); mc::outcome("run");
    }
    for (int i = 0; i < n; i++) checkExact(w.c(i).getIntersection(), learnt[i], what + ": " + names[i]);
    for (int i = 0; i < n; i++) for (int v = 0; v < versions; v++) mc::require(copy(data[i][v], c.k) == orig[i][v], "data-altered", mc::fmt("%s: version %d of %s's data", what.c_str(), v, names[i]));
    h += mc::fmt("%d%d%d ", o.a, o.b, (int) o.run); mc::state(mc::fmt("%d %d %d ", n, versions, envelope) + h);
  }
}
/** Many clients, many stores: fixed schedules in which every client replaces its data again and again, and runs of all kinds in between */
static void crowd() {
  int n = mc::among(mc::thorough() ? std::vector<int>{2, 7, 20, 70} : std::vector<int>{2, 7, 20}), stride = 1 + mc::choose(4), rounds = (mc::thorough() ? 1200 : 260); const int V = 3;
  Cfg c; c.h = 3; World w(c); std::vector<std::unique_ptr<World>> keep; auto placeAll = [&](World &x) { for (long e = 0; e < 256; e++) x.place(NTL::to_ZZ(e), (int) (e % c.k)); }; placeAll(w);
  auto setOf = [](int i, int v) { return el({(long) v * 2, 1 + 2 * ((i + v) % 4), 20 + i + 100 * (v % 2)}); };
  std::vector<std::vector<vec_ZZ_p *>> data(n); std::vector<std::vector<Raw>> orig(n); std::vector<int> stored(n, -1); std::vector<Set> learnt(n);
  for (int i = 0; i < n; i++) {
    std::string id = mc::fmt("client %d", i), sec = mc::fmt("%d", i + 3); w.add(id, sec); w.data(i, setOf(i, 0));
    for (int v = 0; v < V; v++) { vec_ZZ_p *d; if (!v) d = w.c(i).getBlindedData(); else { keep.emplace_back(new World(c)); World &x = *keep.back(); placeAll(x); x.add(id, sec); x.data(0, setOf(i, v)); d = x.c(0).getBlindedData(); } data[i].push_back(d); orig[i].push_back(copy(d, c.k)); }
  }
  w.acquaint(); int runs = 0; uint64_t x = 7 * stride;
  for (int r = 0; r < rounds; r++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull; int i = r * stride % n, v = (int) (x >> 33) % V;
    if (stored[i] < 0 || r % 3 == 0) { EOPSIMessage m(data[i][v], c.degree() * c.k, EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId(w.m[i]->id); mc::op(mc::fmt("%s outsources version %d", w.m[i]->id.c_str(), v)); w.c(i).send(*w.cloud, &m); stored[i] = v; }
    else {
      int j = (int) (x >> 40) % n; if (j == i || stored[j] < 0) j = (i + n - 1) % n; if (j == i || stored[j] < 0) continue;
      w.request(i, j); runs++; Elems p = setOf(i, stored[i]), q = setOf(j, stored[j]); Set a(p.begin(), p.end()), b(q.begin(), q.end()); learnt[i].clear(); std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(learnt[i], learnt[i].begin()));
      checkExact(w.c(i).getIntersection(), learnt[i], mc::fmt("round %d: %s asked %s", r, w.m[i]->id.c_str(), w.m[j]->id.c_str()));
    }
    mc::state(mc::fmt("crowd %d %d %d", n, stride, r));
  }
  for (int i = 0; i < n; i++) { checkExact(w.c(i).getIntersection(), learnt[i], "in the end"); for (int v = 0; v < V; v++) mc::require(copy(data[i][v], c.k) == orig[i][v], "data-altered", mc::fmt("version %d of client %d", v, i)); }
  mc::outcome(mc::fmt("%d clients", n)); (void) runs;
}
/** Names that resemble each other: one client of each, stores in one order, runs of every ordered pair, replacement of one client's data, runs again */
static void alike() {
  static const std::vector<int> lengths = {0, 1, 2, 7, 8, 14, 15, 16, 22, 23, 24, 31, 32, 47, 48, 62, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096};
  int L = mc::among(lengths), kind = mc::choose(9); std::string b(L, 'n'); for (int i = 0; i < L; i++) b[i] = "nab-_. 09"[(i * 7) % 9]; std::vector<std::string> id;
  switch (kind) {
    case 0: id = {b + "1", b + "2", b + "3"}; break; case 1: id = {"1" + b, "2" + b, "3" + b}; break; case 2: id = {b + "x", b + "X", b + "xx"}; break;
    case 3: id = {b + "\xc3\xa9", b + "\xc3\xa8", b + "\xff"}; break; case 4: id = {b + "a", b + "a ", " " + b + "a"}; break; case 5: id = {b + "\n", b + "\t", b + "\r"}; break;
    case 6: id = {b + "a" + b, b + "b" + b, b + "c" + b}; break; case 7: id = {b + "10", b + "1", b + "010"}; break; default: id = {"Cloud" + b + "1", "cloud" + b, "Cloud " + b};
  }
  Cfg c; c.h = 3; World w(c); std::vector<std::unique_ptr<World>> keep; static const Elems sets[3][2] = {{el({0, 1, 5}), el({2, 7})}, {el({1, 5, 7}), el({0, 2})}, {el({5, 9}), el({2, 0, 9})}};
  auto placeAll = [&](World &x) { for (long e : {0, 1, 2, 5, 7, 9}) x.place(NTL::to_ZZ(e), (int) (e % c.k)); }; placeAll(w);
  for (int i = 0; i < 3; i++) { w.add(id[i], secrets[i]); w.data(i, sets[i][0]); } w.acquaint(); int first = mc::choose(3), v[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) w.outsource((first + i) % 3);
  auto all = [&](const char *when) { for (int r = 0; r < 3; r++) for (int x = 0; x < 3; x++) if (r != x) { w.request(r, x); Set a(sets[r][v[r]].begin(), sets[r][v[r]].end()), q(sets[x][v[x]].begin(), sets[x][v[x]].end()), want; std::set_intersection(a.begin(), a.end(), q.begin(), q.end(), std::inserter(want, want.begin())); checkExact(w.c(r).getIntersection(), want, mc::fmt("%s: \"%.40s...\" (number %d of %d characters) asked number %d", when, id[r].c_str(), r, (int) id[r].size(), x)); } };
  all("at first"); int z = mc::choose(3);
  keep.emplace_back(new World(c)); World &x = *keep.back(); placeAll(x); x.add(id[z], secrets[z]); x.data(0, sets[z][1]); EOPSIMessage m(x.c(0).getBlindedData(), c.degree() * c.k, EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId(id[z]); w.c(z).send(*w.cloud, &m); v[z] = 1;
  all("after a replacement"); mc::state(mc::fmt("%d %d %d %d", L, kind, first, z)); mc::outcome("names");
}
/** Clients that are replaced by new objects of the same name, with another secret and other data, which outsource anew */
static void reborn() {
  int n = 2 + mc::choose(2), depth = (mc::thorough() ? 6 : 5) - 2 * (n - 2); Cfg c; c.h = 3; World w(c); for (long e : {0, 1, 2, 3, 5, 7, 9}) w.place(NTL::to_ZZ(e), (int) (e % c.k));
  static const Elems sets[3][3] = {{el({0, 1, 5}), el({2, 7}), el({9, 1})}, {el({1, 5, 7}), el({0, 2, 9}), el({5})}, {el({9, 5, 0}), el({1, 2, 5}), el({3, 0})}};
  static const std::string sec[3][3] = {{std::string("\0\0\x02", 3), "Topsy Kretts", "\x02"}, {"Topsy", "Topsy Kretts", "z"}, {"\x07", "another", std::string("\0\x07", 2)}};
  for (int i = 0; i < n; i++) { w.add(names[i], sec[i][0]); w.data(i, sets[i][0]); } w.acquaint(); for (int i = 0; i < n; i++) w.outsource(i);
  bool keepOld = mc::choose(2); std::vector<std::unique_ptr<Member>> old; int gen[3] = {0, 0, 0}; Set learnt[3]; std::string h;
  for (int d = 0; d < depth; d++) {
    int runs = n * (n - 1), o = mc::choose(runs + n); std::string what;
    if (o < runs) {
      int r = o / (n - 1), x = o % (n - 1); if (x >= r) x++; what = mc::fmt("%s asks %s", names[r], names[x]); w.request(r, x); learnt[r] = common(*w.m[r], *w.m[x]); mc::outcome("run");
    } else {
      int i = o - runs; if (gen[i] == 2) return; gen[i]++; what = mc::fmt("%s number %d", names[i], gen[i]); mc::op(what);
      std::unique_ptr<Member> was = std::move(w.m[i]); w.add(names[i], sec[i][gen[i]]); w.m[i] = std::move(w.m.back()); w.m.pop_back(); w.data(i, sets[i][gen[i]]);
      if (gen[i] % 2) w.acquaint(); else { w.c(i).authenticate(*w.cloud); w.cloud->authenticate(w.c(i)); }
      w.outsource(i); if (gen[i] % 2 == 0) w.acquaint();
      if (keepOld) old.push_back(std::move(was)); else was.reset();
      learnt[i].clear(); mc::outcome("reborn");
    }
    h += mc::fmt("%d ", o); for (int i = 0; i < n; i++) checkExact(w.c(i).getIntersection(), learnt[i], h + what + ": " + names[i]); mc::state(mc::fmt("reborn %d %d ", n, keepOld) + h);
  }
}
/** The cloud's own request: its answer is that of a cloud which never held other data and was never asked before, whatever key */
static void keys() {
  static const Elems sets[2][2] = {{el({0, 1, 5}), el({2, 7})}, {el({1, 5, 7}), el({0, 2})}}; Cfg c; c.h = 3; int depth = mc::thorough() ? 6 : 5;
  static const char *KEYS[] = {"12345678901234567890", "12345678901234567891"}; const int K = 2;
  struct S { World w; std::vector<Raw> t; std::unique_ptr<World> other; std::vector<vec_ZZ_p *> data[2]; S(const Cfg &c) : w(c) {
    for (int v = 0; v < 2; v++) { World *x = &w; if (v) { other.reset(new World(c)); x = other.get(); } for (long e : {0, 1, 2, 5, 7}) x->place(NTL::to_ZZ(e), (int) (e % c.k)); for (int i = 0; i < 2; i++) { x->add(names[i], secrets[i]); x->data(i, sets[i][v]); data[i].push_back(x->c(i).getBlindedData()); } }
    w.acquaint(); for (int i = 0; i < 2; i++) w.c(i).hold = true; }
    void store(Server &cloud, int i, int v) { EOPSIMessage m(data[i][v], w.cfg.degree() * w.cfg.k, EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId(names[i]); mc::op(mc::fmt("%s outsources version %d", names[i], v)); w.c(i).send(cloud, &m); }
    Raw ask(Server &cloud, int r, int q, const char *key) { // helper q asks the cloud on behalf of r
      std::string b = std::string(names[q]) + '\0' + names[r] + '\0' + key + '\0'; byte *p = new byte[b.size()]; memcpy(p, b.data(), b.size()); EOPSIMessage m(p, b.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId(names[q]); /* the cloud frees the payload */ mc::op(mc::fmt("%s asks the cloud for %s, key %s", names[q], names[r], key)); size_t before = w.c(r).held.size(); w.c(q).send(cloud, &m);
      mc::require(w.c(r).held.size() == before + 1, "no-answer", b); EOPSIMessage &a = w.c(r).held.back(); mc::require(a.getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION, "wrong-answer", b); return copy((vec_ZZ_p *) a.getData(), w.cfg.k); }
  };
  S s(c); int v[2] = {0, 0}; Server &cloud = *s.w.cloud; s.store(cloud, 0, 0); s.store(cloud, 1, 0); std::string h;
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(4 + 2 * K);
    if (o < 4) { v[o / 2] = o % 2; s.store(cloud, o / 2, o % 2); }
    else {
      int r = (o - 4) / K, k = (o - 4) % K; Raw got = s.ask(cloud, r, 1 - r, KEYS[k]);
      Server fresh(c, "Cloud"); for (int i = 0; i < 2; i++) fresh.authenticate(s.w.c(i)); for (int i = 0; i < 2; i++) s.store(fresh, i, v[i]);
      mc::require(got == s.ask(fresh, r, 1 - r, KEYS[k]), "stale-answer", h + mc::fmt("then %s asks for %s with versions %d and %d stored, key %s", names[1 - r], names[r], v[0], v[1], KEYS[k])); mc::outcome("asked");
    }
    h += mc::fmt("%d ", o); mc::state("keys " + h);
  }
}
/** Data replaced by data that differ in a single value, or in all but one: whichever it is, the cloud computes on the new ones */
static void single() {
  Cfg c; c.k = mc::choose(2) ? 3 : 1; c.h = 2; c.extra = mc::choose(2); World w(c); for (long e : {1, 2, 5}) w.place(NTL::to_ZZ(e), (int) (e % c.k)); for (int i = 0; i < 2; i++) { w.add(names[i], secrets[i]); w.data(i, el({i ? 2l : 1l, 5})); } w.acquaint(); w.c(0).hold = w.c(1).hold = true; size_t n = c.degree();
  auto store = [&](Server &cloud, int i, vec_ZZ_p *d) { EOPSIMessage m(d, n * c.k, EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId(names[i]); w.c(i).send(cloud, &m); };
  auto ask = [&](Server &cloud) { std::string b = std::string(names[1]) + '\0' + names[0] + '\0' + "12345678901234567890" + '\0'; byte *p = new byte[b.size()]; memcpy(p, b.data(), b.size()); EOPSIMessage m(p, b.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId(names[1]); size_t before = w.c(0).held.size(); w.c(1).send(cloud, &m); mc::require(w.c(0).held.size() == before + 1, "no-answer", "single"); return copy((vec_ZZ_p *) w.c(0).held.back().getData(), c.k); };
  int who = mc::choose(2), all = mc::choose(2), j = mc::choose((int) c.k), i = mc::choose((int) n), asked = mc::choose(2); std::vector<vec_ZZ_p> next(c.k); vec_ZZ_p *old = w.c(who).getBlindedData();
  for (size_t y = 0; y < c.k; y++) { next[y] = old[y]; for (size_t x = 0; x < n; x++) if (((int) y == j && (int) x == i) != (bool) all) next[y][x] += (long) (1 + x + y); }
  store(*w.cloud, 0, w.c(0).getBlindedData()); store(*w.cloud, 1, w.c(1).getBlindedData()); if (asked) (void) ask(*w.cloud); store(*w.cloud, who, next.data()); mc::op(mc::fmt("%s replaces %s value %d of bucket %d", names[who], all ? "all but" : "only", i, j)); Raw got = ask(*w.cloud);
  Server fresh(c, "Cloud"); for (int x = 0; x < 2; x++) fresh.authenticate(w.c(x)); store(fresh, 0, who == 0 ? next.data() : w.c(0).getBlindedData()); store(fresh, 1, who == 1 ? next.data() : w.c(1).getBlindedData()); mc::require(got == ask(fresh), "stale-answer", mc::fmt("%s replaced %s value %d of bucket %d", names[who], all ? "all but" : "only", i, j));
  store(*w.cloud, who, old); Server first(c, "Cloud"); for (int x = 0; x < 2; x++) { first.authenticate(w.c(x)); store(first, x, w.c(x).getBlindedData()); } mc::require(ask(*w.cloud) == ask(first), "stale-answer", "back again"); mc::state(mc::fmt("single %zu %zu %d %d %d %d %d", c.k, n, who, all, j, i, asked)); mc::outcome("single");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C06");
  Cfg c; c.h = 3; Cfg c1; c1.k = 1; c1.h = 4; c1.extra = 2; c1.p = prime(96, false);
  s.add("envelopes", "2 clients, 2 versions: all sequences of 4 (thorough 6) stores and runs; message objects kept, destroyed or reused after sending", [=] { int e = mc::choose(3); stores(2, 2, mc::thorough() ? 6 : 4, e, c); });
  s.add("three", "3 clients, 2 versions: all sequences of 4 (thorough 5)", [=] { stores(3, 2, mc::thorough() ? 5 : 4, 0, c); });
  s.add("versions", "2 clients, 3 versions, one bucket: all sequences of 5 (thorough 6)", [=] { stores(2, 3, mc::thorough() ? 6 : 4, 0, c1); });
  s.add("crowd", "2, 7 and 20 (thorough 70) clients, 260 (1200) stores of 3 versions and runs in 4 fixed schedules", crowd);
  s.add("names", "3 clients whose names of up to 4100 characters resemble each other in 9 ways, all pairs run before and after a replacement", alike);
  s.add("reborn", "all sequences of 5 (thorough 6) among 2 clients and of 3 (4) among 3 of runs and replacements of a client by a new one of its name, with another secret and set; the old one kept or destroyed", reborn);
  s.add("single", "data replaced by data differing in one value, or all but one, every value of either client, 4 shapes, and replaced again by the first", single);
  s.add("keys", "all sequences of 5 (thorough 6) stores (2 versions each of 2 clients) and direct requests with 2 keys: answers equal those of a cloud without a past", keys);
  s.add("reusedReborn", "`reborn` again where memory is handed out again at once", reborn);
  s.add("reusedVersions", "`versions` again where memory is handed out again at once", [=] { stores(2, 3, mc::thorough() ? 6 : 4, 0, c1); });
  s.add("reusedSingle", "`single` again where memory is handed out again at once", single);
  return s.main(argc, argv);
}
