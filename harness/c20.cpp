/* C20: misfitting input is refused, never silently answered. */
#include "psi.hpp"
using namespace psi;

/** Three acquainted clients; Carol's data always fits */
struct Three { World w; Three(const Cfg &c) : w(c, 1) { w.add("Alice", "first"); w.add("Bob", "second"); w.add("Carol", "third"); w.acquaint(); } };

static bool accepts(World &w, size_t i, const Elems &e, size_t bits, const std::string &what, bool mustFit) {
  Member &x = *w.m[i]; x.data = e; x.raw.reset(new ZZ[e.size() ? e.size() : 1]); for (size_t j = 0; j < e.size(); j++) x.raw[j] = e[j];
  mc::op(mc::fmt("%s.setRawData(%s, %zu bits)", x.id.c_str(), psi::show(e).c_str(), bits));
  bool took = false; std::string why;
  mc::Outcome o = mc::isolate([&] { mc::CaptureOut c; mc::CaptureErr d; x.c->setRawData(x.raw.get(), e.size(), bits, 1); return std::string("taken"); });
  if (o.kind == mc::Outcome::RETURNED) took = true;
  else if (o.kind != mc::Outcome::THREW) mc::fail("not-catchable", what + ": " + o.show());
  if (took && !mustFit) mc::fail("silently-taken", what + " was taken");
  if (!took && mustFit) mc::fail("wrongly-refused", what + " was refused: " + o.text);
  // now in this process
  HashBuckets<ZZ_p> &hb = *x.hb; size_t before = hb.size();
  mc::CaptureOut c; mc::CaptureErr d;
  try { x.c->setRawData(x.raw.get(), e.size(), bits, 1); mc::require(mustFit, "silently-taken", what); mc::outcome("accepted"); }
  catch (mc::Violation &) { throw; }
  catch (std::exception &ex) {
    mc::require(!mustFit, "wrongly-refused", what); mc::require(*ex.what() != 0, "no-reason", what);
    if (x.c->getBlindedData() != nullptr) mc::fail("blinded-first", what + ": refused after blinding");
    if (hb.size() != before) mc::fail("blinded-first", what + ": refused after filling the hash table");
    mc::outcome("refused");
  }
  return took;
}
/** Declared widths from 0 to beyond the field's */
static void declared() {
  long fb = mc::among(std::vector<long>{40, 64, 65, 127, 300}); bool low = mc::choose(2); Cfg c; c.p = prime(fb, low); c.k = 2; c.h = 6;
  int place = mc::choose(15); size_t bits = place < 3 ? 1 + place : place < 10 ? fb - 8 + (place - 3) + 2 : place == 10 ? fb + 5 : place == 11 ? 2 * fb : (size_t) 0;
  if (place == 12) bits = fb / 2; if (place == 13) bits = ~(size_t) 0; if (place == 14) bits = (size_t) 1 << 63;
  Three t(c); World &w = t.w; bool fits = bits < (size_t) fb - 1;
  int which = mc::choose(4); Elems e;
  ZZ top = fits ? NTL::power2_ZZ(bits) - 1 : NTL::to_ZZ(1);
  if (which == 0) e = {NTL::to_ZZ(0), NTL::to_ZZ(1)}; else if (which == 1) e = {top}; else if (which == 2) e = {NTL::to_ZZ(1), top, NTL::to_ZZ(0)}; else e = {NTL::power2_ZZ(fits ? bits - 1 : 3)};
  Elems u; for (auto &z : e) if (std::find(u.begin(), u.end(), z) == u.end()) u.push_back(z);
  std::string what = mc::fmt("%s with %zu declared bits in a field of %ld", psi::show(u).c_str(), bits, fb); mc::state(what + (low ? "" : " (largest prime)"));
  bool taken = accepts(w, 0, u, bits, what, fits);
  // the others go on
  w.cfg.bits = 8; if (taken) w.cfg.bits = bits;
  Elems same = taken ? u : Elems{NTL::to_ZZ(5), NTL::to_ZZ(0)};
  { mc::CaptureOut o; mc::CaptureErr r; w.data(1, same); w.data(2, same); w.outsource(1); w.outsource(2); if (taken) w.outsource(0); }
  size_t pad = fb - w.cfg.bits - 1;
  mc::CaptureOut o; mc::CaptureErr r;
  w.request(1, 2); 
  if (pad >= 24) checkExact(w.c(1).getIntersection(), common(*w.m[1], *w.m[2]), what + ": the others' run");
  if (taken && pad >= 24) { w.request(0, 1); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), what + ": the run of the one that fits"); }
}
/** Elements around the declared width at every place of the list; then the same client with data that fits, and the others */
static void elements() {
  long fb = mc::among(std::vector<long>{64, 100}); Cfg c; c.p = prime(fb); c.k = 2; c.h = 6; size_t bits = mc::among(std::vector<size_t>{1, 8, 16, 31}); c.bits = bits;
  size_t n = 1 + mc::choose(4), at = mc::choose((int) n); int over = mc::choose(13);
  ZZ odd; bool fits = false;
  switch (over) {
    case 0: odd = NTL::power2_ZZ(bits); break;
    case 1: odd = NTL::power2_ZZ(bits) - 1; fits = true; break;
    case 2: odd = NTL::power2_ZZ(bits + 1) - 1; break;
    case 3: odd = NTL::power2_ZZ(fb - 2); break;
    case 4: odd = c.p; break;
    case 5: odd = c.p + 1; break;
    case 6: odd = NTL::power2_ZZ(3 * fb); break;
    case 7: odd = NTL::power2_ZZ(bits + c.pad()) ; break;
    case 8: odd = NTL::to_ZZ(-1); break;
    case 9: odd = 1 - NTL::power2_ZZ(bits); break;
    case 10: odd = -NTL::power2_ZZ(bits + 3); break;
    case 11: odd = 1 - c.p; break;
    default: odd = NTL::to_ZZ(0); fits = true;
  }
  Elems e; for (size_t i = 0; i < n; i++) e.push_back(i == at ? odd : NTL::to_ZZ((long) (i % 2)));
  { Elems u; std::set<ZZ> s; for (auto &z : e) if (s.insert(z).second) u.push_back(z); e = u; }
  Three t(c); World &w = t.w; std::string what = mc::fmt("%s with %zu declared bits in a field of %ld", psi::show(e).c_str(), bits, fb); mc::state(what);
  bool taken = accepts(w, 0, e, bits, what, fits);
  mc::CaptureOut o; mc::CaptureErr r;
  Elems one = {NTL::to_ZZ(1)}, zero = {NTL::to_ZZ(0), NTL::to_ZZ(1)};
  if (!taken && mc::choose(2)) { w.data(0, zero); taken = true; mc::note("the refused client comes back with data that fits"); }
  w.data(1, one); w.data(2, zero); w.outsource(1); w.outsource(2);
  if (taken) { w.outsource(0); w.request(0, 2); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[2]), what); w.request(1, 0); checkExact(w.c(1).getIntersection(), common(*w.m[1], *w.m[0]), what + ", asked by another"); }
  w.request(2, 1); checkExact(w.c(2).getIntersection(), common(*w.m[1], *w.m[2]), what + ": the others' run");
}
/** No data: nothing happens, the others are unaffected, the client may still bring data */
static void none() {
  Cfg c; c.k = 2; c.h = 4; int how = mc::choose(3), bitsKind = mc::choose(3); size_t bits = bitsKind == 0 ? 8 : bitsKind == 1 ? 0 : 4000; Three t(c); World &w = t.w; ZZ some[2]; mc::CaptureOut o; mc::CaptureErr r;
  auto nothing = [&] { try { if (how == 0) w.c(0).setRawData(nullptr, 0, bits); else if (how == 1) w.c(0).setRawData(some, 0, bits); else w.c(0).setRawData(nullptr, 2, bits); } catch (std::exception &) { mc::note("refused"); } mc::op("no data"); mc::require(w.c(0).getBlindedData() == nullptr, "blinded-nothing", "no data was blinded"); };
  nothing(); if (mc::choose(2)) nothing();
  Elems e = {NTL::to_ZZ(3), NTL::to_ZZ(0), NTL::to_ZZ(255)}, f = {NTL::to_ZZ(255), NTL::to_ZZ(4), NTL::to_ZZ(0)};
  w.data(1, e); w.data(2, f); w.outsource(1); w.outsource(2); w.request(1, 2); checkExact(w.c(1).getIntersection(), common(*w.m[1], *w.m[2]), "the others' run");
  if (mc::choose(2)) { w.data(0, e); w.outsource(0); w.request(2, 0); checkExact(w.c(2).getIntersection(), common(*w.m[2], *w.m[0]), "with the client that brought data after all"); }
  mc::state(mc::fmt("%d %d", how, bitsKind)); mc::outcome("none");
}
/** A client that has data is given none, or data that is refused, with any declared width, between its runs: nothing changes */
static void afterwards() {
  Cfg c; c.k = 2; c.h = 4; c.p = prime(mc::among(std::vector<long>{64, 113})); int n = 1 + mc::choose(mc::thorough() ? 3 : 2); Three t(c); World &w = t.w; mc::CaptureOut o; mc::CaptureErr r; ZZ some[2] = {NTL::to_ZZ(1), NTL::to_ZZ(2)}; int when = mc::choose(3); std::string h = mc::fmt("%ld %d:", NTL::NumBits(c.p), when);
  w.data(0, {NTL::to_ZZ(3), NTL::to_ZZ(0), NTL::to_ZZ(255)}); w.data(1, {NTL::to_ZZ(255), NTL::to_ZZ(4), NTL::to_ZZ(0)}); w.data(2, {NTL::to_ZZ(3), NTL::to_ZZ(255)});
  auto disturb = [&] { for (int i = 0; i < n; i++) {
    static const size_t B[] = {8, 0, 1, 16, 4000}; int how = mc::choose(4); size_t bits = how == 3 ? 4000 : B[mc::choose(5)]; h += mc::fmt(" %d/%zu", how, bits); void *blind = w.c(0).getBlindedData(); size_t len = w.c(0).getBlindedDataSize();
    try { if (how == 0) w.c(0).setRawData(nullptr, 0, bits); else if (how == 1) w.c(0).setRawData(some, 0, bits); else if (how == 2) w.c(0).setRawData(nullptr, 2, bits); else { w.c(0).setRawData(some, 2, bits); mc::fail("silently-taken", h); } } catch (mc::Violation &) { throw; } catch (std::exception &) { h += " refused"; }
    mc::require(w.c(0).getBlindedData() == blind && w.c(0).getBlindedDataSize() == len, "data-changed", h + ": the blinded data are no longer there"); } };
  if (when == 0) disturb(); for (int i = 0; i < 3; i++) w.outsource(i);
  if (when == 1) disturb(); static const int R[] = {0, 1, 2, 0}, H[] = {1, 0, 0, 2};
  for (int i = 0; i < 4; i++) { w.request(R[i], H[i]); checkExact(w.c(R[i]).getIntersection(), common(*w.m[R[i]], *w.m[H[i]]), h + mc::fmt(": run %d", i)); if (when == 2 && i == 0) disturb(); }
  if (when == 2) { w.outsource(0); w.request(2, 0); checkExact(w.c(2).getIntersection(), common(*w.m[2], *w.m[0]), h + ": after outsourcing again"); }
  mc::note(h); mc::state(h); mc::outcome("afterwards");
}
/** A client that has data is given other data that fit: it says no in good order, or uses them */
static void again() {
  Cfg c; c.k = 2; c.h = 4 + 4 * mc::choose(2); int which = mc::choose(4), when = mc::choose(2), other = mc::choose(2); Three t(c); World &w = t.w; static const std::vector<Elems> D = {{NTL::to_ZZ(3), NTL::to_ZZ(9)}, {NTL::to_ZZ(7)}, {NTL::to_ZZ(3), NTL::to_ZZ(0), NTL::to_ZZ(200)}, {NTL::to_ZZ(4)}};
  std::string what = mc::fmt("capacity %zu, ", c.h) + psi::show(D[which]) + mc::fmt(" in place of other data %s", when ? "after a run" : "at once"); mc::state(what + mc::fmt(" %d", other));
  mc::Outcome o = mc::isolate([&] { mc::CaptureOut co; mc::CaptureErr ce; w.data(0, {NTL::to_ZZ(3), NTL::to_ZZ(0), NTL::to_ZZ(255)}); w.data(1, {NTL::to_ZZ(255), NTL::to_ZZ(4), NTL::to_ZZ(0), NTL::to_ZZ(7), NTL::to_ZZ(3)}); w.outsource(0); w.outsource(1); if (when) { w.request(0, 1); checkExact(w.c(0).getIntersection(), common(*w.m[0], *w.m[1]), what + ", first run"); }
    Elems old = w.m[0]->data; bool took = true; std::unique_ptr<ZZ[]> keep(w.m[0]->raw.release()); try { w.data(0, D[which]); } catch (mc::Violation &) { throw; } catch (std::exception &) { took = false; w.m[0]->data = old; }
    w.outsource(0); int r = other ? 1 : 0; w.request(r, 1 - r); checkExact(w.c(r).getIntersection(), common(*w.m[0], *w.m[1]), what + (took ? ": taken" : ": refused")); return std::string(took ? "taken and used" : "refused, the old ones kept"); });
  mc::op(what + " -> " + o.show()); if (!o.orderly() || (o.kind == mc::Outcome::EXITED && (o.code == 0 || o.code >= 70))) mc::fail("silently-wrong", what + ": " + o.show());
  mc::outcome(o.kind == mc::Outcome::EXITED ? "refused by exit" : o.text);
}
/** A client whose table or degree does not suit the protocol: it refuses its data, or its runs are exact all the same */
static void shapes() {
  Cfg c; c.k = 1 + mc::choose(3); c.h = 1 + mc::choose(3); c.p = prime(113); size_t k = mc::among(std::vector<size_t>{c.k, c.k + 1, c.k + 7, c.k - 1}), h = mc::among(std::vector<size_t>{c.h, c.h + 1, 2 * c.h + 1, c.h - 1}), d = mc::choose(7), degree = d < 5 ? 2 * c.h + d - 2 : d == 5 ? 1 : c.h + h; if (!k || !h || !degree) return;
  int n = 1 + mc::choose(2), late = mc::choose(2); ZZ_p::init(c.p); Placement alg; std::string what = c.show() + mc::fmt(", table %zu x %zu, degree %zu, %d elements per bucket, %d", k, h, degree, n, late); if ((size_t) n > h || (size_t) n > c.h) return; mc::state(what); mc::note(what); mc::CaptureOut o; mc::CaptureErr r;
  Elems e, f; for (size_t j = 0; j < std::max(k, c.k); j++) for (int i = 0; i < n; i++) { ZZ z = NTL::to_ZZ((long) (10 * j + i)); alg.where[z << (long) c.pad()] = (int) j; if (j < k) e.push_back(z); if (j < c.k && (i + j) % 2 == 0) f.push_back(z); } f.push_back(NTL::to_ZZ(200)); alg.where[f.back() << (long) c.pad()] = 0; if ((size_t) n == c.h) f.erase(f.begin());
  bool fits = k == c.k && h == c.h && degree >= 2 * c.h + 1; size_t first = late ? 2 * std::max(c.h, h) + 1 : degree;
  HashBuckets<ZZ_p> ta(k, h, &alg), tb(c.k, c.h, &alg); auto S = [](const char *s) { return std::string(s); }; Server cloud(c, "Cloud"); cloud.setDegree(degree);
  struct One : public EOPSIClient { using EOPSIClient::EOPSIClient; }; One a(ta, c.p, c.k, c.h, first, "Alice", NTL::to_ZZ(77)), b(tb, c.p, c.k, c.h, first, "Bob", NTL::to_ZZ(99)); a.setDegree(degree); b.setDegree(degree);
  std::vector<ZZ> da(e.begin(), e.end()), db(f.begin(), f.end());
  bool ta_ = true, tb_ = true; auto give = [&](EOPSIClient &x, std::vector<ZZ> &v) { mc::Outcome q = mc::isolate([&] { x.setRawData(v.data(), v.size(), c.bits, 1); return std::string("taken"); }); if (q.kind == mc::Outcome::RETURNED) { x.setRawData(v.data(), v.size(), c.bits, 1); return true; } if (!q.orderly() || (q.kind == mc::Outcome::EXITED && (q.code == 0 || q.code >= 70))) mc::fail("crash", what + ": " + q.show()); return false; };
  ta_ = give(a, da); tb_ = give(b, db); mc::op(what + (ta_ ? " taken" : " refused") + (tb_ ? " taken" : " refused")); if (fits) mc::require(ta_ && tb_, "wrongly-refused", what);
  if (!ta_ || !tb_) { mc::outcome("refused"); return; }
  a.authenticate(b); a.authenticate(cloud); b.authenticate(a); b.authenticate(cloud); cloud.authenticate(a); cloud.authenticate(b);
  EOPSIMessage ma(a.getBlindedData(), a.getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA), mb(b.getBlindedData(), b.getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); ma.setPartyId("Alice"); mb.setPartyId("Bob"); a.send(cloud, &ma); b.send(cloud, &mb);
  for (int i = 0; i < 2; i++) { One &x = i ? b : a, &y = i ? a : b; std::string p = requestBytes(x.getId(), secretBytes(x.getSecret())); EOPSIMessage m((byte *) &p[0], p.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m.setPartyId(x.getId()); x.send(y, &m); Set w, sa(e.begin(), e.end()), sb(f.begin(), f.end()); std::set_intersection(sa.begin(), sa.end(), sb.begin(), sb.end(), std::inserter(w, w.begin())); checkExact(x.getIntersection(), w, what); }
  mc::outcome("taken, exact");
}
/** Wide fields and elements, long lists with a misfit at chosen places, and bit widths around powers of two */
static void large() {
  long fb = mc::among(std::vector<long>{96, 128, 129, 256, 257, 320, 512, 1024}); Cfg c; c.p = prime(fb, fb % 2); size_t n = mc::among(std::vector<size_t>{2, 70, 300}); c.k = n / 6 + 2; c.h = n < 9 ? 6 : 22;
  size_t bits = mc::among(std::vector<size_t>{16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256}); if (bits + 28 > (size_t) fb || (!mc::thorough() && fb > 257 && (n > 2 || fb != 512)) || (!mc::thorough() && n > 2 && ((fb != 129 && fb != 257) || (bits > 33 && bits < 127)))) return; c.bits = bits; size_t at = mc::among(std::vector<size_t>{0, n / 2, n - 1}); int over = mc::choose(6); ZZ odd; bool fits = false;
  switch (over) { case 0: odd = NTL::power2_ZZ(bits) - 1; fits = true; break; case 1: odd = NTL::power2_ZZ(bits); break; case 2: odd = NTL::power2_ZZ(fb + 64) + 1; break; case 3: odd = NTL::power2_ZZ(bits + 64); break; case 4: odd = c.p + 7; break; default: odd = NTL::power2_ZZ(bits + 1) + 1; }
  Elems e; for (size_t i = 0; i < n; i++) e.push_back(i == at ? odd : NTL::to_ZZ((long) i + 5)); Three t(c); World &w = t.w; std::string what = mc::fmt("%zu elements, number %zu is %s, %zu declared bits in a field of %ld", n, at, mc::str(odd).c_str(), bits, fb); mc::state(what);
  bool taken = accepts(w, 0, e, bits, what, fits); mc::CaptureOut o; mc::CaptureErr r;
  Elems mine = {NTL::to_ZZ(5), NTL::power2_ZZ(bits) - 1, NTL::to_ZZ(6)}; if (!taken) { w.data(0, mine); taken = true; } w.data(1, mine); w.data(2, {NTL::to_ZZ(6), NTL::power2_ZZ(bits) - 1}); for (int i = 0; i < 3; i++) w.outsource(i);
  if (n > 100 || fb > 600 || (!mc::thorough() && (n > 9 || fb > 300))) return; // the runs of big worlds cost seconds each
  w.request(1, 2); checkExact(w.c(1).getIntersection(), common(*w.m[1], *w.m[2]), what + ": the others' run"); if (n < 9 || over == 0) { w.request(1, 0); checkExact(w.c(1).getIntersection(), common(*w.m[1], *w.m[0]), what); }
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C20");
  s.add("declared", "declared widths from 1 to twice the field's, element values up to the widest", declared);
  s.add("elements", "one element around or beyond the declared width, or negative, at every place of lists of 1-4, then runs of everybody", elements);
  s.add("none", "no data in every form, then runs of the others", none);
  s.add("afterwards", "1 or 2 (thorough 3) attempts to give a client that has data none, in 3 forms and 5 declared widths, or data that is refused; before outsourcing, after it, or between runs", afterwards);
  s.add("shapes", "tables with fewer, more, smaller or larger buckets than the protocol's, degrees from 1 to above the least, set at once or later: refused, or exact all the same", shapes);
  s.add("again", "a client that has data is given other data, at once or after a run: taken and used, or refused in good order", again);
  s.add("large", "fields to 1024 bits, widths around powers of two to 256, lists of 2, 70 and 300 elements with one misfit at three places, then runs", large);
  s.add("reusedAgain", "`again` again where memory is handed out again at once", again);
  s.add("reusedElements", "`elements` again where memory is handed out again at once", elements);
  return s.main(argc, argv);
}
