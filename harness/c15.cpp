/* C15: the chronometer accounts for every interval exactly. */
#include "mc.hpp"
#include <cmath>
#include "simplebm.h"

// The clock of the code under test: moves only between operations
static long long clockUs = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::duration_cast<system_clock::duration>(std::chrono::microseconds(clockUs))); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(std::chrono::duration_cast<steady_clock::duration>(std::chrono::microseconds(clockUs))); }
} } }

/** What the calls mean */
struct Model {
  std::vector<long long> t; std::vector<bool> paused;   // moments; paused[i]: the interval ending at t[i] is a pause
  std::map<std::string, size_t> names; bool stopped = true, inPause = false;
  void take(const std::string &name) { t.push_back(clockUs); paused.push_back(inPause); inPause = false; if (!name.empty()) names[name] = t.size() - 1; }
  void start() { t.clear(); paused.clear(); names.clear(); inPause = false; stopped = false; take(""); }
  void reset() { t.clear(); paused.clear(); names.clear(); inPause = false; stopped = false; }
  void step(const std::string &n) { if (t.empty()) start(); else if (!stopped) take(n); }
  void pause(const std::string &n) { if (t.empty() || stopped || inPause) return; take(n); inPause = true; }
  void stop(const std::string &n) { if (stopped) return; if (!inPause) take(n); stopped = true; inPause = false; }
  std::vector<long long> intervals(bool noPauses) const { std::vector<long long> v; for (size_t i = 1; i < t.size(); i++) if (!noPauses || !paused[i]) v.push_back(t[i] - t[i - 1]); return v; }
  long long interval(size_t c) const { if (t.size() < 2 || c >= t.size()) return 0; return c ? t[c] - t[c - 1] : t[t.size() - 1] - t[t.size() - 2]; }
  long long cumulative(size_t c, bool noPauses) const { if (c >= t.size()) return 0; if (!c) c = t.size() - 1; long long s = 0; for (size_t i = 1; i <= c; i++) if (!noPauses || !paused[i]) s += t[i] - t[i - 1]; return s; }
  size_t at(const std::string &n) const { auto i = names.find(n); return i == names.end() ? 0 : i->second; }
};
static void look(const SimpleBenchmark &b, const Model &m, const std::string &after) {
  auto num = [&](const char *sig, const std::string &q, double got, double want) { if (!(std::fabs(got - want) <= 1e-9 * std::max(1.0, std::fabs(want)))) mc::fail(sig, after + ": " + q + mc::fmt(" is %.12g, should be %.12g", got, want)); };
  mc::require(b.isStopped() == m.stopped, "wrong-state", after + mc::fmt(": isStopped() is %d", b.isStopped()));
  mc::require(b.isPaused() == m.inPause, "wrong-state", after + mc::fmt(": isPaused() is %d", b.isPaused()));
  num("wrong-interval", "benchmark()", b.benchmark().count(), m.interval(0));
  num("wrong-cumulative", "cumulativeBenchmark()", b.cumulativeBenchmark().count(), m.cumulative(0, true));
  for (size_t c = 0; c < m.t.size() + 2; c++) {
    num("wrong-interval", mc::fmt("benchmark(%zu)", c), b.benchmark(c).count(), m.interval(c));
    num("wrong-cumulative", mc::fmt("cumulativeBenchmark(%zu)", c), b.cumulativeBenchmark(c).count(), m.cumulative(c, true));
    for (int np = 0; np < 2; np++) num("wrong-cumulative", mc::fmt("cumulativeBenchmark(%zu, %d)", c, np), b.cumulativeBenchmark(c, np).count(), m.cumulative(c, np));
  }
  for (const char *n : {"a", "b"}) {
    num("wrong-interval", mc::fmt("benchmark(\"%s\")", n), b.benchmark(std::string(n)).count(), m.interval(m.at(n)));
    for (int np = 0; np < 2; np++) num("wrong-cumulative", mc::fmt("cumulativeBenchmark(\"%s\", %d)", n, np), b.cumulativeBenchmark(std::string(n), np).count(), m.cumulative(m.at(n), np));
  }
  for (int np = 1; np >= 0; np--) {
    std::vector<long long> v = m.intervals(np); double avg = 0, var = 0, mn = 0, mx = 0;
    if (!v.empty()) { mn = mx = v[0]; for (long long x : v) { avg += x; mn = std::min<double>(mn, x); mx = std::max<double>(mx, x); } avg /= v.size(); for (long long x : v) var += (x - avg) * (x - avg); var /= v.size(); }
    num("wrong-average", mc::fmt("average(%d)", np), b.average(np), avg);
    num("wrong-variance", mc::fmt("variance(%d)", np), b.variance(np), var);
    num("wrong-deviation", mc::fmt("standardDeviation(%d)", np), b.standardDeviation(np), std::sqrt(var));
    num("wrong-minimum", mc::fmt("min(%d)", np), b.min(np).count(), mn);
    num("wrong-maximum", mc::fmt("max(%d)", np), b.max(np).count(), mx);
    if (np) { num("wrong-average", "average()", b.average(), avg); num("wrong-variance", "variance()", b.variance(), var); num("wrong-deviation", "standardDeviation()", b.standardDeviation(), std::sqrt(var)); num("wrong-minimum", "min()", b.min().count(), mn); num("wrong-maximum", "max()", b.max().count(), mx); }
  }
}
static long long delta(int pattern, int i) {
  switch (pattern) { case 0: return 1ll << i; case 1: return 1000 - 111 * (i % 9); case 2: return i % 3 ? 5 : 0; case 3: return i % 2 ? 1 : 3000000000ll; default: return 7; }
}
static bool apply(SimpleBenchmark &b, Model &m, int o, std::string &what) {
  switch (o) {
    case 0: what = "step()"; b.step(); m.step(""); return true;
    case 1: what = "pause()"; b.pause(); m.pause(""); return true;
    case 2: what = "stop()"; b.stop(); m.stop(""); return true;
    case 3: what = "start()"; b.start(); m.start(); return true;
    case 4: what = "step(a)"; if (m.inPause) return false; b.step("a"); m.step("a"); return true;   // naming the end of a pause is left open
    case 5: what = "pause(b)"; b.pause("b"); m.pause("b"); return true;
    case 6: what = "stop(a)"; b.stop("a"); m.stop("a"); return true;
    case 7: what = "cont()"; b.cont(); m.step(""); return true;
    default: what = "reset()"; b.reset(); m.reset(); return true;
  }
}
static void sequences(int depth, int patterns) {
  mc::CaptureErr quiet; clockUs = 1000000; int pattern = mc::choose(patterns); SimpleBenchmark b; Model m; std::string h = mc::fmt("%d ", pattern), what = "nothing"; look(b, m, what);
  for (int d = 0; d < depth; d++) {
    clockUs += delta(pattern, d); int o = mc::choose(9); if (!apply(b, m, o, what)) return;
    mc::op(what + mc::fmt(" at %lld", clockUs)); look(b, m, what); h += (char) ('0' + o); mc::state(h);
  }
  mc::outcome(mc::fmt("%zu times", m.t.size()));
}
/** Deeper sequences from a running chronometer, with the calls that matter there */
static void deep() {
  mc::CaptureErr quiet; clockUs = 5; int pattern = mc::choose(5); SimpleBenchmark b(mc::choose(2) * 3); Model m; std::string h = mc::fmt("d%d ", pattern), what; int depth = mc::thorough() ? 10 : 8;
  b.start(); m.start();
  for (int d = 0; d < depth; d++) { clockUs += delta(pattern, d + 1); static const int os[] = {0, 1, 4, 5, 2}; int o = os[mc::choose(d == depth - 1 ? 5 : 4)]; if (!apply(b, m, o, what)) return; mc::op(what); h += (char) ('0' + o); mc::state(h); if (d >= depth - 1) look(b, m, what); }
  mc::outcome("deep");
}
/** Many intervals: beyond the reserved space */
static void many() {
  mc::CaptureErr quiet; clockUs = 0; int k = mc::choose(4), pattern = mc::choose(5); SimpleBenchmark b; Model m; std::string what; int n = mc::among(std::vector<int>{1023, 1024, 1025, 3000});
  b.start(); m.start(); for (int i = 0; i < n; i++) { clockUs += delta(pattern, i % 30); apply(b, m, k == 0 ? 0 : k == 1 ? (i % 2 ? 7 : 1) : k == 2 ? (i % 5 == 2 ? 1 : i % 7 ? 0 : 4) : (i % 3 ? 0 : 1), what); }
  Model last = m; mc::require(b.benchmark().count() == m.interval(0) && b.cumulativeBenchmark().count() == m.cumulative(0, true), "wrong-cumulative", "after many intervals");
  std::vector<long long> v = m.intervals(true); double avg = 0; for (long long x : v) avg += x; avg = v.empty() ? 0 : avg / v.size();
  mc::require(std::fabs(b.average() - avg) <= 1e-9 * std::max(1.0, avg), "wrong-average", "after many intervals"); mc::ops(n); mc::note(mc::fmt("%d intervals of pattern %d", n, pattern)); mc::state(mc::fmt("m%d %d %d", n, k, pattern)); mc::outcome("many");
}
/** Longer histories with all queries in the end, and many names, some taken again */
static void histories() {
  mc::CaptureErr quiet; clockUs = 77; int pattern = mc::choose(5), mix = mc::choose(6), n = mc::among(std::vector<int>{20, 33, 64, 65, 130, 257}); SimpleBenchmark b(mc::choose(2) ? 1 : 1024); Model m; std::string what; b.start(); m.start(); uint64_t x = 99 + mix;
  std::vector<std::string> used;
  for (int i = 0; i < n; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull; int r = (int) (x >> 40) % 100; clockUs += pattern == 0 ? (1ll << (i % 41)) : delta(pattern, i % 30); 
    if (mix >= 3 && r < 40) { std::string nm = mc::fmt(r % 2 ? "name %d" : "%d", (int) (x >> 50) % (mix == 3 ? 5 : 200)); if (m.inPause) { b.cont(); m.step(""); } else if (r < 10) { b.pause(nm); m.pause(nm); used.push_back(nm); } else { b.step(nm); m.step(nm); used.push_back(nm); } }
    else if (mix % 3 == 0 ? r < 20 : mix % 3 == 1 ? i % 2 == 0 : r < 70) apply(b, m, 1, what); else if (r == 99 && i > n / 2) { apply(b, m, 2, what); apply(b, m, 0, what); apply(b, m, 3, what); } else apply(b, m, i % 2 ? 7 : 0, what);
    mc::ops(1);
  }
  look(b, m, "a long history"); for (auto &u : used) { mc::require(b.benchmark(u).count() == m.interval(m.at(u)), "wrong-interval", "benchmark(\"" + u + "\")"); for (int np = 0; np < 2; np++) mc::require(b.cumulativeBenchmark(u, np).count() == m.cumulative(m.at(u), np), "wrong-cumulative", "cumulativeBenchmark(\"" + u + "\")"); }
  clockUs += 1000; apply(b, m, 2, what); look(b, m, "stopped"); apply(b, m, 0, what); look(b, m, "a step while stopped"); mc::note(mc::fmt("%d calls, pattern %d, mix %d", n, pattern, mix)); mc::state(mc::fmt("H%d %d %d", n, pattern, mix)); mc::outcome("history");
}
/** Two chronometers at once: what happens to one leaves the other alone */
static void two() {
  mc::CaptureErr quiet; clockUs = 500; int pattern = mc::choose(2) * 3; SimpleBenchmark b[2]; Model m[2]; std::string h = mc::fmt("two %d", pattern), what; static const int os[] = {3, 0, 1, 2, 4, 8};
  for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
    clockUs += delta(pattern, d + 1); int w = mc::choose(2), o = mc::choose(6); if (!apply(b[w], m[w], os[o], what)) return;
    h += mc::fmt(" %d%d", w, o); mc::op(what + mc::fmt(" of number %d", w)); for (int i = 0; i < 2; i++) look(b[i], m[i], h + ": " + what + mc::fmt(" of number %d, about %d", w, i)); mc::state(h);
  }
  SimpleBenchmark copy(b[0]); Model cm = m[0]; clockUs += 9; copy.step(); cm.step(""); look(copy, cm, h + ": a step of a copy"); look(b[0], m[0], h + ": a step of its copy"); mc::outcome("two");
}
/** Many names, each of which stays with its time */
static void manyNames() {
  mc::CaptureErr quiet; clockUs = 10; static const std::vector<int> N = {2, 8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 1000}; int n = mc::among(N), kind = mc::choose(3), again = mc::choose(3), pauses = mc::choose(2); SimpleBenchmark b(mc::choose(2) ? 1 : 1024); Model m; b.start(); m.start();
  auto name = [&](int i) { return kind == 0 ? mc::fmt("n%d", i) : kind == 1 ? mc::fmt("%d a rather long name of a time", i) : std::string(i + 1, 'x'); };
  for (int i = 0; i < n; i++) { clockUs += 3 + i * 7 % 50; if (pauses && i % 3 == 1) { b.pause(name(i)); m.pause(name(i)); clockUs += 11; b.cont(); m.step(""); } else { b.step(name(i)); m.step(name(i)); } }
  if (again) for (int i = again == 1 ? 0 : n / 2; i < n; i += 5) { clockUs += 1000 + i; b.step(name(i)); m.step(name(i)); }
  clockUs += 77; b.stop("the end"); m.stop("the end"); std::string h = mc::fmt("%d names of kind %d, again %d, pauses %d", n, kind, again, pauses); mc::op(h); mc::state(h);
  for (int i = -1; i < n; i++) { std::string u = i < 0 ? "the end" : name(i); mc::require(b.benchmark(u).count() == m.interval(m.at(u)), "wrong-interval", h + ": benchmark(\"" + u + "\")"); for (int np = 0; np < 2; np++) mc::require(b.cumulativeBenchmark(u, np).count() == m.cumulative(m.at(u), np), "wrong-cumulative", h + ": cumulativeBenchmark(\"" + u + "\")"); mc::ops(3); }
  mc::outcome("names");
}
/** Named times after tens of thousands of others */
static void late() {
  mc::CaptureErr quiet; clockUs = 3; int before = mc::among(std::vector<int>{32766, 32768, 65533, 65534, 65535, 65536, 70000}), kind = mc::choose(4), early = mc::choose(2); SimpleBenchmark b(mc::choose(2) ? 1 : 1024); Model m; b.start(); m.start(); std::vector<std::string> names;
  auto named = [&](const char *n) { clockUs += 1009; if (kind % 2) { b.pause(n); m.pause(n); clockUs += 31; b.cont(); m.step(""); } else { b.step(n); m.step(n); } names.push_back(n); };
  if (early) { named("early"); } for (int i = 0; i < before; i++) { clockUs += 1 + i % 3; b.step(); m.step(""); }
  named("late"); named("later"); if (early && kind >= 2) named("early"); for (int i = 0; i < 4; i++) { clockUs += 17; b.step(); m.step(""); } clockUs += 5; b.stop("the end"); m.stop("the end"); names.push_back("the end");
  std::string h = mc::fmt("%d times before the names, kind %d, early %d", before, kind, early); mc::op(h); mc::note(h); mc::state("late " + h); std::vector<long long> sum[2]; for (int np = 0; np < 2; np++) { long long s = 0; sum[np].push_back(0); for (size_t i = 1; i < m.t.size(); i++) { if (!np || !m.paused[i]) s += m.t[i] - m.t[i - 1]; sum[np].push_back(s); } }
  for (auto &n : names) { size_t c = m.at(n); mc::require(b.benchmark(n).count() == m.interval(c) && b.benchmark(c).count() == m.interval(c), "wrong-interval", h + ": benchmark(\"" + n + "\")"); for (int np = 0; np < 2; np++) mc::require(b.cumulativeBenchmark(n, np).count() == sum[np][c] && b.cumulativeBenchmark(c, np).count() == sum[np][c], "wrong-cumulative", h + ": cumulativeBenchmark(\"" + n + "\")"); mc::ops(6); }
  for (size_t c : {(size_t) 1, m.t.size() / 2, (size_t) 32767, m.t.size() - 2, m.t.size() - 1}) if (c < m.t.size()) mc::require(b.benchmark(c).count() == m.interval(c) && b.cumulativeBenchmark(c, true).count() == sum[1][c], "wrong-interval", h + mc::fmt(": number %zu", c));
  mc::outcome("late");
}
int main(int argc, char **argv) {
  mc::Suite s("C15");
  s.add("sequences", "all sequences of 5 (thorough 6) calls out of 9, 5 patterns of intervals, all queries against the model", [] { sequences(mc::thorough() ? 6 : 5, 5); });
  s.add("deep", "all sequences of 8 (thorough 10) steps and pauses of a running chronometer", deep);
  s.add("many", "1023 to 3000 intervals", many);
  s.add("histories", "histories of 20 to 257 calls, 5 patterns of intervals, 6 mixtures of calls with up to 200 names, all queries in the end", histories);
  s.add("names", "2 to 1000 names of 3 kinds, some taken again, with and without pauses: all of them asked for", manyNames);
  s.add("late", "names taken after 32766 to 70000 other times, as steps and pauses, with and without an early one, taken again or not", late);
  s.add("two", "two chronometers: all sequences of 4 (thorough 5) of 6 calls of either; then a copy", two);
  s.add("reusedSequences", "`sequences` again where memory is handed out again at once", [] { sequences(mc::thorough() ? 6 : 5, 5); });
  return s.main(argc, argv);
}
