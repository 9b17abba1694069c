/*
 * A small stateless model checker for C++ code.
 *
 * A scenario body draws every nondeterministic decision from choose() (free choice) or deviate() (choice 0 is the
 * default, any other one costs a unit of a bounded budget).  The explorer runs the body once for every sequence of
 * choices, depth first, in parallel worker processes.  A violation is a failed require(), an unexpected exception,
 * the death of the worker (signal, sanitizer, exit) or an execution that does not end.
 */
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

// ------------------------------------------------------------------------------------------------ environment
/** The answers of the C random generator. 0: a fixed pseudo-random sequence; 1: always 1; 2: always RAND_MAX;
 *  3: counting up from 1; 4: 1, 2, 1, 2...; 5: another pseudo-random sequence; 6: always 0 */
struct Env {
  int randMode = 0;
  uint64_t randCalls = 0;
  uint64_t randState = 1;
  long timeNow = 1600000000;
  void reset() { randMode = 0; randCalls = 0; randState = 88172645463325252ull; timeNow = 1600000000; }
};
inline Env &env() { static Env e; return e; }

// ------------------------------------------------------------------------------------------------ engine state
struct Violation { std::string sig, msg; };

static const int MAXD = 512;

/** One per worker process, in shared memory: survives the death of the worker */
struct Shared {
  std::atomic<uint64_t> started;      // ms, when the execution in progress began (0: none)
  std::atomic<uint64_t> execs;        // executions begun in this chunk
  std::atomic<int> depth; int picks[MAXD]; // path of the execution in progress
};

struct Engine {
  std::vector<int> path, ns;          // picks and numbers of alternatives of the current execution
  int budget = 0, used = 0;
  std::vector<std::string> trace;
  uint64_t transitions = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> outcomes;
  Shared *sh = nullptr;
  bool thorough = false;
  uint64_t seed = 1;
};
inline Engine &eng() { static Engine e; return e; }
inline bool thorough() { return eng().thorough; }
int rawClock(struct timespec *);   // the true monotonic clock, never an interposed one
inline uint64_t nowMs() {
  struct timespec ts; rawClock(&ts);
  return (uint64_t) ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
inline uint64_t hash64(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}

inline std::string fmt(const char *f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
template <typename T> std::string str(const T &x) { std::ostringstream o; o << x; return o.str(); }

[[noreturn]] inline void fail(const std::string &sig, const std::string &msg) { throw Violation{sig, msg}; }
inline void require(bool ok, const std::string &sig, const std::string &msg = "") { if (!ok) fail(sig, msg); }

// ------------------------------------------------------------------------------------------------ choices
inline int pickAt(int n) {
  Engine &e = eng();
  size_t pos = e.ns.size();
  e.ns.push_back(n);
  if (pos < e.path.size()) {          // replaying a prefix
    int v = e.path[pos];
    if (v >= n) { fprintf(stderr, "MC: divergence: choice %zu is %d of %d\n", pos, v, n); _exit(70); }
    return v;
  }
  if ((int) pos >= MAXD) { fprintf(stderr, "MC: too many choices\n"); _exit(70); }
  e.path.push_back(0);
  if (e.sh) { e.sh->picks[pos] = 0; e.sh->depth = (int) e.path.size(); }
  return 0;
}
/** One of 0..n-1, every one of them in some execution */
inline int choose(int n, const char * = "") { return n <= 1 ? 0 : pickAt(n); }
/** As choose(), but an answer other than 0 uses up one unit of the deviation budget */
inline int deviate(int n, const char *label = "") {
  Engine &e = eng();
  if (n <= 1 || e.used >= e.budget) return 0;
  int v = pickAt(n);
  if (v) { e.used++; if (*label) e.trace.push_back(fmt("[%s=%d]", label, v)); }
  return v;
}
template <typename T> const T &among(const std::vector<T> &v, const char *l = "") { return v[choose((int) v.size(), l)]; }
template <typename T> const T &around(const std::vector<T> &v, const char *l = "") { return v[deviate((int) v.size(), l)]; }

/** Record an operation performed on the implementation (a transition) */
inline void op(const std::string &s) { eng().transitions++; if (eng().trace.size() < 400) eng().trace.push_back(s); }
inline void ops(uint64_t n) { eng().transitions += n; }
inline void note(const std::string &s) { if (eng().trace.size() < 400) eng().trace.push_back(s); }
/** Record a (canonical) state reached */
inline void state(const std::string &s) { eng().states.insert(hash64(s)); }
/** Count an observed outcome class */
inline void outcome(const std::string &s) { eng().outcomes[s]++; }

// ------------------------------------------------------------------------------------------------ isolation
struct Outcome {
  enum Kind { RETURNED, THREW, EXITED, SIGNALED, TIMEOUT } kind; int code; std::string text, err;
  std::string show() const {
    static const char *k[] = {"returned", "threw", "exited", "signaled", "timeout"};
    return fmt("%s(%d) %s", k[kind], code, text.substr(0, 300).c_str());
  }
  bool orderly() const { return kind == RETURNED || kind == THREW || kind == EXITED; }
};
/** Run fn in a child process: what it returns, the exception it throws, or how the process ends (stderr captured) */
inline Outcome isolate(const std::function<std::string()> &fn, int timeoutS = 60) {
  int p[2], q[2];
  if (pipe(p) || pipe(q)) { perror("pipe"); _exit(70); }
  std::cout.flush(); std::cerr.flush(); fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(70); }
  if (pid == 0) {
    close(p[0]); close(q[0]); dup2(q[1], 2); close(q[1]);
    signal(SIGALRM, SIG_DFL);
    std::string out; char k = 'R';
    try { out = fn(); }
    catch (Violation &v) { k = 'V'; out = v.sig + "\n" + v.msg; }
    catch (std::bad_alloc &e) { k = 'B'; out = "std::bad_alloc"; }
    catch (std::exception &e) { k = 'T'; out = e.what(); }
    catch (...) { k = 'T'; out = "?"; }
    out.insert(out.begin(), k);
    size_t o = 0; while (o < out.size()) { ssize_t w = write(p[1], out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
    std::cerr.flush();
    _exit(0);
  }
  close(p[1]); close(q[1]);
  std::string data, err; char buf[65536]; bool po = true, qo = true, timedOut = false;
  uint64_t end = nowMs() + timeoutS * 1000ull;
  while (po || qo) {
    struct pollfd f[2]; int n = 0, pi = -1, qi = -1;
    if (po) { f[n].fd = p[0]; f[n].events = POLLIN; pi = n++; }
    if (qo) { f[n].fd = q[0]; f[n].events = POLLIN; qi = n++; }
    uint64_t t = nowMs();
    if (t >= end) { timedOut = true; kill(pid, SIGKILL); break; }
    int r = poll(f, n, (int) std::min<uint64_t>(end - t, 1000));
    if (r < 0 && errno != EINTR) break;
    if (r <= 0) continue;
    if (pi >= 0 && f[pi].revents) { ssize_t g = read(p[0], buf, sizeof buf); if (g > 0) data.append(buf, g); else po = false; }
    if (qi >= 0 && f[qi].revents) { ssize_t g = read(q[0], buf, sizeof buf); if (g > 0) { if (err.size() < 1000000) err.append(buf, g); } else qo = false; }
  }
  close(p[0]); close(q[0]);
  int st = 0; waitpid(pid, &st, 0);
  Outcome o; o.code = 0; o.err = err;
  if (timedOut) { o.kind = Outcome::TIMEOUT; return o; }
  if (WIFSIGNALED(st)) { o.kind = Outcome::SIGNALED; o.code = WTERMSIG(st); o.text = err.substr(0, 1500); return o; }
  if (!data.empty() && WEXITSTATUS(st) == 0) {
    char k = data[0]; o.text = data.substr(1);
    if (k == 'V') { size_t nl = o.text.find('\n'); fail(o.text.substr(0, nl), o.text.substr(nl + 1)); }
    o.kind = k == 'R' ? Outcome::RETURNED : Outcome::THREW; o.code = k == 'B' ? 2 : k == 'T' ? 1 : 0;
    return o;
  }
  o.kind = Outcome::EXITED; o.code = WEXITSTATUS(st); o.text = err.substr(0, 500);
  return o;
}

/** Capture what is written to std::cout while it lives */
struct CaptureOut {
  std::ostringstream o; std::streambuf *old;
  CaptureOut() { old = std::cout.rdbuf(o.rdbuf()); }
  ~CaptureOut() { std::cout.rdbuf(old); }
  std::string text() { return o.str(); }
};
struct CaptureErr {
  std::ostringstream o; std::streambuf *old;
  CaptureErr() { old = std::cerr.rdbuf(o.rdbuf()); }
  ~CaptureErr() { std::cerr.rdbuf(old); }
  std::string text() { return o.str(); }
};

// ------------------------------------------------------------------------------------------------ suite
struct Scenario {
  std::string name; std::function<void()> body; int devQuick, devThorough; bool thoroughOnly; std::string what;
};

struct Suite {
  std::string id; std::vector<Scenario> sc;
  std::vector<std::string> known;     // signatures of known findings
  explicit Suite(const std::string &i) : id(i) {}
  void add(const std::string &name, const std::string &what, std::function<void()> body, int devQuick = 0, int devThorough = 0, bool thoroughOnly = false) {
    sc.push_back({name, body, devQuick, devThorough, thoroughOnly, what});
  }
  int main(int argc, char **argv);
};

} // namespace mc
#include "mc_engine.hpp"
