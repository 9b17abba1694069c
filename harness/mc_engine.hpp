/* The explorer: see mc.hpp.  The master process runs nothing of the code under test.  Every chunk of work (a list of
 * choice prefixes, explored depth first for a slice of time) runs in a fresh child process. */
#pragma once
#include <dirent.h>
#include <sys/resource.h>
#include <sys/syscall.h>

namespace mc {

inline int rawClock(struct timespec *t) { return (int) syscall(SYS_clock_gettime, CLOCK_MONOTONIC, t); }

typedef std::vector<int> Path;

inline std::string pathStr(const Path &p) { std::string s; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]); return s.empty() ? "-" : s; }
inline Path pathOf(const std::string &s) {
  Path p; if (s == "-") return p;
  std::istringstream i(s); std::string t; while (std::getline(i, t, ',')) p.push_back(atoi(t.c_str()));
  return p;
}
inline std::string jsonStr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += (char) c;
  }
  return o + "\"";
}

/** Reset whatever an execution may have changed; a driver adds its own */
inline std::function<void()> &resetHook() { static std::function<void()> f = [] {}; return f; }

/** One execution along the given prefix. Returns whether it violated the property. */
inline bool execute(const Scenario &s, const Path &prefix, Violation *v) {
  Engine &e = eng();
  e.path = prefix; e.ns.clear(); e.trace.clear(); e.used = 0;
  e.budget = e.thorough ? s.devThorough : s.devQuick;
  if (e.sh) { for (size_t i = 0; i < prefix.size(); i++) e.sh->picks[i] = prefix[i]; e.sh->depth = (int) prefix.size(); e.sh->started = nowMs(); e.sh->execs++; }
  env().reset();
  resetHook()();
  bool bad = false;
  std::streambuf *co = std::cout.rdbuf(), *ce = std::cerr.rdbuf();
  try { s.body(); }
  catch (Violation &x) { bad = true; *v = x; }
  catch (std::exception &x) { bad = true; v->sig = "unexpected-exception"; v->msg = x.what(); }
  catch (...) { bad = true; v->sig = "unexpected-exception"; v->msg = "of unknown type"; }
  std::cout.rdbuf(co); std::cerr.rdbuf(ce);
  if (e.ns.size() < e.path.size() && !bad) { fprintf(stderr, "MC: divergence: prefix longer than the execution\n"); _exit(70); }
  if (e.sh) e.sh->started = 0;
  return bad;
}
/** The alternatives not yet taken by the last execution, beyond its prefix; the deepest last */
inline void alternatives(size_t from, std::vector<Path> &stack) {
  Engine &e = eng();
  for (size_t i = from; i < e.ns.size(); i++)
    for (int a = e.ns[i] - 1; a >= 1; a--) {
      Path p(e.path.begin(), e.path.begin() + i); p.push_back(a); stack.push_back(p);
    }
}
inline std::string traceText() { std::string t; for (auto &s : eng().trace) t += s + "\n"; return t; }

struct KnownHit { std::string sig, msg; };

struct Worker {
  pid_t pid = 0; int fd = -1; Shared *sh = nullptr; std::string in, errFile; std::vector<Path> chunk; int tries = 0; bool busy = false;
};

struct Result {
  uint64_t execs = 0, transitions = 0, twice = 0, divergent = 0; int maxDepth = 0;
  std::unordered_set<uint64_t> states; std::map<std::string, uint64_t> outcomes; std::vector<std::string> samples;
  std::map<std::string, std::string> known; bool complete = true; double wall = 0;
};

class Master {
  public:
    Suite &suite; std::string outFile, replayDir, tmp; int jobs = 8; uint64_t capMs = 800000, t0; int hangMs = 40000;
    std::map<std::string, Result> res;
    explicit Master(Suite &s) : suite(s) { t0 = nowMs(); }

    static void childSetup(const std::string &errFile) {
      int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); close(n);
      int f = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(f, 2); close(f);
      std::cout.rdbuf(nullptr);
    }

    /** Body of a worker: explore the chunk */
    void work(const Scenario &s, const std::vector<Path> &chunk, int fd, int sliceMs, uint64_t maxExecs, const std::set<std::string> &known, Shared *sh) {
      Engine &e = eng();
      e.sh = sh; e.transitions = 0; e.states.clear(); e.outcomes.clear();
      std::vector<Path> stack(chunk.rbegin(), chunk.rend());
      std::string out; std::vector<std::string> samples; uint64_t twice = 0, divergent = 0, n = 0; int maxDepth = 0;
      uint64_t end = nowMs() + sliceMs;
      while (!stack.empty() && n < maxExecs) {
        Path p = stack.back(); stack.pop_back();
        Violation v; bool bad = execute(s, p, &v);
        n++;
        maxDepth = std::max(maxDepth, (int) e.ns.size());
        if (bad) {
          std::string t = traceText();
          if (known.count(v.sig)) out += "K " + v.sig + "\n" + "k " + jsonStr(v.msg) + "\n";
          else {
            out += "V " + v.sig + "\nM " + jsonStr(v.msg) + "\nT " + jsonStr(t) + "\nP " + pathStr(e.path) + "\nN " + std::to_string(n) + "\n";
            break;
          }
        }
        alternatives(p.size(), stack);
        if (n == 1 && samples.empty()) {
          samples.push_back(traceText());
          if (!bad && maxExecs > 1) { // the same path twice: the same observations?
            std::string a = traceText(); Path q = e.path, m = e.ns; uint64_t tr = e.transitions; auto oc = e.outcomes;
            Violation w; bool b2 = execute(s, q, &w); twice++;
            if (b2 || traceText() != a || e.ns != m) divergent++;
            e.transitions = tr; e.outcomes = oc;
          }
        }
        if (nowMs() >= end) break;
      }
      out += fmt("E %llu %llu %d %llu %llu\n", (unsigned long long) n, (unsigned long long) e.transitions, maxDepth, (unsigned long long) twice, (unsigned long long) divergent);
      for (auto h : e.states) out += fmt("S %llx\n", (unsigned long long) h);
      for (auto &o : e.outcomes) out += "O " + std::to_string(o.second) + " " + o.first + "\n";
      for (auto &x : samples) out += "X " + jsonStr(x) + "\n";
      for (auto &p : stack) out += "R " + pathStr(p) + "\n";
      out += "END\n";
      size_t o = 0; while (o < out.size()) { ssize_t w = write(fd, out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
      _exit(0);
    }
    void launch(Worker &w, const Scenario &s, const std::vector<Path> &chunk, int sliceMs, uint64_t maxExecs, const std::set<std::string> &known) {
      if (!w.sh) w.sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      w.sh->started = 0; w.sh->execs = 0; w.sh->depth = 0;
      w.in.clear(); w.chunk = chunk; w.busy = true;
      int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
      fflush(nullptr);
      w.pid = fork();
      if (w.pid < 0) { perror("fork"); exit(2); }
      if (w.pid == 0) { setpgid(0, 0); close(p[0]); childSetup(w.errFile); work(s, chunk, p[1], sliceMs, maxExecs, known, w.sh); }
      setpgid(w.pid, w.pid);
      close(p[1]); w.fd = p[0];
    }
    static std::string fileTail(const std::string &f, size_t n = 6000) {
      std::ifstream i(f); std::string t((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
      size_t k = t.find("ERROR: "); size_t r = t.find("runtime error: "); size_t b = std::min(k, r);
      if (b != std::string::npos) t = t.substr(b > 200 ? b - 200 : 0);
      return t.substr(0, n);
    }

    struct Found { bool is = false, error = false; std::string sig, msg, trace; Path path; uint64_t n = 0; std::vector<Path> chunk; };

    /** What the death of a worker means */
    Found death(Worker &w, int st) {
      Found f; std::string err = fileTail(w.errFile);
      int d = w.sh->depth; f.path.assign(w.sh->picks, w.sh->picks + std::min(d, MAXD)); f.n = w.sh->execs; f.chunk = w.chunk;
      f.msg = err;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { f.error = true; f.sig = "killed"; return f; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 70) { f.error = true; f.sig = "divergence"; return f; }
      f.is = true;
      size_t k;
      if ((k = err.find("AddressSanitizer: ")) != std::string::npos) f.sig = "crash:" + err.substr(k + 18, err.find_first_of(" \n:(", k + 18) - k - 18);
      else if (err.find("runtime error: ") != std::string::npos) f.sig = "crash:undefined-behaviour";
      else if (WIFSIGNALED(st)) f.sig = fmt("crash:signal-%d", WTERMSIG(st));
      else f.sig = fmt("unexpected-exit-%d", WEXITSTATUS(st));
      if (WIFSIGNALED(st)) f.msg += fmt(" (signal %d)", WTERMSIG(st)); else f.msg += fmt(" (exit status %d)", WEXITSTATUS(st));
      return f;
    }
    static void parse(Worker &w, Result &r, std::vector<Path> &rest, Found &f, bool &ended) {
      std::istringstream i(w.in); std::string l; std::string ks; ended = false;
      while (std::getline(i, l)) {
        if (l == "END") { ended = true; break; }
        if (l.size() < 2) continue;
        std::string a = l.substr(2);
        switch (l[0]) {
          case 'V': f.is = true; f.sig = a; f.chunk = w.chunk; break;
          case 'M': f.msg = a; break;
          case 'T': f.trace = a; break;
          case 'P': f.path = pathOf(a); break;
          case 'N': f.n = strtoull(a.c_str(), nullptr, 10); break;
          case 'K': ks = a; break;
          case 'k': r.known.insert({ks, a}); break;
          case 'E': { unsigned long long n, t, tw, dv; int md; sscanf(a.c_str(), "%llu %llu %d %llu %llu", &n, &t, &md, &tw, &dv);
            r.execs += n; r.transitions += t; r.maxDepth = std::max(r.maxDepth, md); r.twice += tw; r.divergent += dv; break; }
          case 'S': r.states.insert(strtoull(a.c_str(), nullptr, 16)); break;
          case 'O': { size_t k = a.find(' '); r.outcomes[a.substr(k + 1)] += strtoull(a.c_str(), nullptr, 10); break; }
          case 'X': if (r.samples.size() < 3) r.samples.push_back(a); break;
          case 'R': rest.push_back(pathOf(a)); break;
        }
      }
    }
    static void reap(Worker &w, int *st) { close(w.fd); w.fd = -1; while (waitpid(w.pid, st, 0) < 0 && errno == EINTR) {} kill(-w.pid, SIGKILL); w.busy = false; }

    /** Run one chunk to its end (bounded number of executions), alone; what it finds */
    Found runAlone(const Scenario &s, const std::vector<Path> &chunk, uint64_t maxExecs, const std::set<std::string> &known, int limitMs) {
      Worker w; w.errFile = tmp + "/alone.err";
      launch(w, s, chunk, 1000000000, maxExecs, known);
      uint64_t end = nowMs() + limitMs; bool killed = false; char buf[65536];
      while (true) {
        struct pollfd f = {w.fd, POLLIN, 0}; int r = poll(&f, 1, 500);
        if (r > 0) { ssize_t g = read(w.fd, buf, sizeof buf); if (g <= 0) break; w.in.append(buf, g); }
        if (!killed && nowMs() > end) { kill(-w.pid, SIGKILL); killed = true; }
      }
      Path cur(w.sh->picks, w.sh->picks + w.sh->depth);
      int st; reap(w, &st);
      Found f; Result dummy; std::vector<Path> rest; bool ended;
      parse(w, dummy, rest, f, ended);
      if (killed) { f.is = true; f.sig = "hang"; f.msg = fmt("no end within %d s", limitMs / 1000); f.path = cur; f.chunk = chunk; }
      else if (!ended) f = death(w, st);
      munmap(w.sh, sizeof(Shared));
      return f;
    }

    /** Confirm in fresh processes. 0: not reproduced, 1: the path alone, 2: only after what ran before it */
    int confirm(const Scenario &s, Found &f, const std::set<std::string> &known) {
      int limit = f.sig == "hang" ? 150000 : 300000;
      for (int t = 0; t < 2; t++) {
        Found g = runAlone(s, {f.path}, 1, known, limit);
        if (g.is) { f.sig = g.sig; f.msg = g.msg; if (!g.trace.empty()) f.trace = g.trace; if (!g.path.empty()) f.path = g.path; return 1; }
      }
      for (int t = 0; t < 2; t++) {
        Found g = runAlone(s, f.chunk, f.n, known, limit);
        if (g.is) { g.chunk = f.chunk; if (!g.n) g.n = f.n; f = g; return 2; }
      }
      return 0;
    }
    std::string writeReplay(const Scenario &s, const Found &f, int how) {
      mkdir(replayDir.c_str(), 0755);
      std::string fn = fmt("%s/%s-%s.replay", replayDir.c_str(), suite.id.c_str(), s.name.c_str());
      std::ofstream o(fn);
      o << "property " << suite.id << "\nscenario " << s.name << "\ntier " << (eng().thorough ? "thorough" : "quick") << "\nsignature " << f.sig << "\npath " << pathStr(f.path) << "\n";
      o << "# confirmed: " << (how == 1 ? "the path alone, in a fresh process" : how == 2 ? "the chunk below, in a fresh process" : "seen repeatedly, at different paths; not deterministic") << "\n";
      o << "execs " << f.n << "\n";
      for (auto &p : f.chunk) o << "chunk " << pathStr(p) << "\n";
      o << "message " << f.msg << "\ntrace " << f.trace << "\n";
      return fn;
    }

    int violation(const Scenario &s, Found &f, int how) {
      std::string fn = writeReplay(s, f, how);
      summary(&s, &f, fn);
      printf("violated: %s / %s: %s\n", suite.id.c_str(), s.name.c_str(), f.sig.c_str());
      std::string m = f.msg, t = f.trace;
      auto un = [](std::string x) { std::string o; for (size_t i = 0; i < x.size(); i++) if (x[i] == '\\' && i + 1 < x.size() && x[i + 1] == 'n') { o += '\n'; i++; } else o += x[i]; return o; };
      printf("%s\n%s\n", un(m).substr(0, 5000).c_str(), un(t).substr(0, 5000).c_str());
      printf("VIOLATION property=%s replay=%s\n", suite.id.c_str(), fn.c_str());
      fflush(stdout);
      return 1;
    }

    void summary(const Scenario *bad, const Found *f, const std::string &replay) {
      std::ofstream o(outFile);
      o << "{\"id\": " << jsonStr(suite.id) << ", \"scenarios\": [";
      bool first = true;
      for (auto &s : suite.sc) {
        if (!res.count(s.name)) continue;
        Result &r = res[s.name];
        o << (first ? "" : ", ") << "\n{\"name\": " << jsonStr(s.name) << ", \"what\": " << jsonStr(s.what) << ", \"executions\": " << r.execs << ", \"transitions\": " << r.transitions
          << ", \"states\": " << r.states.size() << ", \"max_choices\": " << r.maxDepth << ", \"deviation_bound\": " << (eng().thorough ? s.devThorough : s.devQuick)
          << ", \"complete\": " << (r.complete ? "true" : "false") << ", \"replayed_twice\": " << r.twice << ", \"divergent_replays\": " << r.divergent << ", \"wall_s\": " << r.wall << ", \"outcomes\": {";
        bool f1 = true; int k = 0;
        for (auto &x : r.outcomes) { if (k++ > 60) break; o << (f1 ? "" : ", ") << jsonStr(x.first) << ": " << x.second; f1 = false; }
        o << "}, \"samples\": ["; f1 = true;
        for (auto &x : r.samples) { o << (f1 ? "" : ", ") << x; f1 = false; }
        o << "], \"known\": {"; f1 = true;
        for (auto &x : r.known) { o << (f1 ? "" : ", ") << jsonStr(x.first) << ": " << x.second; f1 = false; }
        o << "}}";
        first = false;
      }
      o << "]";
      if (bad) o << ", \"violation\": {\"scenario\": " << jsonStr(bad->name) << ", \"signature\": " << jsonStr(f->sig) << ", \"replay\": " << jsonStr(replay) << "}";
      o << ", \"wall_s\": " << (nowMs() - t0) / 1000.0 << "}\n";
    }

    int explore(const Scenario &s, const std::set<std::string> &known) {
      Result &r = res[s.name];
      uint64_t ts = nowMs();
      std::vector<Path> stack(1, Path());
      std::vector<Worker> ws(jobs);
      for (int i = 0; i < jobs; i++) ws[i].errFile = tmp + "/w" + std::to_string(i) + ".err";
      std::vector<Found> pending; int unconfirmed = 0, errors = 0, rc = 0;
      bool stop = false;
      while (true) {
        bool over = nowMs() - t0 > capMs;
        int busy = 0; for (auto &w : ws) busy += w.busy;
        if (over && !stack.empty()) { r.complete = false; stack.clear(); }
        if (!stop) for (auto &w : ws) {
          if (w.busy || stack.empty()) continue;
          size_t k = std::max<size_t>(1, std::min<size_t>(256, stack.size() / (2 * jobs)));
          std::vector<Path> chunk;
          if (stack.size() > 100000) { chunk.assign(stack.end() - k, stack.end()); stack.resize(stack.size() - k); }
          else { chunk.assign(stack.begin(), stack.begin() + k); stack.erase(stack.begin(), stack.begin() + k); }
          launch(w, s, chunk, stack.size() < (size_t) 4 * jobs ? 40 : 400, ~0ull, known); w.tries = 0; busy++;
        }
        if (!busy) break;
        std::vector<struct pollfd> f; std::vector<Worker *> fw;
        for (auto &w : ws) if (w.busy) { f.push_back({w.fd, POLLIN, 0}); fw.push_back(&w); }
        poll(f.data(), f.size(), 200);
        for (size_t i = 0; i < f.size(); i++) {
          Worker &w = *fw[i];
          if (f[i].revents) {
            char buf[65536]; ssize_t g = read(w.fd, buf, sizeof buf);
            if (g > 0) { w.in.append(buf, g); continue; }
            if (g < 0 && errno == EINTR) continue;
            int st; reap(w, &st);
            Found fd; std::vector<Path> rest; bool ended;
            if (w.in.size() >= 4 && w.in.compare(w.in.size() - 4, 4, "END\n") == 0) {
              parse(w, r, rest, fd, ended);
              if (fd.is) { pending.push_back(fd); stop = true; }
              else stack.insert(stack.end(), rest.begin(), rest.end());
            } else {
              fd = death(w, st);
              if (fd.error) {
                if (++errors > 20) { fprintf(stderr, "too many worker errors: %s: %s\n", fd.sig.c_str(), fd.msg.c_str()); return 2; }
                for (auto &p : w.chunk) stack.push_back(p);
              } else { pending.push_back(fd); stop = true; }
            }
          } else if (uint64_t since = w.sh->started.load(); since && nowMs() > since + hangMs) { // read once: the worker may end meanwhile
            Found fd; fd.is = true; fd.sig = "hang"; fd.path.assign(w.sh->picks, w.sh->picks + w.sh->depth); fd.n = w.sh->execs; fd.chunk = w.chunk;
            kill(-w.pid, SIGKILL); int st; reap(w, &st);
            pending.push_back(fd); stop = true;
          }
        }
        if (stop) {
          for (auto &w : ws) if (w.busy) { kill(-w.pid, SIGKILL); int st; std::vector<Path> c = w.chunk; reap(w, &st); for (auto &p : c) stack.push_back(p); }
          for (auto &fd : pending) {
            r.wall = (nowMs() - ts) / 1000.0;
            int how = confirm(s, fd, known); if (getenv("MC_DEBUG")) fprintf(stderr, "pending %s %s how %d path %s n %llu chunk %zu\n", s.name.c_str(), fd.sig.c_str(), how, pathStr(fd.path).c_str(), (unsigned long long) fd.n, fd.chunk.size());
            if (how) { rc = violation(s, fd, how); return rc; }
            unconfirmed++;
            if (fd.sig == "hang") { hangMs *= 4; unconfirmed--; errors += 5; }
            for (auto &p : fd.chunk) stack.push_back(p);
            if (unconfirmed >= 3) { r.complete = false; return violation(s, fd, 0); }
            if (errors > 20) { fprintf(stderr, "executions too slow\n"); return 2; }
          }
          pending.clear(); stop = false;
        }
      }
      r.wall = (nowMs() - ts) / 1000.0;
      if (unconfirmed) { fprintf(stderr, "%d violation(s) that could not be reproduced\n", unconfirmed); return 2; }
      return 0;
    }
};

inline int Suite::main(int argc, char **argv) {
  Master m(*this);
  std::string replay, only; std::set<std::string> known;
  bool list = false, verbose = false; int reused = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") m.outFile = next();
    else if (a == "--replays") m.replayDir = next();
    else if (a == "--tmp") m.tmp = next();
    else if (a == "--jobs") m.jobs = atoi(next().c_str());
    else if (a == "--cap") m.capMs = 1000ull * atoi(next().c_str());
    else if (a == "--thorough") eng().thorough = true;
    else if (a == "--seed") eng().seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--known") known.insert(next());
    else if (a == "--replay") replay = next();
    else if (a == "--only") only = next();
    else if (a == "--reused") reused = 1;
    else if (a == "--not-reused") reused = 0;
    else if (a == "--list") list = true;
    else if (a == "-v") verbose = true;
  }
  if (m.outFile.empty()) m.outFile = "/dev/null";
  if (m.replayDir.empty()) m.replayDir = "/tmp";
  bool own = m.tmp.empty(); char tt[] = "/tmp/mcXXXXXX";
  if (own) m.tmp = mkdtemp(tt);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPIPE, SIG_IGN);
  int rc = 0;
  if (list) { for (auto &s : sc) printf("%s: %s\n", s.name.c_str(), s.what.c_str()); }
  else if (!replay.empty()) {
    std::ifstream in(replay); std::string l, name; Path path; std::vector<Path> chunk; uint64_t n = 1;
    while (std::getline(in, l)) {
      std::istringstream t(l); std::string k, v; t >> k >> v;
      if (k == "scenario") name = v; else if (k == "path") path = pathOf(v); else if (k == "chunk") chunk.push_back(pathOf(v));
      else if (k == "execs") n = strtoull(v.c_str(), nullptr, 10); else if (k == "tier" && v == "thorough") eng().thorough = true;
    }
    rc = 2;
    for (auto &s : sc) if (s.name == name) {
      Master::Found f; f.path = path; f.chunk = chunk; f.n = n;
      int how = m.confirm(s, f, {}); 
      if (!how) { printf("not reproduced\n"); rc = 0; }
      else { m.outFile = "/dev/null"; rc = m.violation(s, f, how); }
    }
  } else {
    for (auto &s : sc) {
      if (!only.empty() && s.name != only) continue;
      if (reused >= 0 && reused != (s.name.compare(0, 6, "reused") == 0)) continue;
      if (s.thoroughOnly && !eng().thorough) continue;
      rc = m.explore(s, known);
      Result &r = m.res[s.name];
      if (verbose) { fprintf(stderr, "%s %s: %llu executions, %llu transitions, %zu states, %zu outcomes, depth %d, %s, twice %llu/%llu, %.1f s\n", id.c_str(), s.name.c_str(), (unsigned long long) r.execs,
        (unsigned long long) r.transitions, r.states.size(), r.outcomes.size(), r.maxDepth, r.complete ? "complete" : "CAPPED", (unsigned long long) r.divergent, (unsigned long long) r.twice, r.wall);
        for (auto &o : r.outcomes) fprintf(stderr, "    %llu %s\n", (unsigned long long) o.second, o.first.c_str()); }
      if (rc) break;
    }
    if (!rc) m.summary(nullptr, nullptr, "");
  }
  for (int i = 0; i < 64; i++) unlink((m.tmp + "/w" + std::to_string(i) + ".err").c_str());
  unlink((m.tmp + "/alone.err").c_str());
  if (own) rmdir(m.tmp.c_str());
  return rc;
}

} // namespace mc
