/* C21: the utility programs deliver what they announce. */
#include "psi.hpp"
#include <cmath>
#include <getopt.h>
#include "refhash.hpp"
int cherpars_main(int, char **); int zzrndgen_main(int, char **); int eopsisimul_main(int, char **); int hbtest_main(int, char **); int polyfact_main(int, char **);

/** The program's standard output, run in a process of its own */
static mc::Outcome run(int (*prog)(int, char **), const char *name, const std::vector<std::string> &args) {
  std::string cmd = name; for (auto &a : args) cmd += " " + a; mc::op(cmd);
  return mc::isolate([&]() -> std::string {
    std::vector<char *> v; std::string n = name; v.push_back(&n[0]); std::vector<std::string> copy = args; for (auto &a : copy) v.push_back(&a[0]); v.push_back(nullptr);
    optind = 1; mc::CaptureOut o; int rc = 0; try { rc = prog((int) v.size() - 1, v.data()); } catch (std::exception &e) { fprintf(stderr, "uncaught: %s\n", e.what()); signal(SIGABRT, SIG_DFL); abort(); } if (rc) { std::cerr.flush(); _exit(rc); } return o.text();
  });
}
static double after(const std::string &t, const char *label) { size_t p = t.find(label); if (p == std::string::npos) return NAN; p = t.find('=', p); return p == std::string::npos ? NAN : strtod(t.c_str() + p + 1, nullptr); }
/** Chernoff bound (base-two logarithm) on the probability that some of k buckets gets more than l, mu expected in each */
static double bound(double k, double l, double mu) { double s = l / mu - 1.; return log2(k) + mu * (s - (1 + s) * log(1 + s)) / log(2.); }

static void sizes() {
  long n = 1 + mc::choose(mc::thorough() ? 26 : 22); std::vector<std::string> ps = {"-40", "-1", "-10.5", "-80", "-0.01", "-200"}; std::string p = ps[mc::choose((int) ps.size())]; long l = 1 + mc::choose(mc::thorough() ? 300 : 130);
  {
    mc::Outcome o = run(cherpars_main, "cherpars", {"-l", mc::str(l), "-n", mc::str(n), "-p", p}), q = run(cherpars_main, "cherpars", {"-l", mc::str(l), "-n", mc::str(n), "-p", p, "-q"});
    std::string what = mc::fmt("cherpars -l %ld -n %ld -p %s", l, n, p.c_str()); double N = ldexp(1., (int) n), target = atof(p.c_str());
    if (!o.orderly() || !q.orderly()) mc::fail("utility-crash", what + ": " + o.show() + q.show());
    if (o.kind == mc::Outcome::EXITED) { mc::require(o.code != 0, "utility-crash", what); mc::outcome("says no"); return; }
    double k = after(o.text, "Size of hash table"), b = after(o.text, "Size of bucket"), P = after(o.text, "Overflow probability"), T = after(o.text, "Target probability");
    if (q.kind != mc::Outcome::RETURNED || atof(q.text.c_str()) != k) mc::fail("wrong-quiet", what + ": quietly says " + q.text);
    mc::require(b == l, "wrong-announcement", what + ": bucket size");
    if (!(fabs(log2(T) - target) < 1e-3 || (T == 0 && target < -1000))) mc::fail("wrong-announcement", mc::fmt("%s: target %g", what.c_str(), T));
    if (k * l < N) mc::fail("no-room", mc::fmt("%s: %g buckets of %ld for %g elements", what.c_str(), k, l, N));
    mc::state(what); mc::ops(1);
    bool said = o.text.find("not met") != std::string::npos || o.err.size(); if (said) { mc::outcome("says not met"); return; }
    if (!(P <= T * (1 + 1e-5)) || bound(k, l, N / k) > target + 1e-3) {
      // is there any number of expected elements per bucket (at least one) that would do?
      bool possible = false; for (long mu = l; mu >= 1 && !possible; mu--) possible = bound(ceil(N / mu), l, mu) <= target;
      mc::fail(possible ? "target-missed" : "cherpars-unreachable-target-not-said", mc::fmt("%s announces %g buckets with overflow probability %g for the target %g (bound 2^%.2f)", what.c_str(), k, P, T, bound(k, l, N / k)));
    }
    mc::outcome("within target");
  }
}
static void numbers() {
  static const std::vector<long> bitsV = {1, 2, 7, 8, 9, 31, 32, 33, 64, 80, 127, 128, 129, 256, 257, 1000}; long n = mc::choose(mc::thorough() ? 130 : 42), bits = bitsV[mc::choose((int) bitsV.size())];
  if (mc::choose(2)) { if (n % 6) return; n = n * 37 + 1000; }
  const char *tmp = getenv("EOPSI_TMP"); std::string f = mc::fmt("%s/zz-%d-%ld-%ld.dat", tmp ? tmp : "/tmp", (int) getpid(), n, bits);
  mc::Outcome o = run(zzrndgen_main, "zzrndgen", {"-n", mc::str(n), "-b", mc::str(bits), "-o", f});
  std::string what = mc::fmt("zzrndgen -n %ld -b %ld", n, bits), text; { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); text = s.str(); } unlink(f.c_str());
  mc::state(what);
  if (!o.orderly()) mc::fail(n >= 1 && n <= 9 ? "zzrndgen-crashes-below-10" : "utility-crash", what + ": " + o.show());
  if (o.kind == mc::Outcome::EXITED) { mc::require(o.code != 0 && n < 10, "wrongly-refused", what + ": " + o.show()); mc::outcome("refused"); return; }
  std::istringstream in(text); std::string t; std::vector<std::string> v; while (in >> t) v.push_back(t);
  if (v.size() != (size_t) n + 2 || v[0] != mc::str(bits) || v[1] != mc::str(n)) mc::fail("wrong-file", mc::fmt("%s: %zu numbers, beginning with %s", what.c_str(), v.size(), v.empty() ? "nothing" : v[0].c_str()));
  std::set<std::string> distinct; long widest = 0;
  for (size_t i = 2; i < v.size(); i++) { for (char c : v[i]) mc::require(isdigit((unsigned char) c), "wrong-number", what + ": " + v[i]); NTL::ZZ z = NTL::conv<NTL::ZZ>(v[i].c_str()); if (NTL::NumBits(z) > bits) mc::fail("wrong-number", what + ": " + v[i] + " is too wide"); widest = std::max(widest, NTL::NumBits(z)); distinct.insert(v[i]); }
  if (n >= 40 && (widest < bits - 20 || (bits >= 64 && distinct.size() != (size_t) n))) mc::fail("not-random", mc::fmt("%s: %zu distinct numbers, the widest of %ld bits", what.c_str(), distinct.size(), widest));
  mc::ops(n); mc::outcome("file");
}
/** The simulation of the whole protocol: its verdict */
static void simulation() {
  struct T { long k, l; }; T t = mc::among(std::vector<T>{{1, 8}, {3, 8}, {40, 9}, {2, 20}}); struct F { long b, p; }; F f = mc::among(std::vector<F>{{16, 64}, {32, 113}, {10, 160}, {100, 300}, {16, 16}, {16, 17}, {16, 18}});
  long n = 1 + mc::choose(mc::thorough() ? 8 : 6), r = mc::choose((int) n + 1); mc::env().timeNow = 1600000000 + mc::choose(mc::thorough() ? 6 : 2); bool small = f.p < f.b + 2, noisy = f.p < f.b + 40; if (noisy && (t.k != 3 || n > 2)) return;
  std::vector<std::string> args = {"-k", mc::str(t.k), "-l", mc::str(t.l), "-b", mc::str(f.b), "-p", mc::str(f.p), "-n", mc::str(n), "-r", mc::str(r)};
  mc::Outcome o = run(eopsisimul_main, "eopsisimul", args); std::string what = "eopsisimul"; for (auto &a : args) what += " " + a; mc::state(what + mc::fmt(" at %ld", mc::env().timeNow)); mc::ops(1);
  if (!o.orderly()) mc::fail(small ? "eopsisimul-aborts-without-padding-room" : "utility-crash", what + ": " + o.show());
  if (small) { mc::require(o.kind == mc::Outcome::EXITED && o.code, "not-refused", what); mc::outcome("refused"); return; }
  mc::require(o.kind == mc::Outcome::RETURNED, "utility-crash", what + ": " + o.show()); // there is room for all the elements in every bucket
  size_t at = o.text.find("Size of intersection: "); mc::require(at != std::string::npos, "wrong-announcement", what); long card = atol(o.text.c_str() + at + 22);
  if (card < r || card > n) mc::fail("wrong-announcement", mc::fmt("%s: %ld common elements", what.c_str(), card));
  if (noisy) { mc::outcome("hardly any padding"); return; } // chance decides
  if (o.text.find("correct.") == std::string::npos || o.text.find("WRONG") != std::string::npos) mc::fail("wrong-verdict", what + ": " + o.text.substr(o.text.find("Checking protocol") == std::string::npos ? 0 : o.text.find("Checking protocol"), 200));
  mc::outcome("correct");
}
/** The hash table program's statistics against tables of our own */
static void tables() {
  long k = mc::among(std::vector<long>{1, 2, 3, 7, 29, 64}), l = mc::among(std::vector<long>{12, 40}), n = mc::among(std::vector<long>{1, 2, 5, 12}), bits = mc::among(std::vector<long>{8, 64, 200}); int alg = mc::choose(4), stride = 1 + mc::choose(3);
  static const char *names[] = {nullptr, "MH3", "SHA1", "SHA256"}; const char *tmp = getenv("EOPSI_TMP"); std::string f = mc::fmt("%s/hb-%d.dat", tmp ? tmp : "/tmp", (int) getpid());
  NTL::ZZ mod = NTL::power2_ZZ(bits); std::vector<NTL::ZZ> v; { std::ofstream o(f); o << bits << " " << n << "\n"; for (long i = 0; i < n; i++) { NTL::ZZ z = NTL::power(NTL::to_ZZ(1000003), i * stride) % mod; v.push_back(z); o << z << "\n"; } }
  std::vector<std::string> args = {"-k", mc::str(k), "-l", mc::str(l), "-i", f}; if (alg) { args.push_back("-a"); args.push_back(names[alg]); }
  mc::Outcome o = run(hbtest_main, "hbtest", args); unlink(f.c_str()); std::string what = mc::fmt("hbtest -k %ld -l %ld -a %s, %ld numbers of %ld bits", k, l, alg ? names[alg] : "(default)", n, bits); mc::state(what + mc::str(stride)); mc::ops(1);
  if (o.kind != mc::Outcome::RETURNED) mc::fail("utility-crash", what + ": " + o.show());
  std::vector<long> size(k, 0); NTL::ZZ_p::init(mod); std::unique_ptr<HashAlgorithm<NTL::ZZ_p>> h; if (alg < 2) h.reset(new MurmurHash3(1234567890)); else h.reset(new SHAZZp(alg == 2 ? SHA1_FLAVOUR : SHA256_FLAVOUR));
  for (auto &z : v) { NTL::ZZ_p e; NTL::conv(e, z); const byte *d = h->hash(e); size[NTL::ZZFromBytes(d, h->hashSize()) % k]++; }
  auto num = [&](const char *label) { size_t p = o.text.find(label); if (p == std::string::npos) return (double) NAN; return strtod(o.text.c_str() + p + strlen(label), nullptr); };
  double mn = *std::min_element(size.begin(), size.end()), mx = *std::max_element(size.begin(), size.end()), m = (double) n / k, var = 0; for (long s : size) var += (s - m) * (s - m) / k;
  auto same = [&](const char *label, double want) { double got = num(label); if (!(fabs(got - want) <= 1e-4 * (fabs(want) + 1e-3))) mc::fail("wrong-announcement", mc::fmt("%s: %s %g, should be %g", what.c_str(), label, got, want)); };
  same("N =", n); same(" min =", mn); same(" max =", mx); same(" m =", m); same(" v =", var); same(" d =", sqrt(var));
  mc::outcome("statistics");
}
/** The factoring experiments: what is announced is consistent */
static void experiments() {
  long n = mc::among(std::vector<long>{1, 5, 9, 10, 11, 25}), d = mc::among(std::vector<long>{0, 1, 2, 7}), b = mc::among(std::vector<long>{20, 64, 113}); bool quiet = mc::choose(2); std::vector<std::string> args = {"-n", mc::str(n), "-d", mc::str(d), "-b", mc::str(b)}; if (quiet) args.push_back("-q");
  mc::Outcome o = run(polyfact_main, "polyfact", args); std::string what = mc::fmt("polyfact -n %ld -d %ld -b %ld%s", n, d, b, quiet ? " -q" : ""); mc::state(what); mc::ops(1);
  if (!o.orderly()) mc::fail(!quiet && n < 10 ? "polyfact-crashes-below-10" : "utility-crash", what + ": " + o.show());
  mc::require(o.kind == mc::Outcome::RETURNED, "utility-crash", what + ": " + o.show());
  std::vector<double> v; if (quiet) { std::istringstream i(o.text); double x; while (i >> x) v.push_back(x); }
  else { mc::require(o.text.find(mc::fmt("Number of experiments = %ld", n)) != std::string::npos && o.text.find(mc::fmt("Degree = %ld", d)) != std::string::npos, "wrong-announcement", what); size_t p = o.text.find("-- Factorisation"); mc::require(p != std::string::npos, "wrong-announcement", what); for (const char *l : {"Avg:", "StdDev:", "Min:", "Max:", "Total:"}) { size_t q = o.text.find(l, p); v.push_back(q == std::string::npos ? NAN : strtod(o.text.c_str() + q + strlen(l), nullptr)); } }
  if (v.size() != 5 || !(v[2] <= v[0] * (1 + 1e-4) && v[0] <= v[3] * (1 + 1e-4) && v[1] >= 0 && v[1] <= v[3] - v[2] + 1e-4 && fabs(v[4] * 1000 - v[0] * n) <= 1e-3 * v[0] * n + 2e-3)) mc::fail("wrong-announcement", what + ": " + o.text);
  mc::outcome("consistent");
}
int main(int argc, char **argv) {
  psi::install();
  mc::Suite s("C21");
  s.add("sizes", "the table-sizing program for bucket sizes 1-130 (thorough 400), 2^1 to 2^22 (2^26) elements and six targets", sizes);
  s.add("numbers", "the number generator for 0-41 (0-129) and some thousand numbers of 1-1000 bits", numbers);
  s.add("simulation", "the protocol simulation for 1-6 (1-8) elements, every number of guaranteed common ones, four table shapes, seven fields and 2 (6) times of day", simulation);
  s.add("tables", "the hash table program for six table lengths, two capacities, four amounts of numbers, three widths and all algorithms, against a table of our own", tables);
  s.add("experiments", "the factoring program for six numbers of experiments, four degrees, three widths, quiet or not: consistent statistics", experiments);
  return s.main(argc, argv);
}
