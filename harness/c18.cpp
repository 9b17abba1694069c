/* C18: the hash table's self-report is true. */
#include "psi.hpp"
#include <cmath>
#include <regex>
using namespace psi;
typedef HashBuckets<ZZ_p> HB;

struct Report { double k = NAN, h = NAN, total = NAN, percent = NAN, min = NAN, minAt = NAN, max = NAN, maxAt = NAN, mean = NAN, var = NAN, dev = NAN; std::vector<std::pair<long, long>> list; };
/** All numbers in a text */
static std::vector<double> numbers(const std::string &s) {
  std::vector<double> v; const char *p = s.c_str();
  while (*p) { if (isdigit((unsigned char) *p) || (*p == '-' && isdigit((unsigned char) p[1]))) { char *e; v.push_back(strtod(p, &e)); p = e; } else if (!strncmp(p, "nan", 3) && (p == s.c_str() || !isalpha((unsigned char) p[-1]))) { v.push_back(NAN); p += 3; } else p++; }
  return v;
}
static Report parse(const std::string &text) {
  Report r; std::istringstream in(text); std::string l;
  auto need = [&](const std::vector<double> &v, size_t n) { if (v.size() < n) mc::fail("unreadable", "line \"" + l + "\" of the report"); };
  while (std::getline(in, l)) {
    std::vector<double> v = numbers(l); std::string low = l; for (auto &c : low) c = (char) tolower(c);
    auto has = [&](const char *w) { return low.find(w) != std::string::npos; };
    if (has("total")) { need(v, 2); r.total = v[0]; r.percent = v[1]; }
    else if (has("minimum")) { need(v, 2); r.min = v[0]; r.minAt = v[1]; }
    else if (has("maximum")) { need(v, 2); r.max = v[0]; r.maxAt = v[1]; }
    else if (has("average")) { need(v, 1); r.mean = v[0]; }
    else if (has("variance")) { need(v, 1); r.var = v[0]; }
    else if (has("std dev")) { need(v, 1); r.dev = v[0]; }
    else if (has("buckets of size")) { need(v, 2); r.k = v[0]; r.h = v[1]; }
    else if (v.size()) { if (v.size() % 2) mc::fail("unreadable", "line \"" + l + "\" of the list"); for (size_t i = 0; i < v.size(); i += 2) r.list.push_back({(long) v[i], (long) v[i + 1]}); }
  }
  return r;
}
static bool close(double a, double b) { return fabs(a - b) <= 1e-5 * std::max(fabs(a), fabs(b)) + 1e-9; }
static void report(HB &t, const std::vector<size_t> &sz, size_t h, int full, const std::string &what) {
  std::string text; { mc::CaptureOut o; if (full == 2) t.printStats(); else t.printStats(full == 1); text = o.text(); }
  mc::op(mc::fmt("printStats(%s) of ", full == 2 ? "" : full ? "true" : "false") + what);
  Report r = parse(text); size_t k = sz.size(), total = 0, mn = sz[0], mx = sz[0];
  for (size_t s : sz) { total += s; mn = std::min(mn, s); mx = std::max(mx, s); }
  double mean = (double) total / k, var = 0; for (size_t s : sz) var += (s - mean) * (s - mean); var /= k;
  auto bad = [&](const char *sig, double got, double want) { mc::fail(sig, mc::fmt("%s: reported %g, is %g", what.c_str(), got, want)); };
  if (r.k != k) bad("wrong-buckets", r.k, k); if (r.h != h) bad("wrong-capacity", r.h, h);
  if (r.total != total) bad("wrong-total", r.total, total);
  if (!close(r.percent, 100. * total / k / h)) bad("wrong-percentage", r.percent, 100. * total / k / h);
  if (r.min != mn) bad("wrong-minimum", r.min, mn); if (r.max != mx) bad("wrong-maximum", r.max, mx);
  if (!(r.minAt >= 0 && r.minAt < k) || sz[(size_t) r.minAt] != mn) bad("wrong-minimum-bucket", r.minAt, mn);
  if (!(r.maxAt >= 0 && r.maxAt < k) || sz[(size_t) r.maxAt] != mx) bad("wrong-maximum-bucket", r.maxAt, mx);
  if (!close(r.mean, mean)) bad("wrong-mean", r.mean, mean);
  if (!close(r.var, var)) bad("wrong-variance", r.var, var);
  if (!close(r.dev, sqrt(var))) bad("wrong-deviation", r.dev, sqrt(var));
  size_t n = full == 1 ? k : std::min<size_t>(k, 30);
  if (r.list.size() != n) bad("wrong-list", r.list.size(), n);
  for (size_t i = 0; i < n; i++) if (r.list[i].first != (long) i || r.list[i].second != (long) sz[i]) mc::fail("wrong-list", mc::fmt("%s: entry %zu of the list is (%ld, %ld), the bucket holds %zu", what.c_str(), i, r.list[i].first, r.list[i].second, sz[i]));
  mc::state(what); mc::outcome(full == 1 ? "full" : "short");
}
static std::string show(const std::vector<size_t> &sz, size_t h) { std::string s = mc::fmt("capacity %zu:", h); size_t i = 0; while (i < sz.size()) { size_t j = i; while (j < sz.size() && sz[j] == sz[i]) j++; s += mc::fmt(j - i > 1 ? " %zux%zu" : " %zu", sz[i], j - i); i = j; } return s; }
static void fill(HB &t, const std::vector<size_t> &sz) { long e = 1; for (size_t i = 0; i < sz.size(); i++) for (size_t j = 0; j < sz[i]; j++) t.addToBucket(NTL::to_ZZ_p(e++), i); }
/** After concealment, and after more elements: the report follows the content */
static void contents() {
  ZZ_p::init(prime(64)); size_t top = mc::thorough() ? 6 : 5, k = 1 + mc::choose((int) top), h = 1 + mc::choose(k > 4 ? 3 : 4); std::vector<size_t> sz(k);
  HB t(k, h); for (size_t i = 0; i < k; i++) sz[i] = mc::choose((int) h + 1);
  fill(t, sz); report(t, sz, h, 2, show(sz, h)); report(t, sz, h, 1, show(sz, h));
  for (size_t i = 0; i < k; i++) if (sz[i] < h) { t.addToBucket(NTL::to_ZZ_p(999), i); sz[i]++; report(t, sz, h, 0, show(sz, h) + " (added one)"); break; }
  ZZpPRF prf(ZZ_p::modulus()); t.conceal(prf); std::fill(sz.begin(), sz.end(), h); report(t, sz, h, 0, show(sz, h) + " (concealed)");
}
/** Larger tables: one or two buckets differ from the rest */
static void large() {
  ZZ_p::init(prime(64)); size_t k = mc::among(std::vector<size_t>{6, 9, 10, 28, 29, 30, 31, 32, 33, 59, 60, 61, 100}); std::vector<size_t> sz(k); size_t h = mc::among(std::vector<size_t>{3, 7, 40});
  size_t base = mc::among(std::vector<size_t>{0, 1, 2}); std::fill(sz.begin(), sz.end(), base);
  size_t i = mc::choose((int) k); sz[i] = mc::among(std::vector<size_t>{0, 1, 3}); if (mc::choose(2)) { size_t j = k - 1 - i; sz[j] = h; }
  if (mc::choose(2)) for (size_t x = 0; x < k; x += 3) sz[x] = x % (h + 1);
  HB t(k, h); fill(t, sz); int full = mc::choose(3); report(t, sz, h, full, show(sz, h));
}
/** Much larger ones */
static void huge() {
  ZZ_p::init(prime(64)); struct S { size_t k, h; }; S x = mc::among(mc::thorough() ? std::vector<S>{{1, 66000}, {2, 300000}, {255, 300}, {256, 3}, {257, 3}, {300, 257}, {1000, 5}, {66000, 2}, {1025, 129}} : std::vector<S>{{1, 66000}, {255, 30}, {256, 3}, {257, 3}, {300, 257}, {1000, 5}, {4097, 2}}); int pattern = mc::choose(6); std::vector<size_t> sz(x.k);
  for (size_t i = 0; i < x.k; i++) switch (pattern) { case 0: sz[i] = x.h; break; case 1: sz[i] = i % (x.h + 1); break; case 2: sz[i] = i + 1 == x.k ? x.h : 1; break; case 3: sz[i] = i == x.k / 2 ? 0 : x.h; break; case 4: sz[i] = (x.k - i) * x.h / (x.k + 1); break; default: sz[i] = i == 29 || i == 30 ? x.h : x.h / 2; }
  HB t(x.k, x.h); fill(t, sz); for (int full = 0; full < 3; full++) report(t, sz, x.h, full, show(sz, x.h));
}
/** Tables one after another and by turns, all reported every time */
static void succession() {
  ZZ_p::init(prime(64)); size_t k = mc::among(std::vector<size_t>{1, 2, 31, 70, 300}), h = 3; int depth = mc::thorough() ? 5 : 4; std::unique_ptr<HB> t[2]; std::vector<size_t> sz[2]; std::string hst = mc::fmt("%zu:", k); ZZpPRF prf(ZZ_p::modulus());
  for (int i = 0; i < 2; i++) { t[i].reset(new HB(k, h)); sz[i].assign(k, 0); }
  for (int d = 0; d < depth; d++) {
    int i = mc::choose(2), o = mc::choose(6); hst += mc::fmt(" %d/%d", i, o); std::vector<size_t> n(k, 0);
    switch (o) {
      case 0: case 1: case 2: for (size_t j = 0; j < k; j++) n[j] = o == 0 ? 1 : o == 1 ? (j == 0) * 2 + (j + 1 == k) * 1 : (j == k / 2) * 3 + (j == 0) * (k > 2 ? k - 3 > h ? h : k - 3 : 0); t[i].reset(); t[i].reset(new HB(k, h)); fill(*t[i], n); sz[i] = n; break; // replaced by another
      case 3: for (size_t j = k; j-- > 0;) if (sz[i][j] < h) { t[i]->addToBucket(NTL::to_ZZ_p(77), j); sz[i][j]++; break; } break;
      case 4: for (size_t j = 0; j < k; j++) if (sz[i][j] < h) { t[i]->addToBucket(NTL::to_ZZ_p(78), j); sz[i][j]++; break; } break;
      case 5: t[i]->conceal(prf); sz[i].assign(k, h); break;
    }
    for (int j = 0; j < 2; j++) report(*t[(i + j) % 2], sz[(i + j) % 2], h, 2, hst + " " + show(sz[(i + j) % 2], h));
  }
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C18");
  s.add("contents", "all bucket sizes of tables of 1-5 (thorough 6) buckets with capacity 1-4, then one more element, then concealment", contents);
  s.add("large", "tables of 6-100 buckets with up to two buckets (or every third) unlike the others, short and full reports", large);
  s.add("huge", "7 (thorough 9) tables to 4097 (66000) buckets and 66000 (300000) entries a bucket, 6 patterns", huge);
  s.add("succession", "two tables of 1-300 buckets: all sequences of 4 (thorough 5) replacements by one of 3 others, additions at either end and concealments of either, both reported after each", succession);
  s.add("reusedSuccession", "`succession` again where memory is handed out again at once", succession);
  s.add("reusedContents", "`contents` again where memory is handed out again at once", contents);
  s.add("reusedLarge", "`large` again where memory is handed out again at once", large);
  return s.main(argc, argv);
}
