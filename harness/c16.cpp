/* C16: fatal errors end the process with their code; others are catchable. */
#include "psi.hpp"
#include "protocolex.h"
#include "outofboundex.h"
using namespace psi;

static const std::vector<std::string> &messages() {
  static std::vector<std::string> m = {"x", "", "two words.", "two\nlines\n", std::string("with\0nul", 8), "100%s %n %d", "\xc3\xa9\xff", std::string(5000, 'm'), " ", " x ", "ends in lines \n\n", "\n", "\tx\r\n", std::string("x\0", 2), std::string("\0", 1), std::string("\0x", 2), "\x1b[0m", "%", "\\n\"'", "x ", "\x7f"};
  return m;
}
static const std::vector<int> codes = {1, 0, 2, 3, 77, 127, 128, 255, 256, 1000, -1};
struct Want { std::string msg; bool fatal; int code; bool anyMessage; };

static void holds(const Exception &e, const Want &w, const std::string &how) {
  std::string m = e.getMessage();
  if (w.anyMessage ? m.empty() : m != w.msg) mc::fail("wrong-message", how + ": getMessage() is \"" + m.substr(0, 200) + "\" instead of \"" + w.msg.substr(0, 200) + "\"");
  const char *t = e.what();
  if (!t || std::string(t) != std::string(m.c_str())) mc::fail("wrong-message", how + ": what() is \"" + (t ? t : "(null)") + "\"");
  if (e.isFatal() != w.fatal) mc::fail("wrong-fatality", how);
  if (e.getExitCode() != w.code) mc::fail("wrong-code", mc::fmt("%s: getExitCode() is %d instead of %d", how.c_str(), e.getExitCode(), w.code));
  mc::ops(4);
}
/** Raise an error of the chosen kind; args: how many of the constructor's arguments are given */
static void raise(int type, int args, const std::string &m, bool fatal, int code) {
  switch (type) {
    case 0: if (args == 0) throw Exception(); if (args == 1) throw Exception(m); if (args == 2) throw Exception(m, fatal); throw Exception(m, fatal, code);
    case 1: if (args == 0) throw ProtocolException(); if (args == 1) throw ProtocolException(m); if (args == 2) throw ProtocolException(m, fatal); throw ProtocolException(m, fatal, code);
    default: if (args == 0) throw OutOfBoundException(); if (args == 1) throw OutOfBoundException(m); throw OutOfBoundException(m, fatal);
  }
}
static const char *names[] = {"Exception", "ProtocolException", "OutOfBoundException"};

static void constructors() {
  int type = mc::choose(3), args = mc::choose(type == 2 ? 3 : 4);
  std::string m = args > 0 ? messages()[mc::choose((int) messages().size())] : "";
  bool fatal = args > 1 && mc::choose(2); int code = args > 2 ? codes[mc::choose((int) codes.size())] : 1;
  std::string how = mc::fmt("%s(\"%s\", %s, %d) with %d arguments", names[type], m.substr(0, 40).c_str(), fatal ? "fatal" : "non-fatal", code, args);
  mc::state(mc::fmt("%d %d %s %d %d", type, args, m.c_str(), fatal, code));
  Want w{m, fatal, code, type == 2 && m.empty()};
  if (!fatal) {
    int as = mc::choose(5); bool caught = false; mc::op("raise " + how + mc::fmt(", caught in way %d", as));
    mc::CaptureErr err;
    try {
      if (as == 0) { if (type == 0) { try { raise(type, args, m, fatal, code); } catch (Exception &e) { caught = true; holds(e, w, how); } }
        else if (type == 1) { try { raise(type, args, m, fatal, code); } catch (ProtocolException &e) { caught = true; holds(e, w, how); } }
        else { try { raise(type, args, m, fatal, code); } catch (OutOfBoundException &e) { caught = true; holds(e, w, how); } } }
      else if (as == 1) { try { raise(type, args, m, fatal, code); } catch (const Exception &e) { caught = true; holds(e, w, how + " as Exception"); } }
      else if (as == 2) { try { raise(type, args, m, fatal, code); } catch (std::exception &e) { caught = true; if (!w.anyMessage && std::string(e.what()) != std::string(m.c_str())) mc::fail("wrong-message", how + " as std::exception says \"" + e.what() + "\""); Exception *x = dynamic_cast<Exception *>(&e); mc::require(x, "not-an-exception", how); holds(*x, w, how + " as std::exception"); } }
      else if (as == 3) { try { raise(type, args, m, fatal, code); } catch (Exception e) { caught = true; holds(e, w, how + " by value"); } }
      else { // rethrown, stored, with another error raised and caught in between
        try { try { raise(type, args, m, fatal, code); } catch (Exception &e) { try { raise(0, 3, "another", false, 99); } catch (Exception &f) { mc::require(f.getMessage() == "another" && f.getExitCode() == 99, "wrong-message", "inner error"); } holds(e, w, how + " after another"); throw; } }
        catch (std::exception &e) { caught = true; Exception *x = dynamic_cast<Exception *>(&e); mc::require(x, "not-an-exception", how); holds(*x, w, how + " rethrown"); }
      }
    } catch (mc::Violation &) { throw; } catch (...) { mc::fail("not-catchable", how + " is not caught as its type"); }
    mc::require(caught, "not-raised", how);
    mc::outcome("catchable");
    return;
  }
  // fatal: the process ends within the construction, whatever handlers surround it
  mc::Outcome o = mc::isolate([&] {
    try { raise(type, args, m, fatal, code); } catch (...) { fputs("HANDLER-RAN", stderr); return std::string("caught"); }
    return std::string("went on");
  });
  mc::op("raise " + how + " -> " + o.show().substr(0, 60));
  if (o.kind != mc::Outcome::EXITED) { if (o.kind == mc::Outcome::RETURNED || (code & 255)) mc::fail("not-fatal", how + ": " + o.show()); }
  if (o.kind == mc::Outcome::RETURNED || o.code != (code & 255)) mc::fail("wrong-exit", mc::fmt("%s ended with %d (%s)", how.c_str(), o.code, o.show().c_str()));
  if (o.err.find("HANDLER-RAN") != std::string::npos) mc::fail("not-fatal", how + " ran a handler");
  if (o.err.find(m) == std::string::npos || (w.anyMessage && o.err.size() < 8)) mc::fail("message-lost", how + " printed \"" + o.err.substr(0, 300) + "\"");
  mc::outcome("ended");
}
/** Setters on any type through the base class; copies are independent */
static void setters(int depth) {
  int type = mc::choose(3); std::unique_ptr<Exception> e; Want w{"first", false, 1, false};
  if (type == 0) { w.code = 5; e.reset(new Exception("first", Exception::NON_FATAL, 5)); } else if (type == 1) { w.code = 6; e.reset(new ProtocolException("first", Exception::NON_FATAL, 6)); } else e.reset(new OutOfBoundException("first"));
  std::vector<std::pair<Exception, Want>> copies; std::vector<std::string> ms = {"second", "", std::string("nul\0in", 6)};
  for (int d = 0; d < depth; d++) {
    int o = mc::choose(8);
    if (o < 3) { e->setMessage(ms[o]); w.msg = ms[o]; mc::op("setMessage"); }
    else if (o == 3) { e->setFatal(); w.fatal = true; mc::op("setFatal()"); }
    else if (o == 4) { e->setFatal(false); w.fatal = false; mc::op("setFatal(false)"); }
    else if (o == 5) { e->setExitCode(-7); w.code = -7; mc::op("setExitCode(-7)"); }
    else if (o == 6) { e->setExitCode(0); w.code = 0; mc::op("setExitCode(0)"); }
    else { copies.emplace_back(*e, w); mc::op("copy"); }
    holds(*e, w, names[type]); for (auto &c : copies) holds(c.first, c.second, std::string("copy of ") + names[type]);
    mc::state(mc::fmt("%d %s %d %d %zu", type, w.msg.c_str(), w.fatal, w.code, copies.size()));
  }
  mc::outcome("set");
}
/** Several errors alive at a time keep their own messages */
static void several() {
  int a = mc::choose(3), b = mc::choose(3); std::vector<std::string> ms = messages();
  std::string m = ms[mc::choose((int) ms.size())], n = ms[mc::choose((int) ms.size())];
  auto make = [](int t, const std::string &m, int c) { std::unique_ptr<Exception> e; if (t == 0) e.reset(new Exception(m, false, c)); else if (t == 1) e.reset(new ProtocolException(m, false, c)); else { e.reset(new OutOfBoundException(m)); } return e; };
  auto e = make(a, m, 3); const char *was = e->what(); std::string text = was; auto f = make(b, n, 4);
  mc::require(std::string(was) == text, "wrong-message", "what() changed when another error was made");
  holds(*e, {m, false, a == 2 ? 1 : 3, a == 2 && m.empty()}, "first of two"); holds(*f, {n, false, b == 2 ? 1 : 4, b == 2 && n.empty()}, "second of two");
  std::exception_ptr p; try { raise(a, 1, m, false, 1); } catch (...) { p = std::current_exception(); }
  f.reset(); try { raise(b, 1, n, false, 1); } catch (...) {}
  try { std::rethrow_exception(p); } catch (Exception &x) { holds(x, {m, false, 1, a == 2 && m.empty()}, "kept in an exception pointer"); }
  mc::op("two errors"); mc::state(mc::fmt("%d %d %s %s", a, b, m.c_str(), n.c_str())); mc::outcome("two");
}
/** The library's own fatal errors */
static void fatalSites() {
  ZZ_p::init(prime(64)); int site = mc::choose(6); size_t k = 1 + mc::choose(3); Placement alg; HashBuckets<ZZ_p> t(k, 1, &alg);
  std::string marker = "after";
  mc::Outcome o = mc::isolate([&]() -> std::string {
    try {
      ZZ_p two[2] = {NTL::to_ZZ_p(1), NTL::to_ZZ_p(2)};
      switch (site) {
        case 0: t.getBucket(k); break;
        case 1: t[(size_t) -1]; break;
        case 2: t.addToBucket(NTL::to_ZZ_p(1), k); break;
        case 3: t.add(NTL::to_ZZ_p(1)); t.add(NTL::to_ZZ_p(2)); break;
        case 4: static_cast<HashTable<ZZ_p, MarkedVector<ZZ_p>> &>(t).add(two, 2); break;
        default: t.addToBucket(NTL::to_ZZ_p(1), k - 1); t.addToBucket(NTL::to_ZZ_p(1), k - 1); break;
      }
    } catch (...) { return "caught"; }
    return "went on";
  });
  mc::op(mc::fmt("fatal site %d, %zu buckets -> ", site, k) + o.show().substr(0, 100));
  if (o.kind != mc::Outcome::EXITED || o.code != 1) mc::fail("wrong-exit", mc::fmt("site %d of a table of %zu buckets: ", site, k) + o.show());
  if (o.err.size() < 20) mc::fail("message-lost", mc::fmt("site %d printed \"%s\"", site, o.err.c_str()));
  mc::state(mc::fmt("%d %zu", site, k)); mc::outcome("ended");
}
/** Refused messages: the same error whether received or sent, catchable in every way, with the process going on */
static void refused() {
  Cfg c; World w(c); w.add("Alice", "sa"); w.add("Bob", "sb"); w.c(0).authenticate(*w.cloud); w.cloud->authenticate(w.c(0));
  bool server = mc::choose(2); int t = mc::choose(12) - 2; std::string who = mc::among(std::vector<std::string>{"Nobody", "Bob", "Alice", "Cloud", ""});
  bool accepted = server ? who == "Alice" : false; if (accepted && (t == EOPSI_MESSAGE_OUTSOURCING_DATA)) {} 
  EOPSIMessage msg; msg.setType((EOPSIMessageType) t); msg.setPartyId(who); // no payload: nothing of this is acceptable
  EOPSIParty &to = server ? (EOPSIParty &) *w.cloud : (EOPSIParty &) w.c(0), &from = w.c(1);
  std::string first;
  for (int way = 0; way < 4; way++) {
    std::string got; bool fatal = true; int code = -1; bool direct = way % 2;
    auto act = [&] { EOPSIMessage m = msg; if (direct) to.receive(&m); else from.send(to, &m); };
    try { act(); mc::fail("not-refused", "a message without payload was accepted"); }
    catch (ProtocolException &e) { got = e.getMessage(); fatal = e.isFatal(); code = e.getExitCode(); mc::require(got == e.what(), "wrong-message", "what()"); mc::require(dynamic_cast<std::exception *>(&e) != nullptr, "not-an-exception", ""); }
    mc::require(!fatal, "wrong-fatality", "a refusal is fatal"); (void) code;
    if (way == 0) first = got; else if (got != first) mc::fail("wrong-message", "the same refusal says \"" + first + "\" and \"" + got + "\"");
    mc::require(!got.empty(), "message-lost", "a refusal without a message");
    mc::ops(1);
  }
  try { from.send(to, nullptr); mc::fail("not-refused", "no message at all was sent"); } catch (ProtocolException &e) { mc::require(!e.isFatal() && !e.getMessage().empty(), "wrong-message", "no message"); }
  mc::note(mc::fmt("message type %d from \"%s\" to %s: ", t, who.c_str(), server ? "server" : "client") + first); mc::state(first); mc::outcome("refused");
}
int main(int argc, char **argv) {
  install();
  mc::Suite s("C16");
  s.add("constructors", "every exception type, number of constructor arguments, message, fatality and exit code; caught in every way or ending a process", constructors);
  s.add("setters", "all sequences of 4 (thorough 5) setter calls and copies", [] { setters(mc::thorough() ? 5 : 4); });
  s.add("several", "two errors alive at a time", several);
  s.add("fatal-sites", "the library's own fatal errors", fatalSites);
  s.add("refused", "the library's own refusals, sent and received", refused);
  s.add("reusedSeveral", "`several` again where memory is handed out again at once", several);
  s.add("reusedRefused", "`refused` again where memory is handed out again at once", refused);
  return s.main(argc, argv);
}
