// C18: logging: exact filtering, content, once/throttle semantics, formats, and delivery under concurrent logging and reconfiguration; run under ThreadSanitizer and AddressSanitizer.
#include <Eigen/Dense>
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include "common.hpp"
#include <sm_logging/logging.hpp>
#include <sm_logging/logging/StdOutLogger.hpp>
#include <sm_logging/logging/Formatter.hpp>
using namespace vf; namespace lg = sm::logging;
VF_MAIN
struct Ev { std::string stream, file, function, message, time; int level, line; };
struct Capture : lg::Logger {   // the monitor: records every delivered event; the record itself is deliberately unprotected
  std::vector<Ev>* ev; std::atomic<int>* inside; std::atomic<int>* overlaps; long us = 0; int mode = 0, delay = 0; std::vector<long>* threadsSeen = nullptr;
  Capture(std::vector<Ev>* e, std::atomic<int>* i, std::atomic<int>* o) : ev(e), inside(i), overlaps(o) {}
  Time currentTimeImplementation() const override { return us < 0 ? lg::Logger::currentTimeImplementation() : Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds(us))); }
  void logImplementation(const lg::LoggingEvent& e) override {
    if (++*inside != 1) ++*overlaps;
    ev->push_back(Ev{e.streamName, e.file, e.function, e.message, e.timestring, int(e.level), e.line});
    if (delay) std::this_thread::yield();
    if (mode == 1) SM_FATAL_STREAM("a message from inside the logger"); if (mode == 2) SM_FATAL("a message from inside the logger %d", 7);
    --*inside; if (mode == 3) throw std::runtime_error("the logger failed");
  }
};
struct Quiet { boost::shared_ptr<lg::Logger> old; lg::Level level; Quiet() : old(lg::getLogger()), level(lg::getLevel()) {} ~Quiet() { lg::setLogger(old); lg::setLevel(level); lg::enableNamedStream("sm"); } };
// every generated macro of every level, in several instances with their own static locations
struct Site { int line; std::string function; int evaluatedCond = 0, evaluatedArgs = 0; };
static const char* kNames[4] = {"alpha", "beta", "gamma.delta", ""};
static std::string count(Site& s, const std::string& m) { ++s.evaluatedArgs; return m; }
static bool cnd(Site& s, bool c) { ++s.evaluatedCond; return c; }
template <int N, int L> struct Fire { static void fire(int, Site&, bool, const std::string&, double) {} };
#define SITES(L, LEVEL) template <int N> struct Fire<N, L> { static void fire(int form, Site& s, bool c, const std::string& m, double rate) { s.line = __LINE__; s.function = __PRETTY_FUNCTION__; const char* nm = kNames[(L + N) % 3]; switch (form) { \
  case 0: SM_##LEVEL("%s", count(s, m).c_str()); break; case 1: SM_##LEVEL##_STREAM(count(s, m)); break; \
  case 2: SM_##LEVEL##_NAMED(nm, "%s", count(s, m).c_str()); break; case 3: SM_##LEVEL##_STREAM_NAMED(nm, count(s, m)); break; \
  case 4: SM_##LEVEL##_COND(cnd(s, c), "%s", count(s, m).c_str()); break; case 5: SM_##LEVEL##_STREAM_COND(cnd(s, c), count(s, m)); break; \
  case 6: SM_##LEVEL##_COND_NAMED(cnd(s, c), nm, "%s", count(s, m).c_str()); break; case 7: SM_##LEVEL##_STREAM_COND_NAMED(cnd(s, c), nm, count(s, m)); break; \
  case 8: SM_##LEVEL##_ONCE("%s", count(s, m).c_str()); break; case 9: SM_##LEVEL##_STREAM_ONCE(count(s, m)); break; \
  case 10: SM_##LEVEL##_ONCE_NAMED(nm, "%s", count(s, m).c_str()); break; case 11: SM_##LEVEL##_STREAM_ONCE_NAMED(nm, count(s, m)); break; \
  case 12: SM_##LEVEL##_THROTTLE(rate, "%s", count(s, m).c_str()); break; case 13: SM_##LEVEL##_STREAM_THROTTLE(rate, count(s, m)); break; \
  case 14: SM_##LEVEL##_THROTTLE_NAMED(rate, nm, "%s", count(s, m).c_str()); break; case 15: SM_##LEVEL##_STREAM_THROTTLE_NAMED(rate, nm, count(s, m)); break; } } };
SITES(0, ALL) SITES(1, FINEST)
SITES(2, VERBOSE) SITES(3, FINER)
SITES(4, TRACE) SITES(5, FINE)
SITES(6, DEBUG) SITES(7, INFO)
SITES(8, WARN) SITES(9, ERROR)
SITES(10, FATAL)
typedef void (*FireFn)(int, Site&, bool, const std::string&, double);
template <int N> static void row(std::vector<std::vector<FireFn>>& t) { t.push_back({&Fire<N, 0>::fire, &Fire<N, 1>::fire, &Fire<N, 2>::fire, &Fire<N, 3>::fire, &Fire<N, 4>::fire, &Fire<N, 5>::fire, &Fire<N, 6>::fire, &Fire<N, 7>::fire, &Fire<N, 8>::fire, &Fire<N, 9>::fire, &Fire<N, 10>::fire}); }
static std::vector<std::vector<FireFn>>& table() { static std::vector<std::vector<FireFn>> t; if (t.empty()) { row<0>(t); row<1>(t); row<2>(t); row<3>(t); } return t; }
static std::string text(Rng& g) { int n = g.pick(std::vector<int>{0, g.i(1, 60), g.i(60, 600), 4094, 4095, 4096, 4097, g.i(3000, 6000), g.i(6000, 30000)}); if (g.b(0.7)) n = g.i(0, 40); std::string s; for (int k = 0; k < n; ++k) s += g.b(0.05) ? '%' : g.b(0.02) ? '\n' : char(g.i(32, 126)); return s; }
static std::map<int, bool> onceHit; static std::map<int, double> lastHit;   // the model of the static state, kept since the start of the process
VF_GROUP(filter, 260, 20000) {
  Quiet q; std::vector<Ev> ev; std::atomic<int> inside{0}, overlaps{0}; boost::shared_ptr<Capture> cap(new Capture(&ev, &inside, &overlaps)); lg::setLogger(cap); static long now = 1700000000L * 64;
  mon().check("C18.log.logger", lg::getLogger().get() == cap.get(), "getLogger() does not return the logger set"); lg::setLogger(boost::shared_ptr<lg::Logger>()); mon().check("C18.log.logger", lg::getLogger().get() == cap.get(), "setting no logger replaced the logger");
  std::set<std::string> on{"sm"}; for (auto n : kNames) lg::disableNamedStream(std::string("sm.") + n); lg::enableNamedStream("sm"); lg::setLevel(lg::levels::Info); int level = 7; uint64_t h = 5; int delivered = 0, dropped = 0;
  for (int step = rng.i(20, 120); step > 0; --step) {
    int op = rng.i(0, 19);
    if (op == 0) { level = rng.i(0, 10); lg::setLevel(lg::Level(level)); mon().check("C18.log.level", lg::getLevel() == level, "getLevel() does not return the level set"); continue; }
    if (op <= 2) { std::string n = rng.b(0.3) ? std::string("sm") : std::string("sm.") + kNames[rng.i(0, 2)]; if (rng.b(0.6)) { lg::enableNamedStream(n); on.insert(n); } else { lg::disableNamedStream(n); on.erase(n); } for (auto m : {"sm", "sm.alpha", "sm.beta", "sm.gamma.delta"}) mon().check("C18.log.streams", lg::isNamedStreamEnabled(m) == (on.count(m) > 0), std::string("isNamedStreamEnabled ") + m); continue; }
    if (op == 3) { now += rng.pick(std::vector<long>{0, 1, 32, 64, 640}); continue; }
    int L = rng.b(0.5) ? std::max(0, std::min(10, level + rng.i(-1, 1))) : rng.i(0, 10), N = rng.i(0, 3), form = rng.i(0, 15), id = (N * 11 + L) * 16 + form; bool c = rng.b(0.6); double rate = rng.i(0, 200) / 64.0; std::string m = text(rng); Site s; cap->us = now * 15625; double t = now / 64.0;
    bool named = form == 2 || form == 3 || form == 6 || form == 7 || form == 10 || form == 11 || form >= 14; std::string stream = named ? std::string("sm.") + kNames[(L + N) % 3] : "sm"; bool want = L >= level && on.count(stream); int wantCond = form >= 4 && form < 8 && want;
    if (form >= 4 && form < 8) want = want && c; if (want && form >= 8 && form < 12) { want = !onceHit[id]; onceHit[id] = true; } if (want && form >= 12) { want = lastHit[id] + rate <= t; if (want) lastHit[id] = t; }
    size_t before = ev.size(); table()[N][L](form, s, c, m, rate); size_t got = ev.size() - before; std::string what = "level " + std::to_string(L) + " form " + std::to_string(form) + " at level " + std::to_string(level) + ": ";
    mon().check(got > (want ? 1 : 0) ? "C18.log.unwanted" : "C18.log.missing", got == (want ? 1 : 0), what + std::to_string(got) + " events instead of " + (want ? "1" : "0"));
    mon().check("C18.log.lazy", s.evaluatedArgs == (want ? 1 : 0) && s.evaluatedCond == wantCond, what + "the arguments were evaluated " + std::to_string(s.evaluatedArgs) + " times, the condition " + std::to_string(s.evaluatedCond) + " times");
    if (got == 1 && want) { const Ev& e = ev.back(); mon().check("C18.log.message", e.message == m, what + "message of length " + std::to_string(e.message.size()) + " instead of " + std::to_string(m.size())); mon().check("C18.log.origin", e.stream == stream && e.level == L && e.line == s.line && e.function == s.function && e.file == __FILE__, what + "stream " + e.stream + ", level " + std::to_string(e.level) + ", line " + std::to_string(e.line)); char b[64]; snprintf(b, 64, "%.6f", t); mon().check("C18.log.time", e.time == b, what + "time " + e.time + " instead of " + b); ++delivered; } else ++dropped;
    h = hmix(h, uint64_t(id * 2 + want)); }
  mon().check("C18.log.serial", overlaps == 0, "nested logger calls"); mon().evaluation(h); if (delivered) mon().tag("delivered"); if (dropped) mon().tag("filtered");
}
VF_GROUP(resilience, 40, 2000) {   // a logger that logs or throws neither deadlocks nor spoils later messages
  Quiet q; std::vector<Ev> ev; std::atomic<int> inside{0}, overlaps{0}; boost::shared_ptr<Capture> cap(new Capture(&ev, &inside, &overlaps)); cap->us = -1; lg::setLogger(cap); lg::enableNamedStream("sm"); lg::setLevel(lg::levels::Info); int n = rng.i(2, 8); uint64_t h = 1;
  for (int k = 0; k < n; ++k) { cap->mode = rng.i(0, 3); std::string m = text(rng); size_t before = ev.size(); bool threw = false; try { if (rng.b(0.5)) SM_WARN_STREAM(m); else SM_WARN("%s", m.c_str()); } catch (...) { threw = true; } mon().check("C18.log.resilient", !threw && ev.size() == before + 1 && ev.back().message == m, "a logger with behaviour " + std::to_string(cap->mode) + " received " + std::to_string(ev.size() - before) + " messages for one"); h = hmix(h, cap->mode); 
    double t = cap->currentTimeSecondsUtc(), w = std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); mon().check("C18.log.clock", std::abs(t - w) < 5, "the logger's time differs from the system time"); }
  mon().evaluation(h);
}
static std::string sev(int l) { static const char* n[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"}; return n[l]; }
VF_GROUP(formats, 400, 40000) {
  std::string fmt, want; int L = rng.i(0, 10), line = rng.i(1, 5000); std::string msg = text(rng), st = "sm." + std::to_string(rng.i(0, 99)), file = "/a/b/" + std::to_string(rng.i(0, 99)) + ".cpp", fn = "int f(" + std::to_string(rng.i(0, 9)) + ")", tm = std::to_string(rng.i(0, 99999)) + ".25"; std::ostringstream tid; tid << boost::this_thread::get_id(); bool viaEnv = rng.b(0.5), color = rng.b(0.5); std::map<std::string, std::string> extra; if (rng.b(0.7)) extra["extra"] = "x" + std::to_string(rng.i(0, 99)); if (rng.b(0.3)) extra["Host"] = "${message}";
  for (int k = rng.i(0, 7); k > 0; --k) { if (rng.b(0.5)) { std::string lit; for (int c = rng.i(1, 6); c > 0; --c) lit += rng.pick(std::vector<char>{'[', ']', ' ', ':', '$', '{', '}', 'a', '%', '\\', '|', '7'}); if (lit.find("${") != std::string::npos || lit.back() == '$' || lit.find('a') != std::string::npos) lit = "[" + std::to_string(rng.i(0, 99)) + "]"; fmt += lit; want += lit; } 
    int t = rng.i(0, 10); static const char* tn[] = {"severity", "message", "time", "thread", "file", "line", "function", "streamname", "extra", "Host", "unknown"}; fmt += std::string("${") + tn[t] + "}"; std::string u = tn[t]; want += t == 0 ? sev(L) : t == 1 ? msg : t == 2 ? tm : t == 3 ? tid.str() : t == 4 ? file : t == 5 ? std::to_string(line) : t == 6 ? fn : t == 7 ? st : extra.count(u) ? extra[u] : "${" + u + "}"; }
  if (rng.b(0.5)) { fmt += " end"; want += " end"; }
  if (viaEnv) setenv("SMCONSOLE_FORMAT", fmt.c_str(), 1); lg::Formatter f; unsetenv("SMCONSOLE_FORMAT"); if (!viaEnv) f.init(fmt.c_str()); f.doColor_ = color; f.extra_fixed_tokens_ = extra;
  std::ostringstream o; f.print(lg::LoggingEvent(st.c_str(), lg::Level(L), file.c_str(), line, fn.c_str(), msg.c_str(), tm), o); std::string got = o.str(); if (color) { const char* col = L == 10 ? "\033[91m" : L == 9 ? "\033[31m" : L == 8 ? "\033[33m" : L == 7 ? "\033[0m" : L == 6 ? "\033[32m" : "\033[92m"; want = col + want + "\033[0m"; }
  mon().check(viaEnv ? "C18.format.environment" : "C18.format.init", got == want + "\n", "format '" + fmt + "' printed " + std::to_string(got.size()) + " characters instead of " + std::to_string(want.size() + 1) + ": '" + got.substr(0, 120) + "' instead of '" + want.substr(0, 120) + "'"); mon().evaluation(fnv(fmt)); 
}
// concurrent use
template <int N> struct Fresh { static void go(int kind, int form, const std::string& m) { switch (kind) { case 0: switch (form) { case 0: SM_WARN_STREAM(m); break; case 1: SM_WARN("%s", m.c_str()); break; case 2: SM_ERROR_STREAM_NAMED("fresh", m); break; default: SM_ERROR_NAMED("fresh", "%s", m.c_str()); } break; case 1: switch (form) { case 0: SM_WARN_STREAM_ONCE(m); break; case 1: SM_WARN_ONCE("%s", m.c_str()); break; case 2: SM_WARN_STREAM_ONCE_NAMED("fresh", m); break; default: SM_WARN_ONCE_NAMED("fresh", "%s", m.c_str()); } break; case 2: if (form & 1) SM_FINEST_STREAM(m); else SM_TRACE("%s", m.c_str()); break; case 3: if (form & 1) SM_WARN_STREAM_THROTTLE(1000.0, m); else SM_WARN_THROTTLE(1000.0, "%s", m.c_str()); break; } } };
typedef void (*FreshFn)(int, int, const std::string&);
template <int N> struct Fill { static void go(std::vector<FreshFn>& v) { Fill<N - 1>::go(v); v.push_back(&Fresh<N>::go); } }; template <> struct Fill<-1> { static void go(std::vector<FreshFn>&) {} };
static const int kFresh = 160; static std::vector<FreshFn>& fresh() { static std::vector<FreshFn> v; if (v.empty()) Fill<kFresh - 1>::go(v); return v; }
VF_GROUP(concurrent, 150, 6000) {
  Quiet q; std::vector<Ev> ev; std::atomic<int> inside{0}, overlaps{0}; boost::shared_ptr<Capture> cap(new Capture(&ev, &inside, &overlaps)), cap2(new Capture(&ev, &inside, &overlaps)); cap->us = cap2->us = 1700000000L * 1000000L; cap->delay = cap2->delay = rng.b(0.4); lg::setLogger(cap); lg::enableNamedStream("sm"); lg::enableNamedStream("sm.fresh"); lg::setLevel(lg::levels::Info);
  static int used = 0; int site = used++ % kFresh, site2 = (site * 7 + 3) % kFresh; bool firstUse = used <= kFresh; auto F = fresh()[site], G = fresh()[site2]; int T = rng.i(2, 8), per = rng.i(5, 40), form = rng.i(0, 3); bool reconf = rng.b(0.7), swap = rng.b(0.5); std::atomic<bool> go{false}, stop{false};
  std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.push_back(std::thread([&, t] { while (!go) std::this_thread::yield(); F(1, form, "once"); F(3, form, "throttled"); for (int k = 0; k < per; ++k) { (k % 2 ? F : G)(0, (t + k) % 4, "m" + std::to_string(t) + "." + std::to_string(k) + std::string((t * 37 + k * 11) % 90, char('a' + t))); F(2, k, "never"); } }));
  std::thread ctl([&] { while (!go) std::this_thread::yield(); int k = 0; while (reconf && !stop && k < 400) { switch (k % 6) { case 0: lg::enableNamedStream("sm.other"); break; case 1: lg::setLevel(lg::levels::Debug); break; case 2: lg::disableNamedStream("sm.other"); break; case 3: lg::setLevel(lg::levels::Info); break; case 4: if (swap) lg::setLogger(k % 12 < 6 ? cap2 : cap); break; case 5: lg::isNamedStreamEnabled("sm.fresh"); lg::getLevel(); break; } ++k; if (k % 3 == 0) std::this_thread::yield(); } });
  go = true; for (auto& t : th) t.join(); stop = true; ctl.join(); uint64_t h = T; std::map<std::string, int> seen; std::vector<int> last(T, -1); int once = 0, thr = 0; bool order = true;
  for (auto& e : ev) { if (e.message == "once") { ++once; continue; } if (e.message == "throttled") { ++thr; continue; } int t = -1, k = -1; if (sscanf(e.message.c_str(), "m%d.%d", &t, &k) == 2 && t >= 0 && t < T) { if (last[t] >= k) order = false; last[t] = k; h = hmix(h, t); } ++seen[e.message]; }
  int missing = 0; for (int t = 0; t < T; ++t) for (int k = 0; k < per; ++k) { auto it = seen.find("m" + std::to_string(t) + "." + std::to_string(k) + std::string((t * 37 + k * 11) % 90, char('a' + t))); if (it == seen.end()) ++missing; else { mon().check("C18.concurrent.once", it->second == 1, "a message was delivered " + std::to_string(it->second) + " times"); seen.erase(it); } }
  mon().check("C18.concurrent.missing", missing == 0, std::to_string(missing) + " of " + std::to_string(T * per) + " messages were not delivered"); mon().check("C18.concurrent.torn", seen.empty(), "delivered a message nobody sent: '" + (seen.empty() ? std::string() : seen.begin()->first.substr(0, 80)) + "'"); mon().check("C18.concurrent.order", order, "the messages of a thread are out of order"); mon().check("C18.concurrent.serial", overlaps == 0, "two threads were in the logger at once");
  if (firstUse) { mon().check("C18.concurrent.onceOnly", once == 1, std::to_string(once) + " ONCE messages from " + std::to_string(T) + " threads"); mon().check("C18.concurrent.throttle", thr == 1, std::to_string(thr) + " THROTTLE messages in one period from " + std::to_string(T) + " threads"); } mon().evaluation(h); if (reconf) mon().tag("reconfigured while logging"); if (swap && reconf) mon().tag("logger replaced while logging");
}
VF_GROUP(standardOutput, 40, 2000) {   // lines of concurrent threads stay whole with the default logger
  Quiet q; std::ostringstream o; boost::shared_ptr<lg::StdOutLogger> l(new lg::StdOutLogger); l->formatter.doColor_ = rng.b(0.5); lg::setLogger(l); lg::enableNamedStream("sm"); lg::setLevel(lg::levels::Info); int T = rng.i(2, 6), per = rng.i(3, 15); std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.push_back(std::thread([&, t] { for (int k = 0; k < per; ++k) { std::string m = "<" + std::to_string(t) + ":" + std::to_string(k) + std::string(20 + t * 5, char('A' + t)) + ">"; if (k % 2) SM_INFO_STREAM(m); else SM_ERROR("%s", m.c_str()); } })); for (auto& t : th) t.join(); std::cout.rdbuf(old);
  std::istringstream in(o.str()); std::string line; int lines = 0, bad = 0; std::set<std::string> got; while (std::getline(in, line)) { ++lines; std::string a = l->formatter.doColor_ ? "\033[" : ""; size_t p = line.find("]: <"), e = line.find(">"); if (p == std::string::npos || e == std::string::npos || line.compare(0, a.size(), a) || line.find("[ INFO] [") == std::string::npos && line.find("[ERROR] [") == std::string::npos || e + 1 + (l->formatter.doColor_ ? 4 : 0) != line.size()) ++bad; else got.insert(line.substr(p + 3, e - p - 2)); }
  mon().check("C18.stdout.lines", lines == T * per && bad == 0 && int(got.size()) == T * per, std::to_string(lines) + " lines, " + std::to_string(bad) + " malformed, " + std::to_string(got.size()) + " different, of " + std::to_string(T * per)); mon().evaluation(hmix(T, per));
}
