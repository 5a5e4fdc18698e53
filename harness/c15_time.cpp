// C15: times, durations, clock correction, timers.
#include <Eigen/Dense>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>
#include "common.hpp"
#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/serialization/nvp.hpp>
#include <sm_timing/NsecTimeUtilities.hpp>
#include <sm_timing/TimestampCorrector.hpp>
#include <sm_timing/Timer.hpp>
#include <sm_boost/ptime.hpp>
using namespace vf;
typedef __int128 I;
static const I G = 1000000000;
static std::string s128(I v) {
  bool n = v < 0; if (n) v = -v;
  std::string r; do { r = char('0' + int(v % 10)) + r; v /= 10; } while (v);
  return n ? "-" + r : r;
}
template <class D> static I val(const D &d) { return I(d.sec) * G + I(d.nsec); }
template <class D> static bool norm(const D &d) { return d.nsec >= 0 && I(d.nsec) < G; }
static int64_t li(Rng &rng, int64_t a, int64_t b) { return int64_t(uint64_t(a) + rng.next() % (uint64_t(b) - uint64_t(a) + 1)); }  // inclusive
static const I DMIN = I(INT32_MIN) * G, DMAX = I(INT32_MAX) * G + G - 1, TMIN = 0, TMAX = I(UINT32_MAX) * G + G - 1;

// structured nanosecond values
static I pickNs(Rng &rng, I lo, I hi) {
  I v;
  switch (rng.i(0, 7)) {
    case 0: v = lo + rng.i(0, 3); break;
    case 1: v = hi - rng.i(0, 3); break;
    case 2: v = I(rng.i(-5, 5)) * G + rng.i(-2, 2); break;
    case 3: v = I(rng.i(-1000000, 1000000)) * G + rng.i(-2, 2); break;
    case 4: v = rng.i(-3, 3); break;
    case 5: v = I(rng.i(0, 2)) * (I(INT32_MAX)) * G + I(rng.i(-3, 3)) * G + rng.i(-3, 3); break;
    default: v = lo + I((long double)(hi - lo) * rng.u()) ; v += rng.i(0, 999999999); break;
  }
  return v < lo ? lo : v > hi ? hi : v;
}
template <class D> static D mkD(I v) {
  I s = v / G, n = v % G; if (n < 0) { n += G; --s; }
  D d; d.sec = int32_t(s); d.nsec = int32_t(n); return d;
}
template <class T> static T mkT(I v) { T t; t.sec = uint32_t(v / G); t.nsec = uint32_t(v % G); return t; }

// result r (computed by f) must be exactly the mathematical value, or refused when it is not representable
template <class R, class F> static void expectVal(const char *key, I want, I lo, I hi, F f, const std::string &what) {
  bool thrown = false; R r;
  try { r = f(); } catch (const std::runtime_error &) { thrown = true; }
  if (want < lo || want > hi) {
    mon().check(std::string(key) + ".outOfRangeRefused", thrown, what + " exact " + s128(want) + " got " + (thrown ? "refused" : s128(val(r))));
    mon().tag("outOfRange"); return;
  }
  mon().check(key, !thrown && val(r) == want && norm(r), what + " exact " + s128(want) + " got " + (thrown ? "refused" : s128(val(r)) + " nsec " + s128(r.nsec)));
}
template <class T, class D> static void pairOps(Rng &rng, const char *nm) {
  std::string p(nm);
  I a = pickNs(rng, DMIN, DMAX), b = rng.b(.3) ? (rng.b() ? a : I(-a)) + rng.i(-1, 1) : pickNs(rng, DMIN, DMAX);
  if (b < DMIN) b = DMIN; if (b > DMAX) b = DMAX;
  I t = pickNs(rng, TMIN, TMAX), u = rng.b(.3) ? t + rng.i(-1, 1) : pickNs(rng, TMIN, TMAX);
  if (u < TMIN) u = TMIN; if (u > TMAX) u = TMAX;
  D A = mkD<D>(a), B = mkD<D>(b); T X = mkT<T>(t), Y = mkT<T>(u);
  std::string w = p + " a=" + s128(a) + " b=" + s128(b) + " t=" + s128(t) + " u=" + s128(u);
  expectVal<D>("duration.add", a + b, DMIN, DMAX, [&] { return A + B; }, w);
  expectVal<D>("duration.subtract", a - b, DMIN, DMAX, [&] { return A - B; }, w);
  expectVal<D>("duration.negate", -a, DMIN, DMAX, [&] { return -A; }, w);
  expectVal<D>("duration.addAssign", a + b, DMIN, DMAX, [&] { D c = A; D &r = (c += B); mon().check("duration.addAssign.self", &r == &c, w); return c; }, w);
  expectVal<D>("duration.subtractAssign", a - b, DMIN, DMAX, [&] { D c = A; c -= B; return c; }, w);
  expectVal<T>("time.addDuration", t + a, TMIN, TMAX, [&] { return X + A; }, w);
  expectVal<T>("time.subtractDuration", t - a, TMIN, TMAX, [&] { return X - A; }, w);
  expectVal<T>("time.addAssign", t + a, TMIN, TMAX, [&] { T c = X; c += A; return c; }, w);
  expectVal<T>("time.subtractAssign", t - a, TMIN, TMAX, [&] { T c = X; c -= A; return c; }, w);
  expectVal<D>("time.difference", t - u, DMIN, DMAX, [&] { return X - Y; }, w);
  mon().check("duration.compare", (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b) && (A == B) == (a == b) && (A != B) == (a != b), w);
  mon().check("time.compare", (X < Y) == (t < u) && (X > Y) == (t > u) && (X <= Y) == (t <= u) && (X >= Y) == (t >= u) && (X == Y) == (t == u) && (X != Y) == (t != u), w);
  mon().check("zero", A.isZero() == (a == 0) && X.isZero() == (t == 0) && X.is_zero() == (t == 0), w);
  mon().check("toNSec", I(A.toNSec()) == a && I(X.toNSec()) == t, w);
  mon().check("duration.toSec", std::fabs((long double)A.toSec() - (long double)a * 1e-9L) <= 4e-16L * (std::fabs((long double)a * 1e-9L) + 1), w);
  mon().check("time.toSec", std::fabs((long double)X.toSec() - (long double)t * 1e-9L) <= 4e-16L * ((long double)t * 1e-9L) + 1e-18L, w);
  mon().evaluation(hmix(uint64_t(a), uint64_t(t)));
}
VF_GROUP(arithmetic, 12000, 6000000) {
  if (caseno % 2) pairOps<aslam::Time, aslam::Duration>(rng, "Time"); else pairOps<aslam::WallTime, aslam::WallDuration>(rng, "WallTime");
}
template <class T, class D> static void conv(Rng &rng) {
  // constructors normalise
  {
    int32_t s = rng.pick(std::vector<int32_t>{0, 1, -1, INT32_MAX, INT32_MIN, int32_t(rng.i(-100000, 100000)), int32_t(li(rng, INT32_MIN, INT32_MAX))});
    int32_t n = rng.pick(std::vector<int32_t>{0, 1, -1, 999999999, 1000000000, 1000000001, 2000000000, -999999999, -1000000000, -2000000000, INT32_MAX, INT32_MIN, int32_t(li(rng, INT32_MIN, INT32_MAX))});
    expectVal<D>("duration.normalise", I(s) * G + n, DMIN, DMAX, [&] { return D(s, n); }, std::to_string(s) + "," + std::to_string(n));
    uint32_t us = rng.b(.3) ? UINT32_MAX - rng.i(0, 4) : uint32_t(li(rng, 0, UINT32_MAX));
    uint32_t un = rng.b() ? rng.pick(std::vector<uint32_t>{0, 999999999, 1000000000, 2000000000, 3000000000u, 4000000000u, UINT32_MAX}) : uint32_t(li(rng, 0, UINT32_MAX));
    expectVal<T>("time.normalise", I(us) * G + un, TMIN, TMAX, [&] { return T(us, un); }, std::to_string(us) + "," + std::to_string(un));
  }
  // nanosecond conversions
  {
    int64_t n = rng.b() ? int64_t(pickNs(rng, DMIN, DMAX)) : rng.pick(std::vector<int64_t>{INT64_MAX, INT64_MIN, int64_t(DMAX) + 1, int64_t(DMIN) - 1, int64_t(DMAX), int64_t(DMIN), li(rng, INT64_MIN / 2, INT64_MAX / 2)});
    expectVal<D>("duration.fromNSec", n, DMIN, DMAX, [&] { D d; d.fromNSec(n); return d; }, std::to_string(n));
    uint64_t m = rng.b() ? uint64_t(pickNs(rng, TMIN, TMAX)) : rng.pick(std::vector<uint64_t>{UINT64_MAX, uint64_t(TMAX), uint64_t(TMAX) + 1, uint64_t(li(rng, 0, INT64_MAX))});
    expectVal<T>("time.fromNSec", m, TMIN, TMAX, [&] { T d; d.fromNSec(m); return d; }, std::to_string(m));
  }
  // decimal seconds: nearest nanosecond (half a nanosecond plus the rounding of the double fraction)
  {
    double d;
    switch (rng.i(0, 7)) {
      case 0: d = rng.u(-2, 2); break;
      case 1: d = rng.u(-3e9, 5e9); break;
      case 2: d = std::ldexp(rng.i(-5, 5), 0) + rng.pick(std::vector<double>{0, 1e-9, -1e-9, 0.4e-9, 0.6e-9, -0.4e-9, -0.6e-9, 1e-12, -1e-12, 1e-20, -1e-20}); break;
      case 3: d = rng.pick(std::vector<double>{INFINITY, -INFINITY, NAN, 1e300, -1e300, 2147483647.0, 2147483647.9999997, 2147483648.0, -2147483648.0, -2147483648.5, 4294967295.0, 4294967295.9999995, 4294967296.0, -1.0, -0.0, -1e-12}); break;
      case 4: d = double(int64_t(pickNs(rng, DMIN, DMAX))) * 1e-9; break;
      case 5: d = double(uint64_t(pickNs(rng, TMIN, TMAX))) * 1e-9; break;
      case 6: d = rng.i(-1000, 1000) * 1e-9; break;
      default: d = rng.u(-1, 1) * std::pow(10.0, rng.u(-12, 9)); break;
    }
    std::ostringstream w; w.precision(17); w << d;
    auto near = [&](const char *key, I lo, I hi, auto make) {
      bool thrown = false; I got = 0; bool nrm = false;
      try { auto x = make(); got = val(x); nrm = norm(x); } catch (const std::runtime_error &) { thrown = true; }
      bool fin = std::isfinite(d) && std::fabs(d) < 1e12;
      long double e = fin ? (long double)d * 1e9L : 0;
      if (!fin || e < (long double)lo - 0.75L || e > (long double)hi + 0.75L) { mon().check(std::string(key) + ".outOfRangeRefused", thrown, w.str() + " got " + s128(got)); mon().tag("outOfRange"); return; }
      if (e < (long double)lo || e > (long double)hi) return;  // rounds to the limit or is refused
      mon().check(key, !thrown && nrm && std::fabs((long double)got - e) <= 0.5L + 1e-6L, w.str() + " -> " + (thrown ? "refused" : s128(got)));
    };
    near("duration.fromSec", DMIN, DMAX, [&] { return D(d); });
    near("duration.fromSec", DMIN, DMAX, [&] { D x; x.fromSec(d); return x; });
    near("time.fromSec", TMIN, TMAX, [&] { return T(d); });
  }
  // round trips through decimal seconds stay within the resolution of the double
  {
    I a = pickNs(rng, DMIN, DMAX - 1), t = pickNs(rng, TMIN, TMAX - G);
    auto rt = [&](const char *key, I v, I back) {
      long double tol = 0.5L + std::fabs((long double)v) * 2.3e-16L;
      I e = back - v; if (e < 0) e = -e;
      mon().check(key, (long double)e <= tol, s128(v) + " -> " + s128(back));
    };
    D A = mkD<D>(a); if (a < DMAX - G) rt("duration.secondsRoundTrip", a, val(D(A.toSec())));
    rt("time.secondsRoundTrip", t, val(T(mkT<T>(t).toSec())));
  }
  // scaling
  {
    I a = pickNs(rng, DMIN, DMAX); D A = mkD<D>(a);
    double k = rng.pick(std::vector<double>{0, 1, -1, 0.5, 2, rng.u(-3, 3), rng.u(-1e3, 1e3), 1e-9});
    long double e = (long double)A.toSec() * k * 1e9L;
    bool thrown = false, thrown2 = false; D r, r2 = A;
    try { r = A * k; } catch (const std::runtime_error &) { thrown = true; }
    try { r2 *= k; } catch (const std::runtime_error &) { thrown2 = true; }
    std::ostringstream w; w.precision(17); w << s128(a) << " * " << k;
    if (e < (long double)DMIN - 1000 || e > (long double)DMAX + 1000) mon().check("duration.scale.outOfRangeRefused", thrown && thrown2, w.str());
    else if (e > (long double)DMIN + 1000 && e < (long double)DMAX - 1000)
      mon().check("duration.scale", !thrown && !thrown2 && norm(r) && r == r2 && std::fabs((long double)val(r) - e) <= 1 + std::fabs(e) * 3e-16L, w.str() + " -> " + s128(val(r)));
  }
  // boost conversion (microsecond resolution) and printing
  {
    I a = pickNs(rng, DMIN, DMAX), t = pickNs(rng, TMIN, TMAX);
    D A = mkD<D>(a); T X = mkT<T>(t);
    I us = I(A.toBoost().total_microseconds());
    I e = us * 1000 - a; if (e < 0) e = -e;
    mon().check("duration.toBoost", e < 1000, s128(a) + " -> " + s128(us) + "us");
    I ut = I((X.toBoost() - boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1))).total_microseconds());
    e = ut * 1000 - t; if (e < 0) e = -e;
    mon().check("time.toBoost", e < 1000, s128(t) + " -> " + s128(ut) + "us");
    timeval tv = sm::ptimeToTimeval(X.toBoost());
    mon().check("time.ptimeToTimeval", tv.tv_usec >= 0 && tv.tv_usec < 1000000 && I(tv.tv_sec) * 1000000 + tv.tv_usec == ut, s128(ut) + " -> " + s128(tv.tv_sec) + "s " + s128(tv.tv_usec) + "us");
    std::ostringstream o1, o2; o1 << A; o2 << X;
    auto dec = [](I v) { std::string s = v < 0 ? "-" : ""; if (v < 0) v = -v; std::string f = s128(v % G); return s + s128(v / G) + "." + std::string(9 - f.size(), '0') + f; };
    mon().check("duration.print", o1.str() == dec(a), o1.str() + " expected " + dec(a));
    mon().check("time.print", o2.str() == dec(t), o2.str() + " expected " + dec(t));
  }
  mon().evaluation(li(rng, 0, 1LL << 60));
}
VF_GROUP(conversions, 8000, 4000000) {
  if (caseno % 2) conv<aslam::Time, aslam::Duration>(rng); else conv<aslam::WallTime, aslam::WallDuration>(rng);
}
VF_GROUP(normalise64, 6000, 2000000) {
  auto r64 = [&]() -> int64_t { switch (rng.i(0, 3)) { case 0: return rng.i(-3, 3); case 1: return rng.i(-3, 3) * 1000000000LL + rng.i(-2, 2); case 2: return li(rng, -9000000000000000000LL, 9000000000000000000LL); default: return li(rng, INT32_MIN, UINT32_MAX); } };
  int64_t s = rng.b(.8) ? li(rng, -5000000000LL, 5000000000LL) : r64() / 2, n = r64();
  I want = I(s) * G + n;
  std::string w = std::to_string(s) + "," + std::to_string(n);
  auto run = [&](const char *key, I lo, I hi, auto f, auto S, auto N) {
    bool thrown = false; try { f(S, N); } catch (const std::runtime_error &) { thrown = true; }
    if (want < lo || want > hi) mon().check(std::string(key) + ".outOfRangeRefused", thrown, w);
    else mon().check(key, !thrown && I(S) * G + I(N) == want && I(N) >= 0 && I(N) < G, w + " -> " + s128(I(S)) + "," + s128(I(N)));
  };
  run("normaliseSigned64", DMIN, DMAX, [](int64_t &a, int64_t &b) { aslam::normalizeSecNSecSigned(a, b); }, s, n);
  run("normaliseUnsigned64", TMIN, TMAX, [](int64_t &a, int64_t &b) { aslam::normalizeSecNSecUnsigned(a, b); }, s, n);
  if (s >= 0 && n >= 0) run("normalise64", TMIN, TMAX, [](uint64_t &a, uint64_t &b) { aslam::normalizeSecNSec(a, b); }, uint64_t(s), uint64_t(n));
  mon().evaluation(hmix(uint64_t(s), uint64_t(n)));
}
VF_GROUP(limits, 1, 1) {
  (void)rng; (void)caseno;
  mon().check("limits", val(aslam::DURATION_MAX) == DMAX && val(aslam::DURATION_MIN) == DMIN && val(aslam::TIME_MAX) == TMAX && val(aslam::TIME_MIN) == 1, "");
  aslam::Time t0 = aslam::Time::now(); aslam::WallTime w0 = aslam::WallTime::now();
  aslam::Duration(0, 20000000).sleep();
  aslam::Time t1 = aslam::Time::now(); aslam::WallTime w1 = aslam::WallTime::now();
  mon().check("sleep.lasts", (t1 - t0).toSec() >= 0.0199 && (w1 - w0).toSec() >= 0.0199, "");
  mon().check("now.isEpochTime", std::fabs(double(::time(nullptr)) - t1.toSec()) < 3, "");
  aslam::Time until = aslam::Time::now() + aslam::Duration(0, 30000000);
  aslam::Time::sleepUntil(until); mon().check("sleepUntil", aslam::Time::now() >= until, "");
  aslam::WallTime wu = aslam::WallTime::now() + aslam::WallDuration(0, 30000000);
  aslam::WallTime::sleepUntil(wu); mon().check("sleepUntil", aslam::WallTime::now() >= wu, "");
  aslam::Time b = aslam::Time::now(); aslam::Time::sleepUntil(b - aslam::Duration(5, 0)); mon().check("sleepUntil.past", (aslam::Time::now() - b).toSec() < 2, "");
  mon().evaluation(1);
}
VF_GROUP(nsecUtilities, 6000, 2000000) {
  int64_t n = rng.b(.3) ? rng.i(-1000000, 1000000) : rng.b() ? li(rng, -2000000000000000LL, 2000000000000000LL) : li(rng, -4000000000000000000LL, 4000000000000000000LL);
  double s = sm::timing::nsecToSec(n);
  mon().check("nsecToSec", std::fabs((long double)s - (long double)n * 1e-9L) <= 4e-16L * std::fabs((long double)n * 1e-9L), std::to_string(n));
  int64_t m = sm::timing::secToNsec(s);
  long double tol = 0.5L + std::fabs((long double)n) * 4.5e-16L;
  mon().check("nsecRoundTrip", std::fabs((long double)m - (long double)n) <= tol, std::to_string(n) + " -> " + std::to_string(m));
  double d = rng.u(-1, 1) * std::pow(10.0, rng.u(-10, 9));
  mon().check("secToNsec.nearest", std::fabs((long double)sm::timing::secToNsec(d) - (long double)d * 1e9L) <= 0.5L + std::fabs((long double)d) * 1e9L * 5e-16L, std::to_string(d));
  auto tp = sm::timing::nsecToChrono(n);
  mon().check("chronoRoundTrip", sm::timing::chronoToNsec(tp) == n, std::to_string(n));
  mon().check("chrono.value", std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count() == n, std::to_string(n));
  if (caseno < 20) { int64_t a = sm::timing::nsecNow(); int64_t b = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); mon().check("nsecNow", b >= a && b - a < 1000000000LL, ""); }
  mon().evaluation(uint64_t(n));
}

// ---- clock correction -------------------------------------------------------
typedef long double LD;
template <class T> static void corrector(Rng &rng, const char *nm) {
  sm::timing::TimestampCorrector<T> tc;
  const bool integral = std::is_integral<T>::value;
  int n = rng.b(.2) ? rng.i(1, 4) : rng.i(5, 60);
  int mode = rng.i(0, 4);  // 0 exact line, 1 one-sided jitter, 2 heavy tail, 3 jitter + late outliers below, 4 arbitrary
  double period = integral ? rng.pick(std::vector<double>{1, 3, 1e3, 5e6, 1e9, 3e10}) : rng.pick(std::vector<double>{1e-3, 0.05, 1, 100});
  double x0 = integral ? rng.pick(std::vector<double>{0, -5e9, 1.4e18, 1e12}) : rng.pick(std::vector<double>{0, -50, 1.4e9, 1000.5});
  double off = integral ? rng.pick(std::vector<double>{0, 1e9, -3e12, 1e17}) : rng.pick(std::vector<double>{0, 12.5, -4000, 1e5});
  long num = rng.pick(std::vector<long>{1, 1, 2, 3, 999, 1001}), den = rng.pick(std::vector<long>{1, 1, 1000, 1000, 2});
  if (mode == 0 && integral) den = 1;
  std::vector<T> X, Y;
  T x = T(x0);
  bool dup = false;
  for (int i = 0; i < n; ++i) {
    if (i) x = x + (rng.b(.3) ? T(period) : T(period * rng.i(1, 5)));
    T rel = T(x - T(x0));
    T y = T(T(x0) + T(off) + (integral ? T((LD)rel * num / den) : T((LD)rel * num / den)));
    double j = mode == 0 ? 0 : mode == 1 ? rng.u(0, 2) : mode == 2 ? std::pow(rng.u(), -1.5) - 1 : mode == 3 ? (rng.b(.1) ? -rng.u(0, 20) : rng.u(0, 1)) : rng.u(-5, 5);
    y = T(y + T(j * period * (rng.b(.5) ? 1 : 0.01)));
    std::string w = std::string(nm) + " mode " + std::to_string(mode) + " i " + std::to_string(i) + "/" + std::to_string(n) + " period " + std::to_string(period);
    // remote time must increase strictly
    if (i && rng.b(.1)) {
      T bad = rng.b() ? X.back() : T(X.back() - T(period));
      size_t hs = tc.convexHullSize();
      try { tc.correctTimestamp(bad, y); mon().check("correct.backwardsRefused", false, w); }
      catch (const typename sm::timing::TimestampCorrector<T>::TimeWentBackwardsException &) { mon().check("correct.backwardsRefused", tc.convexHullSize() == hs, w); }
      dup = true;
    }
    X.push_back(x); Y.push_back(y);
    T est = tc.correctTimestamp(x, y);
    LD scaleY = 1; for (auto &v : Y) scaleY = std::max(scaleY, std::fabs((LD)v)); for (auto &v : X) scaleY = std::max(scaleY, std::fabs((LD)v));
    LD slope = 1; for (size_t k = 1; k < X.size(); ++k) slope = std::max(slope, std::fabs(((LD)Y[k] - (LD)Y[k - 1]) / ((LD)X[k] - (LD)X[k - 1])));
    LD tol = integral ? 1.0L : scaleY * 1e-14L * (1 + slope);
    mon().check("correct.notAfterReceipt", (LD)est <= (LD)y + tol, w + " est " + std::to_string((LD)est) + " local " + std::to_string((LD)y));
    if (mode == 0) mon().check("correct.exactForLine", std::fabs((LD)est - (LD)y) <= (integral ? 2.0L : tol * 10), w + " diff " + std::to_string((LD)est - (LD)y));
    if (i == 0) {
      mon().check("correct.first", est == y, w);
      expectThrow("correct.notInitialised", [&] { tc.getLocalTime(x); }, w);
      expectThrow("correct.notInitialised", [&] { tc.getSlope(); }, w);
      continue;
    }
    // the line: below all observations, and touching the lower hull at the middle of the remote interval
    T lt = tc.getLocalTime(x);
    if (tc.convexHullSize() >= 3) mon().check("correct.isLineAtNewest", lt == est, w);
    else mon().check("correct.fewPoints", est == y, w);
    LD sl = tc.getSlope(), of = tc.getOffset();
    size_t m = X.size();
    LD worst = 0; size_t wi = 0;
    for (size_t k = 0; k < m; ++k) { LD l = (LD)tc.getLocalTime(X[k]); if (l - (LD)Y[k] > worst) { worst = l - (LD)Y[k]; wi = k; } }
    mon().check("hull.lineBelowObservations", worst <= tol, w + " obs " + std::to_string(wi) + " above by " + std::to_string(worst) + " hull " + std::to_string(tc.convexHullSize()));
    // brute force lower hull height at the midpoint
    LD mid = ((LD)X[0] + (LD)X[m - 1]) / 2;
    LD best = 1e300L;
    for (size_t a = 0; a < m; ++a) {
      if ((LD)X[a] == mid) best = std::min(best, (LD)Y[a]);
      if ((LD)X[a] > mid) break;
      for (size_t b = m; b-- > 0 && (LD)X[b] > mid;) best = std::min(best, (LD)Y[a] + ((LD)Y[b] - (LD)Y[a]) * (mid - (LD)X[a]) / ((LD)X[b] - (LD)X[a]));
    }
    T midT = T(mid); LD atMid = (LD)tc.getLocalTime(midT) + ((LD)mid - (LD)midT) * sl;
    mon().check("hull.touchesAtMidpoint", std::fabs(atMid - best) <= (integral ? 2.5L + 0.0L + std::fabs(slope) : tol * 10), w + " line " + std::to_string(atMid) + " hull " + std::to_string(best) + " size " + std::to_string(tc.convexHullSize()));
    // slope and offset describe the same line
    LD l0 = (LD)tc.getLocalTime(X[0]), l1 = (LD)tc.getLocalTime(X[m - 1]);
    LD span = (LD)X[m - 1] - (LD)X[0];
    mon().check("slope", std::fabs((l1 - l0) - sl * span) <= (integral ? 3.0L : 10 * tol) + std::fabs(sl * span) * 1e-14L, w);
    mon().check("offset", std::fabs((of + sl * (LD)X[0]) - l0) <= (integral ? 2.0L : 10 * tol) + (std::fabs(of) + std::fabs(sl * (LD)X[0]) + scaleY) * 1e-14L * (1 + slope), w);
    if (sl >= 0) { LD p = (LD)tc.getLocalTime(X[0]); bool up = true; for (size_t k = 1; k < m; ++k) { LD q = (LD)tc.getLocalTime(X[k]); if (q < p - tol) up = false; p = q; } mon().check("correct.monotone", up, w); }
    mon().check("hull.size", tc.convexHullSize() >= 2 && tc.convexHullSize() <= m, w);
  }
  mon().tag(std::string("hull") + std::to_string(std::min<size_t>(tc.convexHullSize(), 9)));
  mon().distinctIn("hulls", hmix(tc.convexHullSize(), uint64_t(int64_t((LD)Y.back()))));
  mon().evaluation(hmix(n, uint64_t(int64_t((LD)Y.back())))); (void)dup;
}
VF_GROUP(correctorDouble, 500, 150000) { (void)caseno; corrector<double>(rng, "double"); }
VF_GROUP(correctorInt64, 500, 150000) { (void)caseno; corrector<int64_t>(rng, "int64"); }

// ---- timers -----------------------------------------------------------------
VF_GROUP(timers, 60, 600) {
  using namespace sm::timing;
  struct M { size_t handle; int n; double lo, hi; };
  std::map<std::string, M> model;
  std::string pre = "t" + std::to_string(caseno) + "_";
  for (int step = 0; step < 60; ++step) {
    std::string tag = pre + std::to_string(rng.i(0, 4));
    size_t h = Timing::getHandle(tag);
    if (!model.count(tag)) { for (auto &k : model) mon().check("timing.handleUnique", k.second.handle != h, tag); model[tag] = M{h, 0, 0, 0}; }
    M &m = model[tag];
    mon().check("timing.handle", h == m.handle && Timing::getTag(h) == tag, tag);
    auto t0 = std::chrono::steady_clock::now();
    switch (rng.i(0, 3)) {
      case 0: { Timer t(tag); mon().check("timer.running", t.isTiming(), tag); if (rng.b(.2)) std::this_thread::sleep_for(std::chrono::microseconds(200)); ++m.n; } break;  // destructor stops
      case 1: { Timer t(h, true); mon().check("timer.stopped", !t.isTiming(), tag); t.start(); expectThrow("timer.doubleStart", [&] { t.start(); }, tag); if (rng.b(.2)) { std::this_thread::sleep_for(std::chrono::microseconds(300)); m.lo += 299e-6; } t.stop(); expectThrow("timer.doubleStop", [&] { t.stop(); }, tag); ++m.n; } break;
      case 2: { Timer t(tag, true); } break;
      case 3: if (rng.b(.2)) { Timing::reset(h); m.n = 0; m.lo = m.hi = 0; } break;
    }
    m.hi += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    for (auto &k : model) {
      const M &q = k.second;
      mon().check("timing.numSamples", Timing::getNumSamples(q.handle) == size_t(q.n) && Timing::getNumSamples(k.first) == size_t(q.n), k.first);
      if (!q.n) continue;
      double tot = Timing::getTotalSeconds(q.handle), mean = Timing::getMeanSeconds(q.handle), mn = Timing::getMinSeconds(q.handle), mx = Timing::getMaxSeconds(q.handle), var = Timing::getVarianceSeconds(q.handle);
      mon().check("timing.total", tot >= q.lo - 2e-6 * q.n && tot <= q.hi + 2e-6 * q.n + 1e-3, k.first + " " + std::to_string(tot) + " in [" + std::to_string(q.lo) + "," + std::to_string(q.hi) + "]");
      mon().check("timing.mean", std::fabs(mean * q.n - tot) <= 1e-9 + 1e-9 * tot, k.first);
      mon().check("timing.minmax", mn <= mean + 1e-12 && mean <= mx + 1e-12 && mx <= tot + 1e-12 && var >= -1e-12, k.first);
      mon().check("timing.byTag", Timing::getTotalSeconds(k.first) == tot && Timing::getMeanSeconds(k.first) == mean && Timing::getMinSeconds(k.first) == mn && Timing::getMaxSeconds(k.first) == mx, k.first);
    }
  }
  size_t n = Timing::getHandle(pre + "0"); (void)n;
  expectThrow("timing.unknownHandle", [&] { Timing::getTotalSeconds(size_t(1000000)); }, "");
  expectThrow("timing.unknownHandle", [&] { Timing::getNumSamples(size_t(1000000)); }, "");
  expectThrow("timing.unknownHandle", [&] { Timer t(size_t(1000000)); }, "");
  expectThrow("timing.unknownHandle", [&] { Timing::getTag(1000000); }, "");
  std::string pr = Timing::print();
  for (auto &k : model) mon().check("timing.print", pr.find(k.first) != std::string::npos, k.first);
  double secs = rng.b(.5) ? rng.u(0, 100000) : rng.i(0, 100000) + rng.pick(std::vector<double>{0, 0.25, 0.5});
  int hh, mm; double ss; std::string str = Timing::secondsToTimeString(secs);
  bool ok = std::sscanf(str.c_str(), "%d:%d:%lf", &hh, &mm, &ss) == 3;
  mon().check("timing.timeString", ok && mm < 60 && ss <= 60 && std::fabs(hh * 3600.0 + mm * 60.0 + ss - secs) < 2e-6, str + " for " + std::to_string(secs));
  mon().evaluation(hmix(caseno, model.size()));
}
VF_MAIN
