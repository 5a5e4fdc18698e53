// Monitor framework shared by all harnesses.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <Eigen/Core>

namespace vf {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }  // inclusive
  bool b(double p = 0.5) { return u() < p; }
  double n() {
    double u1 = u(); if (u1 < 1e-300) u1 = 1e-300;
    return std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u());
  }
  Eigen::VectorXd vec(int n_, double scale = 1.0) { Eigen::VectorXd v(n_); for (int k = 0; k < n_; ++k) v[k] = scale * u(-1, 1); return v; }
  Eigen::Vector3d v3(double scale = 1.0) { return vec(3, scale); }
  Eigen::VectorXd gvec(int n_, double scale = 1.0) { Eigen::VectorXd v(n_); for (int k = 0; k < n_; ++k) v[k] = scale * n(); return v; }
  Eigen::MatrixXd mat(int r, int c, double scale = 1.0) { Eigen::MatrixXd m(r, c); for (int a = 0; a < r; ++a) for (int d = 0; d < c; ++d) m(a, d) = scale * u(-1, 1); return m; }
  Eigen::Vector3d dir() { Eigen::Vector3d d; do { d = gvec(3); } while (d.norm() < 1e-3); return d / d.norm(); }
  Eigen::MatrixXd spd(int n_, double reg = 0.5) { Eigen::MatrixXd A = mat(n_, n_); return A * A.transpose() + reg * Eigen::MatrixXd::Identity(n_, n_); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

template <class M> std::string str(const M& m) {
  std::ostringstream o; o << std::setprecision(17) << m; return o.str();
}
template <class D> std::string mstr(const Eigen::MatrixBase<D>& m) {
  static const Eigen::IOFormat f(17, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]");
  std::ostringstream o; o << m.format(f); return o.str();
}

// ---------------------------------------------------------------- Monitor
struct Violation { std::string key, detail, ctx; };
struct Monitor {
  std::mutex mu;
  std::map<std::string, uint64_t> events;       // monitor name -> observations judged
  std::map<std::string, uint64_t> tags;         // workload class -> count
  std::map<std::string, uint64_t> failcount;
  std::map<std::string, double> worst;          // largest residual / tolerance ratio
  std::vector<Violation> viol;
  std::vector<std::string> samples;
  std::set<uint64_t> distinct;
  std::map<std::string, std::set<uint64_t>> seen;   // distinct schedules, states, ... observed
  uint64_t evaluations = 0, nontrivial = 0;
  std::string ctx;
  uint64_t seed = 1; bool thorough = false; std::string only; long onlyCase = -1; std::string out, progress; double scale = 1;
  int progressFd = -1;

  void setCtx(const std::string& c) {
    ctx = c;
    if (progressFd >= 0) {
      std::string l = c + "\n";
      if (ftruncate(progressFd, 0) == 0) { if (pwrite(progressFd, l.data(), l.size(), 0) < 0) {} }
    }
  }
  // one observation judged by monitor `key`
  bool check(const std::string& key, bool ok, const std::function<std::string()>& detail) {
    std::lock_guard<std::mutex> l(mu);
    ++events[key];
    if (!ok) {
      if (failcount[key]++ < 3) viol.push_back({key, detail(), ctx});
    }
    return ok;
  }
  bool check(const std::string& key, bool ok, const std::string& detail = "") {
    return check(key, ok, [&] { return detail; });
  }
  template <class A, class B>
  bool near(const std::string& key, const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_, double tol, const std::string& extra = "") {
    Eigen::MatrixXd a = a_.template cast<double>(), b = b_.template cast<double>();
    bool ok = a.rows() == b.rows() && a.cols() == b.cols();
    double e = 0;
    if (ok && a.size()) {
      e = (a - b).cwiseAbs().maxCoeff();
      for (int i = 0; i < a.size(); ++i) if (!std::isfinite(a.data()[i]) && std::isfinite(b.data()[i])) e = INFINITY;
      for (int i = 0; i < a.size(); ++i) if (!std::isfinite(b.data()[i])) e = INFINITY;
      ok = e <= tol;
    }
    { std::lock_guard<std::mutex> l(mu); double& w = worst[key]; if (std::isfinite(e) && tol > 0) w = std::max(w, e / tol); }
    return check(key, ok, [&] { return extra + " got " + mstr(a) + " expected " + mstr(b) + " err " + str(e) + " tol " + str(tol); });
  }
  bool near(const std::string& key, double a, double b, double tol, const std::string& extra = "") {
    double e = std::fabs(a - b);
    bool ok = e <= tol;
    { std::lock_guard<std::mutex> l(mu); double& w = worst[key]; if (std::isfinite(e) && tol > 0) w = std::max(w, e / tol); }
    return check(key, ok, [&] { return extra + " got " + str(a) + " expected " + str(b) + " tol " + str(tol); });
  }
  void tag(const std::string& t) { std::lock_guard<std::mutex> l(mu); ++tags[t]; }
  void distinctIn(const std::string& what, uint64_t h) { std::lock_guard<std::mutex> l(mu); auto& s = seen[what]; if (s.size() < 500000) s.insert(h); }
  // register one case (evaluation). h identifies it, trivial cases do not count as nontrivial.
  void evaluation(uint64_t h, bool nontriv = true) {
    std::lock_guard<std::mutex> l(mu);
    ++evaluations;
    if (nontriv && distinct.size() < 2000000 && distinct.insert(h).second) ++nontrivial;
  }
  void sample(const std::string& s, size_t maxn = 12) { std::lock_guard<std::mutex> l(mu); if (samples.size() < maxn) samples.push_back(s.substr(0, 600)); }
  void write() {
    for (auto& s : seen) tags["distinct " + s.first] = s.second.size();
    std::ofstream o(out);
    o << "{\"evaluations\":" << evaluations << ",\"distinct_nontrivial\":" << nontrivial << ",\"events\":{";
    bool f = true;
    for (auto& e : events) { o << (f ? "" : ",") << "\"" << jesc(e.first) << "\":" << e.second; f = false; }
    o << "},\"tags\":{"; f = true;
    for (auto& e : tags) { o << (f ? "" : ",") << "\"" << jesc(e.first) << "\":" << e.second; f = false; }
    o << "},\"worst\":{"; f = true;
    for (auto& e : worst) { o << (f ? "" : ",") << "\"" << jesc(e.first) << "\":" << e.second; f = false; }
    o << "},\"failcount\":{"; f = true;
    for (auto& e : failcount) { o << (f ? "" : ",") << "\"" << jesc(e.first) << "\":" << e.second; f = false; }
    o << "},\"samples\":["; f = true;
    for (auto& e : samples) { o << (f ? "" : ",") << "\"" << jesc(e) << "\""; f = false; }
    o << "],\"violations\":["; f = true;
    for (auto& v : viol) {
      o << (f ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"detail\":\"" << jesc(v.detail.substr(0, 3000)) << "\",\"ctx\":\"" << jesc(v.ctx) << "\"}"; f = false;
    }
    o << "]}\n";
  }
};
inline Monitor& mon() { static Monitor* m = new Monitor; return *m; }

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline uint64_t hmix(uint64_t a, uint64_t b) { return (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))) * 0xBF58476D1CE4E5B9ull; }
template <class D> uint64_t hashm(const Eigen::MatrixBase<D>& m_, uint64_t h = 7) {
  Eigen::MatrixXd m = m_.template cast<double>();
  for (int i = 0; i < m.size(); ++i) { uint64_t b; double d = m.data()[i]; memcpy(&b, &d, 8); h = hmix(h, b); }
  return h;
}

// ---------------------------------------------------------------- groups
struct Group { std::string name; int quick; int thorough; std::function<void(Rng&, int)> fn; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const std::string& n, int q, int t, std::function<void(Rng&, int)> f) { groups().push_back({n, q, t, f}); } };
// A workload group: body is run `quick` (or `thorough`) times with its own generator.
#define VF_GROUP(name, quick, thorough) \
  static void vfg_##name(vf::Rng& rng, int caseno); \
  static vf::Reg vfr_##name(#name, quick, thorough, vfg_##name); \
  static void vfg_##name(vf::Rng& rng, int caseno)

// An exception escaping a case is a violation (workloads are built from valid uses); expected ones are caught locally.
template <class F> bool expectThrow(const std::string& key, F f, const std::string& what) {
  bool t = false;
  try { f(); } catch (const std::exception&) { t = true; }
  return mon().check(key, t, what + ": no exception");
}
template <class F> bool noThrow(const std::string& key, F f, const std::string& what) {
  try { f(); } catch (const std::exception& e) { return mon().check(key, false, what + ": threw " + e.what()); }
  return mon().check(key, true);
}

// Central differences of f: R^n -> R^m at x, with Richardson extrapolation.
inline Eigen::MatrixXd numDiff(const std::function<Eigen::VectorXd(const Eigen::VectorXd&)>& f, const Eigen::VectorXd& x, double h = 1e-4) {
  Eigen::VectorXd y0 = f(x);
  Eigen::MatrixXd J(y0.size(), x.size());
  for (int k = 0; k < x.size(); ++k) {
    auto d = [&](double hh) { Eigen::VectorXd a = x, b = x; a[k] += hh; b[k] -= hh; Eigen::VectorXd fa = f(a), fb = f(b); return Eigen::VectorXd((fa - fb) / (2 * hh)); };
    Eigen::VectorXd d1 = d(h), d2 = d(h / 2);
    J.col(k) = (4 * d2 - d1) / 3;
  }
  return J;
}
inline std::string scratch() {
  const char* s = getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}

inline int run(int argc, char** argv) {
  Monitor& m = mon();
  for (int a = 1; a + 1 < argc; a += 2) {
    std::string k = argv[a], v = argv[a + 1];
    if (k == "--seed") m.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--tier") m.thorough = v == "thorough";
    else if (k == "--out") m.out = v;
    else if (k == "--progress") m.progressFd = open(v.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    else if (k == "--only") m.only = v;
    else if (k == "--case") m.onlyCase = atol(v.c_str());
    else if (k == "--scale") m.scale = atof(v.c_str());
  }
  for (auto& g : groups()) {
    if (!m.only.empty() && ("," + m.only + ",").find("," + g.name + ",") == std::string::npos) continue;
    int n = int(std::max(1.0, (m.thorough ? g.thorough : g.quick) * m.scale));
    for (int c = 0; c < n; ++c) {
      if (m.onlyCase >= 0 && c != m.onlyCase) continue;
      auto mix = [](uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
      Rng r(mix(mix(mix(fnv(g.name)) ^ m.seed) ^ (uint64_t)c));
      m.setCtx("--seed " + std::to_string(m.seed) + " --only " + g.name + " --case " + std::to_string(c));
      try { g.fn(r, c); }
      catch (const std::exception& e) { m.check("unexpected-exception/" + g.name, false, std::string(typeid(e).name()) + ": " + e.what()); }
      catch (...) { m.check("unexpected-exception/" + g.name, false, "unknown exception type"); }
    }
    m.tag("group:" + g.name);
    m.tags["group:" + g.name] = n;
  }
  m.setCtx("done");
  if (!m.out.empty()) m.write();
  int bad = 0;
  for (auto& f : m.failcount) { fprintf(stderr, "FAIL %s x%llu of %llu\n", f.first.c_str(), (unsigned long long)f.second, (unsigned long long)m.events[f.first]); bad = 1; }
  if (m.onlyCase >= 0 || getenv("VF_VERBOSE")) for (auto& v : m.viol) fprintf(stderr, "  %s [%s] %s\n", v.key.c_str(), v.ctx.c_str(), v.detail.c_str());
  return bad ? 3 : 0;
}
}  // namespace vf
#define VF_MAIN int main(int argc, char** argv) { return vf::run(argc, argv); }
