// C17: matrix archives and property trees against reference maps, with truncated and corrupted files.
#include <Eigen/Dense>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
#include "common.hpp"
#include <sm_matrix_archive/MatrixArchive.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <sm_property_tree/BoostPropertyTreeSupport.hpp>
#include <sm_eigen/property_tree.hpp>
#include <sm_kinematics/property_tree.hpp>
#include <sm_kinematics/rotations.hpp>
using namespace vf;
typedef sm::MatrixArchive MA;
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }
static bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0); }
struct Ref { std::map<std::string, Eigen::MatrixXd> m; std::map<std::string, std::string> s; void erase(const std::string& n) { m.erase(n); s.erase(n); } };
static std::string shape(const Eigen::MatrixXd& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()); }
static std::string rstr(const Ref& r) { std::string o; for (auto& k : r.m) o += k.first + ":" + shape(k.second) + " "; for (auto& k : r.s) o += k.first + ":\"" + k.second.substr(0, 20) + "\" "; return o; }
// everything the archive shows equals the reference
static void compare(const std::string& key, const MA& a, const Ref& r, const std::string& what) {
  std::string bad;
  if (a.size() != r.m.size() + r.s.size()) bad = "size() = " + std::to_string(a.size());
  if (a.sizeMatrices() != r.m.size()) bad += " sizeMatrices() = " + std::to_string(a.sizeMatrices());
  if (a.sizeStrings() != r.s.size()) bad += " sizeStrings() = " + std::to_string(a.sizeStrings());
  size_t n = 0; for (auto it = a.begin(); it != a.end(); ++it, ++n) { auto f = r.m.find(it->first); if (f == r.m.end()) bad += " has extra matrix " + it->first; else if (!same(f->second, it->second)) bad += " another value for " + it->first; }
  if (n != r.m.size()) bad += " iterates over " + std::to_string(n) + " matrices";
  for (auto& k : r.m) { try { if (!same(a.getMatrix(k.first), k.second)) bad += " getMatrix(" + k.first + ")"; Eigen::MatrixXd o; a.getMatrix(k.first, o); if (!same(o, k.second)) bad += " getMatrix2(" + k.first + ")"; if (a.find(k.first) == a.end()) bad += " find(" + k.first + ")";
      bool threw = false; Eigen::VectorXd v; try { a.getVector(k.first, v); } catch (const std::exception&) { threw = true; } if (threw != (k.second.cols() != 1)) bad += " getVector(" + k.first + ") of " + shape(k.second); else if (!threw && !same(v, k.second)) bad += " getVector value(" + k.first + ")";
      threw = false; double d = 0, e = 0; try { d = a.getScalar(k.first); a.getScalar(k.first, e); } catch (const std::exception&) { threw = true; } if (threw != (k.second.size() != 1 || k.second.rows() != 1)) bad += " getScalar(" + k.first + ") of " + shape(k.second); else if (!threw && (std::memcmp(&d, k.second.data(), 8) || std::memcmp(&e, k.second.data(), 8))) bad += " getScalar value(" + k.first + ")";
    } catch (const std::exception& e) { bad += std::string(" threw ") + e.what(); }
    bool threw = false; if (!r.s.count(k.first)) { try { a.getString(k.first); } catch (const std::exception&) { threw = true; } if (!threw) bad += " getString(" + k.first + ") of a matrix"; } }
  if (a.getStrings() != r.s) bad += " strings differ";
  for (auto& k : r.s) { try { std::string t; a.getString(k.first, t); if (a.getString(k.first) != k.second || t != k.second) bad += " getString(" + k.first + ")"; } catch (const std::exception& e) { bad += std::string(" threw ") + e.what(); }
    bool threw = false; try { a.getMatrix(k.first); } catch (const std::exception&) { threw = true; } if (!threw) bad += " getMatrix(" + k.first + ") of a string"; if (a.find(k.first) != a.end()) bad += " find finds string " + k.first; }
  mon().check(key, bad.empty(), what + ":" + bad + " instead of " + rstr(r));
}
static const std::string LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", REST = LET + "0123456789_";
static std::string name(Rng& g) {
  static const char* few[] = {"a", "b", "A", "a1", "a_", "matrix", "x2345678901234567890123456789012", "Zz_9"};
  if (g.b(0.6)) return few[g.i(0, 7)];
  int n = g.pick(std::vector<int>{1, 2, 5, 31, 32, g.i(1, 32)}); std::string s(1, LET[g.i(0, 51)]); while (int(s.size()) < n) s += REST[g.i(0, int(REST.size()) - 1)]; return s;
}
static std::string badName(Rng& g) { return g.pick(std::vector<std::string>{"", "1a", "_a", "a b", "a-b", " a", "a ", "x23456789012345678901234567890123", std::string(100, 'q'), "a.b", "a\n", std::string("a\0b", 3), "\xc3\xa4"}); }
static double val(Rng& g) { switch (g.i(0, 9)) { case 0: return 0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY; case 4: return NAN; case 5: return 5e-324; case 6: return 1.7976931348623157e308; case 7: return g.n(); case 8: return g.i(-5, 5); default: return g.n() * std::exp(g.u(-300, 300)); } }
static Eigen::MatrixXd matrix(Rng& g) { int r, c; switch (g.i(0, 7)) { case 0: r = c = 1; break; case 1: r = g.i(1, 12); c = 1; break; case 2: r = 1; c = g.i(1, 12); break; case 3: r = g.i(0, 2); c = 0; break; case 4: r = 0; c = g.i(1, 3); break; case 5: r = g.i(1, 40); c = g.i(1, 40); break; default: r = g.i(1, 5); c = g.i(1, 5); } Eigen::MatrixXd m(r, c); for (int k = 0; k < m.size(); ++k) m.data()[k] = val(g); return m; }
static std::string text(Rng& g) { int n = g.pick(std::vector<int>{0, 1, 3, 20, 300}); std::string s; for (int k = 0; k < n; ++k) s += g.b(0.2) ? "ABS\n \t\0B"[g.i(0, 7)] : char(g.i(0, 255)); return s; }
static void mutate(Rng& g, MA& a, Ref& r) {
  std::string n = name(g); int op = g.i(0, 11);
  switch (op) {
    case 0: case 1: { Eigen::MatrixXd m = matrix(g); if (g.b(0.5)) a.setMatrix(n, m); else a.setMatrixXd(n, m); r.erase(n); r.m[n] = m; break; }
    case 2: { Eigen::VectorXd v = Eigen::VectorXd(g.i(0, 9)); for (int k = 0; k < v.size(); ++k) v[k] = val(g); if (g.b(0.5)) a.setVector(n, v); else a.setVectorXd(n, v); r.erase(n); r.m[n] = v; break; }
    case 3: { double d = val(g); a.setScalar(n, d); r.erase(n); r.m[n] = Eigen::MatrixXd::Constant(1, 1, d); break; }
    case 4: case 5: { std::string t = text(g); a.setString(n, t); r.erase(n); r.s[n] = t; break; }
    case 6: { bool ow = g.b(0.5); Eigen::MatrixXd m = matrix(g); bool threw = false; try { Eigen::MatrixXd& c = a.createMatrix(n, int(m.rows()), int(m.cols()), ow); if (!mon().check("C17.archive.createMatrix.shape", c.rows() == m.rows() && c.cols() == m.cols(), "createMatrix(" + n + ", " + shape(m) + ") is " + shape(c))) return; c = m; } catch (const sm::MatrixArchiveException&) { threw = true; }
      mon().check("C17.archive.createMatrix.throws", threw == (!ow && r.m.count(n)), "createMatrix(" + n + ") with overwrite=" + std::to_string(ow) + (threw ? " threw" : " did not throw")); if (!threw) { r.erase(n); r.m[n] = m; } break; }
    case 7: case 8: a.clear(n); r.erase(n); break;
    case 9: if (g.b(0.15)) { a.clear(); r = Ref(); } break;
    case 10: if (r.m.count(n)) { Eigen::MatrixXd& m = a.getMatrix(n); m = matrix(g); r.m[n] = m; } else if (r.s.count(n)) { std::string& s = a.getString(n); s += "!"; r.s[n] += "!"; } break;
    default: { std::string b = badName(g); Eigen::MatrixXd m = matrix(g); int q = g.i(0, 4); expectThrow("C17.archive.badName", [&] { if (q == 0) a.setMatrix(b, m); if (q == 1) a.setScalar(b, 1); if (q == 2) a.setString(b, "x"); if (q == 3) a.setVector(b, Eigen::VectorXd(3)); if (q == 4) a.createMatrix(b, 2, 2); }, "function " + std::to_string(q) + " with the name \"" + b + "\"");
      expectThrow("C17.archive.notAVector", [&] { a.setVector(n, Eigen::MatrixXd::Zero(2, 2)); }, "setVector with a 2x2 matrix"); expectThrow("C17.archive.missing", [&] { int z = g.i(0, 4); Eigen::VectorXd v; if (z == 0) a.getMatrix("missing"); if (z == 1) a.getScalar("missing"); if (z == 2) a.getString("missing"); if (z == 3) a.getVector("missing", v); if (z == 4) const_cast<const MA&>(a).getMatrix("missing"); }, "an entry that is not there"); } }
}
// one block of the documented format, computed independently
static std::string block(const std::string& n, const Eigen::MatrixXd& m) { uint32_t r = uint32_t(m.rows()), c = uint32_t(m.cols()); std::string s = "A" + std::string(32 - n.size(), ' ') + n; s.append((char*)&r, 4); s.append((char*)&c, 4); s.append((const char*)m.data(), size_t(m.size()) * 8); return s + "B"; }
static std::string block(const std::string& n, const std::string& t) { uint32_t r = uint32_t(t.size()); std::string s = "S" + std::string(32 - n.size(), ' ') + n; s.append((char*)&r, 4); return s + t + "B"; }
static void refLoad(Ref& r, const Ref& f, const std::set<std::string>& sel) { for (auto& k : f.m) if (sel.empty() || sel.count(k.first)) { r.erase(k.first); r.m[k.first] = k.second; } for (auto& k : f.s) if (sel.empty() || sel.count(k.first)) { r.erase(k.first); r.s[k.first] = k.second; } }
static std::set<std::string> selection(Rng& g, const Ref& r) { std::set<std::string> s; if (g.b(0.5)) return s; s.insert("neverUsedName"); for (auto& k : r.m) if (g.b(0.5)) s.insert(k.first); for (auto& k : r.s) if (g.b(0.5)) s.insert(k.first); return s; }
static uint64_t rhash(const Ref& r) { uint64_t h = 1; for (auto& k : r.m) h = hmix(h, hmix(fnv(k.first), hashm(k.second))); for (auto& k : r.s) h = hmix(h, hmix(fnv(k.first), fnv(k.second))); return h; }

VF_GROUP(archive, 800, 60000) {
  MA a; Ref r; int n = rng.i(1, 40);
  for (int k = 0; k < n; ++k) { mutate(rng, a, r); if (rng.b(0.2)) compare("C17.archive.contents", a, r, "after operation " + std::to_string(k)); }
  compare("C17.archive.contents", a, r, "in the end");
  std::string f = scratch() + "/a.ama", g = scratch() + "/b.ama";
  std::set<std::string> sel = selection(rng, r); Ref saved; refLoad(saved, r, sel);
  spit(f, "old content of the file which is longer than many archives............................................................................");
  try { if (sel.empty() && rng.b(0.5)) { if (rng.b(0.5)) a.save(f); else a.save(boost::filesystem::path(f)); } else a.save(boost::filesystem::path(f), sel); } catch (const std::exception& e) { mon().check("C17.archive.save", false, std::string("save threw ") + e.what()); return; }
  std::string want; for (auto& k : saved.m) want += block(k.first, k.second); for (auto& k : saved.s) want += block(k.first, k.second);
  mon().check("C17.archive.format", slurp(f) == want, "the file of " + rstr(saved) + " differs from the documented format");
  std::ostringstream os; a.save(os, sel); mon().check("C17.archive.stream", os.str() == want, "the stream of " + rstr(saved) + " differs from the documented format");
  MA b; Ref rb; int nb = rng.i(0, 8); for (int k = 0; k < nb; ++k) mutate(rng, b, rb);
  std::set<std::string> ls = selection(rng, saved); Ref before = rb;
  try { if (ls.empty()) { if (rng.b(0.5)) b.load(f); else b.load(boost::filesystem::path(f)); } else b.load(boost::filesystem::path(f), ls); refLoad(rb, saved, ls); compare("C17.archive.load", b, rb, "loaded into " + rstr(before)); }
  catch (const std::exception& e) { mon().check("C17.archive.load", false, std::string("load threw ") + e.what()); }
  // append
  MA c; Ref rc; for (int k = rng.i(1, 6); k > 0; --k) mutate(rng, c, rc);
  std::set<std::string> as = selection(rng, rc); try { if (as.empty() && rng.b(0.5)) c.append(f); else c.append(boost::filesystem::path(f), as); MA d; Ref rd; d.load(f); Ref app; refLoad(app, rc, as); rd = saved; refLoad(rd, app, {}); compare("C17.archive.append", d, rd, "appended " + rstr(app) + "to the file of " + rstr(saved)); mon().check("C17.archive.appendPrefix", slurp(f).substr(0, want.size()) == want, "append changed the beginning of the file"); } catch (const std::exception& e) { mon().check("C17.archive.append", false, std::string("threw ") + e.what()); }
  if (saved.m.size() + saved.s.size()) expectThrow("C17.archive.unwritable", [&] { if (rng.b(0.5)) a.save(boost::filesystem::path(scratch() + "/missing/a.ama"), sel); else a.append(boost::filesystem::path(scratch() + "/missing/a.ama"), sel); }, "saving into a missing directory");
  if (want.size()) expectThrow("C17.archive.fullDisk", [&] { if (rng.b(0.5)) a.save(boost::filesystem::path("/dev/full"), sel); else a.append(boost::filesystem::path("/dev/full"), sel); }, "writing " + std::to_string(want.size()) + " bytes to a full device");
  expectThrow("C17.archive.unreadable", [&] { MA q; q.load(scratch() + "/nothing.ama"); }, "loading a missing file");
  unlink(f.c_str());
  mon().evaluation(rhash(r));
  if (caseno < 2) mon().sample(rstr(r));
}
// truncation at every byte, corrupted structure and random bytes: an exception or a correct prefix, never a crash, and entries the file does not name stay
VF_GROUP(faults, 160, 12000) {
  std::vector<std::pair<size_t, Ref>> ends; std::string data; Ref all; std::vector<size_t> starts; std::vector<size_t> blkCols; int nblk = rng.i(1, 3);
  ends.push_back(std::make_pair(size_t(0), all)); std::vector<bool> isM;
  for (int k = 0; k < nblk; ++k) { std::string n = "n" + std::to_string(k); starts.push_back(data.size()); if (rng.b(0.6)) { Eigen::MatrixXd m = matrix(rng); if (m.size() > 30) m = m.topLeftCorner(std::min<int>(2, m.rows()), std::min<int>(2, m.cols())).eval(); all.m[n] = m; data += block(n, m); isM.push_back(true); } else { std::string t = text(rng).substr(0, 40); all.s[n] = t; data += block(n, t); isM.push_back(false); } ends.push_back(std::make_pair(data.size(), all)); }
  std::string f = scratch() + "/f.ama"; Ref keep; keep.m["keepM"] = matrix(rng); keep.s["keepS"] = "stays"; keep.m["n0"] = Eigen::MatrixXd::Constant(1, 1, 42);
  auto attempt = [&](const std::string& bytes, MA& a) { spit(f, bytes); for (auto& k : keep.m) a.setMatrix(k.first, k.second); for (auto& k : keep.s) a.setString(k.first, k.second); try { a.load(f); } catch (const std::exception&) { return false; } return true; };
  auto kept = [&](const MA& a, const std::string& what) { bool ok = true; try { ok = same(a.getMatrix("keepM"), keep.m["keepM"]) && a.getString("keepS") == "stays"; } catch (const std::exception&) { ok = false; } mon().check("C17.faults.kept", ok, what + " damaged an entry the file does not contain"); };
  for (size_t cut = 0; cut <= data.size(); ++cut) {
    MA a; bool ok = attempt(data.substr(0, cut), a); const Ref* pre = nullptr; const Ref* done = &ends[0].second; for (auto& e : ends) { if (e.first == cut) pre = &e.second; if (e.first <= cut) done = &e.second; }
    mon().check("C17.faults.truncated", ok == (pre != nullptr), "an archive of " + std::to_string(data.size()) + " bytes cut after " + std::to_string(cut) + (ok ? " loads" : " is refused"));
    kept(a, "a cut after " + std::to_string(cut)); if (ok) { Ref w = keep; refLoad(w, *pre, {}); compare("C17.faults.prefix", a, w, "cut after " + std::to_string(cut)); } (void)done;
    mon().evaluation(hmix(cut, fnv(data)));
  }
  for (int k = 0; k < nblk; ++k) {   // structure
    size_t s = starts[k], e = ends[k + 1].first; auto bad = [&](const std::string& d, const char* what) { MA a; bool ok = attempt(d, a); mon().check("C17.faults.structure", !ok, std::string(what) + " of block " + std::to_string(k) + " of " + std::to_string(nblk) + " is accepted"); kept(a, what); };
    std::string d = data; do d[s] = char(rng.i(0, 255)); while (d[s] == 'A' || d[s] == 'S'); bad(d, "corrupted start character");
    d = data; do d[e - 1] = char(rng.i(0, 255)); while (d[e - 1] == 'B'); bad(d, "corrupted end character");
    d = data; d[s + 32] = rng.pick(std::vector<char>{'-', '.', '\x7f', '!', '\xe4'}); bad(d, "invalid character in the name");
    d = data; for (int q = 0; q < 32; ++q) d[s + 1 + q] = ' '; bad(d, "empty name");
    d = data; d[s + 31] = '1'; for (int q = 1; q < 31; ++q) d[s + q] = ' '; bad(d, "name with a digit first");
    uint32_t big = rng.pick(std::vector<uint32_t>{0xffffffffu, 0x80000000u, 0x10000000u, 0x20000001u, 100000u});
    if (isM[k]) { uint32_t r2 = rng.pick(std::vector<uint32_t>{big, 2u, 0xffffffffu, 0x10000u, 0x20000000u}); d = data; std::memcpy(&d[s + 33], &big, 4); std::memcpy(&d[s + 37], &r2, 4); bad(d, "huge matrix size"); d = data; big = 0x80000000u; r2 = 2; std::memcpy(&d[s + 33], &big, 4); std::memcpy(&d[s + 37], &r2, 4); bad(d, "matrix size that wraps to zero"); }
    else { d = data; std::memcpy(&d[s + 33], &big, 4); bad(d, "huge string size"); }
  }
  for (int k = 0; k < 60; ++k) {   // random bytes: no crash, whatever is reported
    std::string d = data; int nm = rng.i(1, 3); for (int q = 0; q < nm && d.size(); ++q) { int p = rng.i(0, int(d.size()) - 1); switch (rng.i(0, 2)) { case 0: d[p] = char(rng.i(0, 255)); break; case 1: d.erase(p, rng.i(1, 4)); break; default: d.insert(p, std::string(rng.i(1, 9), char(rng.i(0, 255)))); } if (d.empty()) d = "A"; }
    if (rng.b(0.1)) { d.clear(); for (int q = rng.i(1, 120); q > 0; --q) d += char(rng.i(0, 255)); if (rng.b(0.5)) d[0] = rng.b(0.5) ? 'A' : 'S'; }
    MA a; attempt(d, a); double sum = 0; for (auto it = a.begin(); it != a.end(); ++it) { for (int z = 0; z < it->second.size(); ++z) sum += it->second.data()[z]; if (it->first.empty() || it->first.size() > a.maxNameSize()) mon().check("C17.faults.names", false, "loaded the name \"" + it->first + "\""); } if (d.find("keep") == std::string::npos) kept(a, "random corruption");
    mon().evaluation(fnv(d));
  }
  MA q; spit(f, ""); noThrow("C17.faults.empty", [&] { q.load(f); }, "an empty file"); unlink(f.c_str());
}

// ---------------------------------------------------------------- property trees
typedef sm::PropertyTree PTr; typedef sm::BoostPropertyTree BPT;
static std::string comp(Rng& g) { return g.b(0.75) ? g.pick(std::vector<std::string>{"a", "b", "c", "camera", "k1", "line-delay", "A"}) : std::string(1, LET[g.i(0, 51)]) + std::to_string(g.i(0, 99)); }
struct Val { int type; double d; int i; bool b; std::string s; };
static Val value(Rng& g, bool simple) {
  Val v; v.type = g.i(0, 3); v.d = 0; v.i = 0; v.b = false;
  if (v.type == 0) { switch (g.i(0, 7)) { case 0: v.d = 0; break; case 1: v.d = g.n() * std::exp(g.u(-600, 600)); break; case 2: v.d = 1.7976931348623157e308; break; case 3: v.d = 2.2250738585072014e-308; break; case 4: v.d = 0.1; break; case 5: v.d = g.i(-9, 9); break; default: v.d = g.n() * std::exp(g.u(-20, 20)); } }
  if (v.type == 1) v.i = g.pick(std::vector<int>{0, 1, -1, INT32_MAX, INT32_MIN, g.i(-100, 100), g.i(-1000000000, 1000000000)});
  if (v.type == 2) v.b = g.b(0.5);
  if (v.type == 3) { if (simple) { int n = g.i(1, 12); for (int k = 0; k < n; ++k) v.s += REST[g.i(0, int(REST.size()) - 1)]; } else { int n = g.pick(std::vector<int>{0, 1, 4, 15}); for (int k = 0; k < n; ++k) v.s += g.pick(std::vector<std::string>{"a", "Z", "5", " ", "<", ">", "&", "\"", "'", ";", "{", "}", "=", "#", "\\", "\n", "\t", "\xc3\xa4", "]]>", "&amp;"}); } }
  return v;
}
static void put(PTr& t, const std::string& k, const Val& v) { if (v.type == 0) t.setDouble(k, v.d); if (v.type == 1) t.setInt(k, v.i); if (v.type == 2) t.setBool(k, v.b); if (v.type == 3) t.setString(k, v.s); }
// typed reads of a stored value: exact for its own type; other types where the text has an unambiguous meaning
template <class T> static bool valueThrows(T f) { try { f(); } catch (const PTr::InvalidValueException&) { return true; } catch (...) {} return false; }
static void readBack(const std::string& key, const PTr& t, const std::string& k, const Val& v) {
  std::string bad; const PTr& c = t; PTr& w = const_cast<PTr&>(t);
  try {
    switch (v.type) {
      case 0: if (c.getDouble(k) != v.d || std::signbit(c.getDouble(k)) != std::signbit(v.d) || c.getDouble(k, v.d + 1) != v.d || w.getDouble(k, -7.5) != v.d) bad = "double"; break;
      case 1: if (c.getInt(k) != v.i || c.getInt(k, v.i / 2 + 3) != v.i || w.getInt(k, 77) != v.i || c.getDouble(k) != double(v.i) || c.getString(k) != std::to_string(v.i)) bad = "int"; break;
      case 2: if (c.getBool(k) != v.b || c.getBool(k, !v.b) != v.b || w.getBool(k, !v.b) != v.b) bad = "bool"; break;
      default: if (c.getString(k) != v.s || c.getString(k, v.s + "x") != v.s || w.getString(k, "other") != v.s) bad = "string \"" + c.getString(k) + "\" instead of \"" + v.s + "\"";
        if (bad.empty() && v.s.size() && LET.find(v.s[0]) != std::string::npos && v.s[0] != 'i' && v.s[0] != 'n' && v.s[0] != 'I' && v.s[0] != 'N') { if (!valueThrows([&] { c.getInt(k); })) bad = "getInt of \"" + v.s + "\" accepted"; if (!valueThrows([&] { c.getDouble(k); })) bad = "getDouble of \"" + v.s + "\" accepted"; if (v.s != "true" && v.s != "false" && !valueThrows([&] { c.getBool(k); })) bad = "getBool of \"" + v.s + "\" accepted"; if (c.getInt(k, 5) != 5 || c.getDouble(k, 2.5) != 2.5) bad = "default for an ill-typed value"; } }
    if (!c.doesKeyExist(k)) bad += " doesKeyExist is false";
  } catch (const std::exception& e) { bad = std::string("threw ") + e.what(); }
  mon().check(key, bad.empty(), "value of \"" + k + "\": " + bad);
}
VF_GROUP(trees, 1500, 90000) {
  int fmt = rng.i(0, 3); bool ini = fmt == 3; std::string base = ini || rng.b(0.6) ? "" : rng.pick(std::vector<std::string>{"base", "/base", "base/", "x/y", "/x/y/"}), prefix = base.empty() ? "/" : (base[0] == '/' ? "" : "/") + base + (base[base.size() - 1] == '/' ? "" : "/");
  BPT t(base); std::map<std::string, Val> ref; int n = rng.i(1, 25); std::set<std::string> sections, leaves;
  for (int k = 0; k < n; ++k) {
    std::string path = comp(rng); if (ini) { path = "s" + path; if (rng.b(0.7)) { path += "/" + comp(rng); } else path = "leaf" + path; } else for (int q = rng.i(0, 2); q > 0; --q) path += "/" + comp(rng);
    std::string full; Val v = value(rng, ini); if (ini && v.type == 3 && v.s.empty()) v.s = "x";
    int how = rng.i(0, 3); size_t sl = path.find('/');
    if (how == 0 || sl == std::string::npos) { bool abs = rng.b(0.3); put(t, abs ? prefix + path : path, v); full = prefix + path; }
    else if (how == 1) { PTr child(t, rng.b(0.5) ? path.substr(0, sl) : path.substr(0, sl) + "/"); put(child, path.substr(sl + 1), v); full = prefix + path; }
    else if (how == 2) { PTr child(t, "/" + path.substr(0, sl)); put(child, path.substr(sl + 1), v); full = "/" + path; }
    else { PTr child(t, "unrelated"); put(child, "/" + path, v); full = "/" + path; }
    ref[full] = v;
    // defaults
    std::string miss = "missing" + std::to_string(rng.i(0, 5)); double d0 = rng.n(); const PTr& ct = t;
    if (rng.b(0.3)) { mon().check("C17.tree.default", ct.getDouble(miss, d0) == d0 && ct.getInt(miss, 17) == 17 && ct.getBool(miss, true) && !ct.getBool(miss, false) && ct.getString(miss, "dflt") == "dflt", "reading \"" + miss + "\" with a default"); int q = rng.i(0, 3); bool threw = false; try { if (q == 0) ct.getDouble(miss); if (q == 1) ct.getInt(miss); if (q == 2) ct.getBool(miss); if (q == 3) ct.getString(miss); } catch (const PTr::InvalidKeyException&) { threw = true; } mon().check("C17.tree.missing", threw, "reading \"" + miss + "\" of type " + std::to_string(q) + " without a default"); bool ex = true; try { ex = ct.doesKeyExist(miss); } catch (const std::exception& e) {} mon().check("C17.tree.exists", !ex, "doesKeyExist(\"" + miss + "\") is true or throws"); }
    if (rng.b(0.15)) { std::string dk = (ini ? "leafdef" : "def") + std::to_string(k); Val w = value(rng, true); if (w.type == 0) { if (t.getDouble(dk, w.d) != w.d) mon().check("C17.tree.setDefault", false, "returns another default"); } if (w.type == 1) t.getInt(dk, w.i); if (w.type == 2) t.getBool(dk, w.b); if (w.type == 3) t.getString(dk, w.s); ref[prefix + dk] = w; }
  }
  auto all = [&](const BPT& x, const char* what) { for (auto& k : ref) { readBack(std::string("C17.tree.") + what, x, k.first, k.second); if (k.first.compare(0, prefix.size(), prefix) == 0) readBack(std::string("C17.tree.") + what, x, k.first.substr(prefix.size()), k.second); size_t sl = k.first.find('/', 1); if (sl != std::string::npos) { const PTr ch(x, k.first.substr(0, sl)); readBack(std::string("C17.tree.") + what, ch, k.first.substr(sl + 1), k.second); const PTr c2(PTr(x, "/q"), k.first.substr(0, sl)); readBack(std::string("C17.tree.") + what, c2, k.first.substr(sl + 1), k.second); } }
    std::set<std::string> top, seen; for (auto& k : ref) top.insert(k.first.substr(1, k.first.find('/', 1) == std::string::npos ? std::string::npos : k.first.find('/', 1) - 1)); for (BPT::const_iterator it = x.begin(); it != x.end(); ++it) seen.insert(it->first); mon().check(std::string("C17.tree.children.") + what, seen == top, "iterates over " + std::to_string(seen.size()) + " top level entries instead of " + std::to_string(top.size())); };
  all(t, "memory");
  expectThrow("C17.tree.emptyKey", [&] { t.getInt("", 4); }, "an empty key"); expectThrow("C17.tree.slashKey", [&] { t.setInt("/", 4); }, "the key \"/\"");
  std::string f = scratch() + "/t.cfg", g = scratch() + "/u.cfg"; auto save = [&](const BPT& x, const std::string& p) { if (fmt == 0) { if (rng.b(0.5)) x.saveXml(p); else x.saveXmlStr(p); } else if (ini) { if (rng.b(0.5)) x.saveIni(p); else x.saveIniStr(p); } else { if (rng.b(0.5)) x.saveInfo(p); else x.saveInfoStr(p); } };
  auto load = [&](BPT& x, const std::string& p) { if (fmt == 0) { if (rng.b(0.5)) x.loadXml(p); else x.loadXmlStr(p); } else if (ini) { if (rng.b(0.5)) x.loadIni(p); else x.loadIniStr(p); } else { if (rng.b(0.5)) x.loadInfo(p); else x.loadInfoStr(p); } };
  const char* fn[] = {"xml", "info", "info", "ini"}; BPT u(base); u.setInt("before", 5); bool ok = true;
  try { save(t, f); load(u, f); } catch (const std::exception& e) { ok = false; mon().check(std::string("C17.tree.file.") + fn[fmt], false, std::string("save and load threw ") + e.what()); }
  if (ok) { all(u, fn[fmt]); bool gone = false; try { u.getInt("before"); } catch (const std::exception&) { gone = true; } mon().check("C17.tree.replaced", gone, "loading a file keeps the old content"); }
  // faults
  std::string data = slurp(f); for (int k = 0; k < 6 && ok; ++k) { std::string d = data; if (k < 4) d = d.substr(0, rng.i(0, int(d.size()))); else for (int q = rng.i(1, 3); q > 0 && d.size(); --q) d[rng.i(0, int(d.size()) - 1)] = char(rng.i(1, 255)); spit(g, d); BPT w(base); w.setInt("before", 5); bool threw = false; try { load(w, g); } catch (const std::exception&) { threw = true; } if (threw) mon().check("C17.tree.faultKeeps", w.getInt("before", 0) == 5, "a refused file damaged the tree"); for (BPT::const_iterator it = w.begin(); it != w.end(); ++it) (void)it->first.size(); if (fmt == 0 && k < 4) { size_t last = data.find_last_not_of(" \n"); if (d.size() <= last && d.find_first_not_of(" \n\t") != std::string::npos && d.find("?>") != std::string::npos && d.find('<', d.find("?>")) != std::string::npos) mon().tag(threw ? "xml truncation refused" : "xml truncation accepted"); } }
  { BPT w; w.setInt("before", 5); expectThrow("C17.tree.missingFile", [&] { load(w, scratch() + "/none.cfg"); }, "loading a missing file"); mon().check("C17.tree.faultKeeps", w.getInt("before", 0) == 5, "a missing file damaged the tree"); expectThrow("C17.tree.unwritable", [&] { save(t, scratch() + "/none/x.cfg"); }, "saving into a missing directory"); }
  // a tree built from a boost tree
  { boost::property_tree::ptree p; p.put("a.b", 3); p.put("c", "text"); BPT w(p, rng.b(0.5) ? "" : "a"); const PTr& cw = w; mon().check("C17.tree.wrap", cw.getInt("/a/b") == 3 && cw.getString("/c") == "text", "a wrapped boost tree"); }
  unlink(f.c_str()); unlink(g.c_str()); uint64_t h = fnv(prefix); for (auto& k : ref) h = hmix(h, hmix(fnv(k.first), fnv(k.second.s) ^ uint64_t(k.second.i))); mon().evaluation(h); mon().tag(fn[fmt]);
}
VF_GROUP(helpers, 300, 20000) {
  BPT t; Eigen::Vector3d x = (rng.vec(3) * (rng.b(0.5) ? 1 : 100)); Eigen::Vector4d q = rng.gvec(4); if (q.norm() < 1e-3) q << 1, 2, 3, 4; if (rng.b(0.3)) q *= std::exp(rng.u(-5, 5)); PTr a(t, "T/q_a_b"), b(t, "T/t_a_b_a"); const char* n[] = {"x", "y", "z", "w"};
  for (int k = 0; k < 4; ++k) a.setDouble(n[k], q[k]); for (int k = 0; k < 3; ++k) b.setDouble(n[k], x[k]);
  sm::kinematics::Transformation T = sm::kinematics::transformationFromPropertyTree(PTr(t, "T")); Eigen::Vector4d u = q / q.norm();
  mon().near("C17.helpers.translation", Eigen::MatrixXd(T.t()), Eigen::MatrixXd(x), 1e-15, "translation"); mon().near("C17.helpers.rotation", Eigen::MatrixXd(T.C()), Eigen::MatrixXd(sm::kinematics::quat2r(u)), 1e-13, "rotation");
  mon().check("C17.helpers.vectors", sm::eigen::vector3FromPropertyTree(b) == x && sm::eigen::quaternionFromPropertyTree(a) == q, "vectors from the tree");
  int miss = rng.i(0, 3); { BPT m; PTr c(m, "T/q_a_b"), d(m, "T/t_a_b_a"); bool both = rng.b(0.5) || miss == 3; for (int k = 0; k < 4; ++k) if (!(both && k == miss)) c.setDouble(n[k], q[k]); for (int k = 0; k < 3; ++k) if (both || k != miss) d.setDouble(n[k], x[k]); expectThrow("C17.helpers.missing", [&] { sm::kinematics::transformationFromPropertyTree(PTr(m, "T")); }, "a transformation with a missing component"); }
  std::string dir = scratch() + (rng.b(0.5) ? "" : "/"), file = "find" + std::to_string(rng.i(0, 9)); spit(scratch() + "/" + file, "x"); setenv("VF_FIND_DIR", dir.c_str(), 1);
  boost::filesystem::path p; noThrow("C17.helpers.findFile", [&] { p = sm::findFile(file, "VF_FIND_DIR"); }, "findFile of an existing file"); mon().check("C17.helpers.findFile.path", p.string() == scratch() + "/" + file, "findFile gives " + p.string()); unlink((scratch() + "/" + file).c_str());
  expectThrow("C17.helpers.noFile", [&] { sm::findFile(file, "VF_FIND_DIR"); }, "findFile of a missing file"); unsetenv("VF_FIND_DIR"); expectThrow("C17.helpers.noVar", [&] { sm::findFile(file, "VF_FIND_DIR"); }, "findFile without its variable");
  mon().evaluation(hmix(hashm(x), hashm(q)));
}
VF_MAIN
