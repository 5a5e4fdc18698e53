// C21: incremental problems, batch problems and permutations against plain models of them.
#include <Eigen/Dense>
#include "common.hpp"
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_incremental_calibration/core/OptimizationProblem.h>
#include <aslam_incremental_calibration/core/IncrementalOptimizationProblem.h>
#include <aslam_incremental_calibration/data-structures/VectorDesignVariable.h>
#include <aslam_incremental_calibration/algorithms/permute.h>
#include <aslam_incremental_calibration/exceptions/OutOfBoundException.h>
#include <aslam_incremental_calibration/exceptions/InvalidOperationException.h>
#include <aslam_incremental_calibration/exceptions/NullPointerException.h>
VF_MAIN
using namespace vf; using namespace aslam::calibration; namespace ab = aslam::backend;
typedef VectorDesignVariable<Eigen::Dynamic> Dv; typedef boost::shared_ptr<Dv> DvP; typedef boost::shared_ptr<ab::ErrorTerm> EtP; typedef Eigen::VectorXd VX;
struct Et : public ab::ErrorTermFs<1> {
  explicit Et(const std::vector<DvP>& d) { std::vector<ab::DesignVariable*> v; for (auto& x : d) v.push_back(x.get()); setDesignVariables(v); setInvR(Eigen::Matrix<double, 1, 1>(1.0)); }
  double evaluateErrorImplementation() override { return 0; } void evaluateJacobiansImplementation(ab::JacobianContainer&) const override {}
};
typedef std::map<const ab::DesignVariable*, VX> Values;
// the reference of one batch
struct Batch {
  std::vector<size_t> order; std::map<size_t, std::vector<DvP>> groups; std::vector<EtP> errors; Values saved;
  bool has(const ab::DesignVariable* d) const { for (auto& g : groups) for (auto& x : g.second) if (x.get() == d) return true; return false; }
  size_t groupOf(const ab::DesignVariable* d) const { for (auto& g : groups) for (auto& x : g.second) if (x.get() == d) return g.first; return 999; }
  std::vector<const ab::DesignVariable*> flat() const { std::vector<const ab::DesignVariable*> v; for (size_t g : order) for (auto& x : groups.at(g)) v.push_back(x.get()); return v; }
};
struct World { std::vector<DvP> dv; std::vector<size_t> home; std::vector<size_t> groupIds; };
static World world(Rng& r) { World w; int n = r.i(3, 16), g = r.i(1, 5); for (int k = 0; k < g; ++k) w.groupIds.push_back(r.b(0.2) ? 1000 + k : k); for (int k = 0; k < n; ++k) { w.dv.push_back(boost::make_shared<Dv>(r.gvec(r.i(1, 4)))); w.dv.back()->setActive(r.b(0.7)); w.home.push_back(r.pick(w.groupIds)); } return w; }
template <class F> static void refuse(const char* what, F f, const std::function<void(const std::string&)>& same) { bool threw = false; try { f(); } catch (const Exception&) { threw = true; } catch (const std::exception&) { threw = true; } mon().check(std::string("C21.refuse/") + what, threw, what); same(what); }
static std::vector<size_t> shuffled(Rng& r, size_t n) { std::vector<size_t> p(n); for (size_t k = 0; k < n; ++k) p[k] = k; for (size_t k = n; k > 1; --k) std::swap(p[k - 1], p[r.i(0, k - 1)]); return p; }
// a list of indices that is no permutation of n things
static std::vector<size_t> bad(Rng& r, size_t n) { auto p = shuffled(r, n); switch (r.i(0, n > 1 ? 3 : 1)) { case 0: p.push_back(r.i(0, n)); break; case 1: p[r.i(0, n - 1)] = n + r.i(0, 3); break; case 2: p.pop_back(); break; default: { size_t a = r.i(0, n - 1), b = (a + r.i(1, n - 1)) % n; p[a] = p[b]; } } return p; }
static void checkBatch(OptimizationProblem& p, const Batch& b, const World& w, const std::string& how) {
  auto& m = mon(); auto f = b.flat(); m.check("C21.batch/variables", p.numDesignVariables() == f.size(), how); m.check("C21.batch/errors", p.numErrorTerms() == b.errors.size(), how); m.check("C21.batch/groups", p.getNumGroups() == b.order.size() && p.getGroupsOrdering() == b.order && p.getDesignVariablesGroups().size() == b.groups.size(), how);
  if (p.numDesignVariables() != f.size() || p.numErrorTerms() != b.errors.size()) return; const OptimizationProblem& c = p;
  for (size_t k = 0; k < f.size(); ++k) m.check("C21.batch/variable", p.designVariable(k) == f[k] && c.designVariable(k) == f[k], how + " variable " + std::to_string(k));
  for (size_t k = 0; k < b.errors.size(); ++k) m.check("C21.batch/error", p.errorTerm(k) == b.errors[k].get() && c.errorTerm(k) == b.errors[k].get() && p.isErrorTermInProblem(b.errors[k].get()), how + " error " + std::to_string(k));
  m.check("C21.batch/error-list", p.getErrorTerms() == b.errors, how);
  for (auto& d : w.dv) { bool in = b.has(d.get()); m.check("C21.batch/contains", p.isDesignVariableInProblem(d.get()) == in, how); if (in) m.check("C21.batch/group-of", p.getGroupId(d.get()) == b.groupOf(d.get()), how); }
  for (size_t g : w.groupIds) { bool in = b.groups.count(g); m.check("C21.batch/has-group", p.isGroupInProblem(g) == in, how); if (!in) continue; auto& l = p.getDesignVariablesGroup(g); bool same = l.size() == b.groups.at(g).size(); size_t dim = 0; for (size_t k = 0; same && k < l.size(); ++k) { same = l[k].get() == b.groups.at(g)[k].get(); dim += l[k]->isActive() ? l[k]->minimalDimensions() : 0; } m.check("C21.batch/group", same, how); m.check("C21.batch/group-dimension", p.getGroupDim(g) == dim, how); }
}
VF_GROUP(batch, 400, 12000) {
  World w = world(rng); OptimizationProblem p; Batch b; uint64_t h = 7; int steps = rng.i(4, 30); std::string how;
  auto same = [&](const std::string& what) { checkBatch(p, b, w, what); };
  for (int s = 0; s < steps; ++s) {
    int op = rng.i(0, 11); h = hmix(h, op); how = "operation " + std::to_string(op) + " step " + std::to_string(s);
    if (op <= 3) { size_t k = rng.i(0, w.dv.size() - 1); if (b.has(w.dv[k].get())) refuse("variable twice", [&] { p.addDesignVariable(w.dv[k], rng.pick(w.groupIds)); }, same); else { size_t g = w.home[k]; if (g == 0 && rng.b()) p.addDesignVariable(w.dv[k]); else p.addDesignVariable(w.dv[k], g); if (!b.groups.count(g)) b.order.push_back(g); b.groups[g].push_back(w.dv[k]); } }
    else if (op <= 5) { std::vector<DvP> d; bool all = true; int n = rng.i(1, 3); for (int k = 0; k < n; ++k) { DvP x = rng.pick(w.dv); if (std::find(d.begin(), d.end(), x) != d.end()) continue; d.push_back(x); all &= b.has(x.get()); } auto e = boost::make_shared<Et>(d); if (all) { p.addErrorTerm(e); b.errors.push_back(e); } else refuse("error of unknown variable", [&] { p.addErrorTerm(e); }, same); }
    else if (op == 6) { if (!b.errors.empty()) { if (rng.b(0.6)) { auto q = shuffled(rng, b.errors.size()); p.permuteErrorTerms(q); std::vector<EtP> o(b.errors); for (size_t k = 0; k < q.size(); ++k) b.errors[k] = o[q[k]]; } else if (rng.b()) { EtP e = rng.pick(b.errors); refuse("error twice", [&] { p.addErrorTerm(e); }, same); } else { auto q = bad(rng, b.errors.size()); refuse("no permutation", [&] { p.permuteErrorTerms(q); }, same); } } }
    else if (op == 7) { if (!b.order.empty()) { size_t g = rng.pick(b.order); auto& l = b.groups[g]; if (rng.b(0.7)) { auto q = shuffled(rng, l.size()); p.permuteDesignVariables(q, g); auto o = l; for (size_t k = 0; k < q.size(); ++k) l[k] = o[q[k]]; } else { auto q = bad(rng, l.size()); refuse("no permutation", [&] { p.permuteDesignVariables(q, g); }, same); } } refuse("unknown group", [&] { p.permuteDesignVariables({}, 777); }, same); }
    else if (op == 8) { std::vector<size_t> o(b.order); for (size_t k = 0; k < o.size(); ++k) std::swap(o[k], o[rng.i(k, o.size() - 1)]); if (rng.b(0.7)) { p.setGroupsOrdering(o); b.order = o; } else { if (rng.b() || o.empty()) o.push_back(rng.pick(w.groupIds)); else if (o.size() > 1 && rng.b()) o[0] = o[1]; else o[rng.i(0, o.size() - 1)] = 777; refuse("groups ordering", [&] { p.setGroupsOrdering(o); }, same); } }
    else if (op == 9) { p.saveDesignVariables(); for (auto x : b.flat()) b.saved[x] = static_cast<const Dv*>(x)->getValue(); }
    else if (op == 10) { for (auto& d : w.dv) if (rng.b()) d->setValue(rng.gvec(d->getValue().size())); Values want; for (auto& d : w.dv) want[d.get()] = b.saved.count(d.get()) ? b.saved[d.get()] : VX(d->getValue()); p.restoreDesignVariables(); for (auto& d : w.dv) mon().check("C21.batch/restore", d->getValue() == want[d.get()], how); }
    else if (rng.b(0.15)) { p.clear(); b = Batch(); mon().tag("batch cleared"); }
    else { switch (rng.i(0, 4)) { case 0: refuse("no variable", [&] { p.addDesignVariable(DvP(), 0); }, same); break; case 1: refuse("no error", [&] { p.addErrorTerm(EtP()); }, same); break; case 2: refuse("index", [&] { p.designVariable(b.flat().size() + rng.i(0, 2)); }, same); break; case 3: refuse("error index", [&] { p.errorTerm(b.errors.size() + rng.i(0, 2)); }, same); break; default: refuse("group", [&] { p.getGroupDim(777); }, same); } }
    checkBatch(p, b, w, how);
  }
  mon().evaluation(hmix(h, rng.next()));
}
typedef boost::shared_ptr<OptimizationProblem> Pp; struct Entry { Pp p; Batch b; };
static Entry makeBatch(Rng& r, World& w, bool odd) { Entry e; e.p = boost::make_shared<OptimizationProblem>(); int n = r.i(0, 6); for (int k = 0; k < n; ++k) { size_t i = r.i(0, w.dv.size() - 1); if (e.b.has(w.dv[i].get())) continue; size_t g = odd && r.b(0.3) ? r.pick(w.groupIds) : w.home[i]; e.p->addDesignVariable(w.dv[i], g); if (!e.b.groups.count(g)) e.b.order.push_back(g); e.b.groups[g].push_back(w.dv[i]); } auto f = e.b.flat(); int ne = f.empty() ? 0 : r.i(0, 4); for (int k = 0; k < ne; ++k) { std::vector<DvP> d; for (auto& x : w.dv) if (e.b.has(x.get()) && (d.empty() || r.b(0.3))) d.push_back(x); auto t = boost::make_shared<Et>(d); e.p->addErrorTerm(t); e.b.errors.push_back(t); } return e; }
// the reference of the incremental problem
struct Inc {
  std::vector<Entry> l; std::vector<size_t> order; std::map<size_t, std::vector<const ab::DesignVariable*>> groups; std::map<const ab::DesignVariable*, std::pair<int, size_t>> count; Values saved;
  bool accepts(const Entry& e) const { for (auto& g : e.b.groups) for (auto& d : g.second) { auto it = count.find(d.get()); if (it != count.end() && it->second.second != g.first) return false; } for (auto& t : e.b.errors) for (auto& o : l) for (auto& u : o.b.errors) if (t == u) return false; return true; }
  void add(const Entry& e) { for (size_t g : e.b.order) for (auto& d : e.b.groups.at(g)) { if (!groups.count(g)) order.push_back(g), groups[g]; auto it = count.find(d.get()); if (it == count.end()) { count[d.get()] = {1, g}; groups[g].push_back(d.get()); } else ++it->second.first; } l.push_back(e); }
  void remove(size_t i) { Entry e = l[i]; for (auto d : e.b.flat()) { auto& c = count[d]; if (--c.first) continue; size_t g = c.second; count.erase(d); auto& v = groups[g]; v.erase(std::find(v.begin(), v.end(), d)); if (v.empty()) { groups.erase(g); order.erase(std::find(order.begin(), order.end(), g)); } saved.erase(d); } l.erase(l.begin() + i); }
};
static void checkInc(IncrementalOptimizationProblem& p, const Inc& b, const World& w, const std::string& how) {
  auto& m = mon(); const IncrementalOptimizationProblem& c = p; std::vector<const ab::DesignVariable*> f; for (size_t g : b.order) for (auto d : b.groups.at(g)) f.push_back(d); std::vector<EtP> e; for (auto& x : b.l) e.insert(e.end(), x.b.errors.begin(), x.b.errors.end());
  m.check("C21.incremental/problems", p.getNumOptimizationProblems() == b.l.size() && p.getOptimizationProblems().size() == b.l.size(), how); m.check("C21.incremental/groups", p.getNumGroups() == b.groups.size() && p.getGroupsOrdering() == b.order && p.getDesignVariablesGroups().size() == b.groups.size(), how); m.check("C21.incremental/variables", p.numDesignVariables() == f.size(), how); m.check("C21.incremental/errors", p.numErrorTerms() == e.size(), how);
  if (p.numDesignVariables() != f.size() || p.numErrorTerms() != e.size() || p.getNumOptimizationProblems() != b.l.size() || p.getGroupsOrdering() != b.order) return;
  for (size_t k = 0; k < b.l.size(); ++k) { m.check("C21.incremental/problem", p.getOptimizationProblem(k) == b.l[k].p.get() && c.getOptimizationProblem(k) == b.l[k].p.get() && c.getErrorTerms(k) == b.l[k].b.errors && *p.getOptimizationProblem(b.l[k].p) == b.l[k].p, how); }
  for (size_t k = 0; k < f.size(); ++k) m.check("C21.incremental/variable", p.designVariable(k) == f[k] && c.designVariable(k) == f[k], how + " variable " + std::to_string(k));
  for (size_t k = 0; k < e.size(); ++k) m.check("C21.incremental/error", p.errorTerm(k) == e[k].get() && c.errorTerm(k) == e[k].get() && p.isErrorTermInProblem(e[k].get()), how + " error " + std::to_string(k));
  for (auto& d : w.dv) { auto it = b.count.find(d.get()); m.check("C21.incremental/contains", p.isDesignVariableInProblem(d.get()) == (it != b.count.end()), how); if (it != b.count.end()) m.check("C21.incremental/group-of", p.getGroupId(d.get()) == it->second.second, how); else m.check("C21.incremental/group-of-absent", [&] { try { p.getGroupId(d.get()); return false; } catch (const std::exception&) { return true; } }(), how); }
  for (size_t g : w.groupIds) { bool in = b.groups.count(g); m.check("C21.incremental/has-group", p.isGroupInProblem(g) == in, how); if (!in) continue; size_t dim = 0; for (auto d : b.groups.at(g)) dim += d->isActive() ? d->minimalDimensions() : 0; m.check("C21.incremental/group", p.getDesignVariablesGroup(g) == b.groups.at(g), how); m.check("C21.incremental/group-dimension", p.getGroupDim(g) == dim, how); }
}
VF_GROUP(incremental, 500, 15000) {
  World w = world(rng); IncrementalOptimizationProblem p; Inc b; std::vector<Entry> out; uint64_t h = 3; int steps = rng.i(5, 40); std::string how; auto same = [&](const std::string& what) { checkInc(p, b, w, what); };
  for (int s = 0; s < steps; ++s) {
    int op = rng.i(0, 13); h = hmix(h, op); how = "operation " + std::to_string(op) + " step " + std::to_string(s);
    if (op <= 4) { Entry e = !out.empty() && rng.b(0.4) ? rng.pick(out) : !b.l.empty() && rng.b(0.2) ? rng.pick(b.l).p ? b.l[rng.i(0, b.l.size() - 1)] : Entry() : makeBatch(rng, w, rng.b(0.25)); if (rng.b(0.1) && !b.l.empty()) { auto& o = rng.pick(b.l); if (!o.b.errors.empty()) { Entry x = makeBatch(rng, w, false); EtP t = o.b.errors[0]; bool ok = true; for (size_t k = 0; k < t->numDesignVariables(); ++k) { auto d = t->designVariable(k); if (!x.b.has(d)) for (size_t q = 0; q < w.dv.size(); ++q) if (w.dv[q].get() == d) { size_t g = w.home[q]; x.p->addDesignVariable(w.dv[q], g); if (!x.b.groups.count(g)) x.b.order.push_back(g); x.b.groups[g].push_back(w.dv[q]); } } if (ok) { x.p->addErrorTerm(t); x.b.errors.push_back(t); e = x; } } }
      if (b.accepts(e)) { p.add(e.p); b.add(e); mon().tag("batch added"); } else { refuse("batch", [&] { p.add(e.p); }, same); mon().tag("batch refused"); } }
    else if (op <= 7) { if (!b.l.empty()) { size_t i = rng.i(0, b.l.size() - 1); switch (rng.i(0, 2)) { case 0: p.remove(i); break; case 1: p.remove(p.getOptimizationProblemBegin() + i); break; default: for (size_t k = 0; k < i; ++k) if (b.l[k].p == b.l[i].p) { i = k; break; } p.remove(b.l[i].p); } out.push_back(b.l[i]); b.remove(i); mon().tag("batch removed"); } }
    else if (op == 8) { if (!b.order.empty()) { size_t g = rng.pick(b.order); auto& l = b.groups[g]; if (rng.b(0.7)) { auto q = shuffled(rng, l.size()); p.permuteDesignVariables(q, g); auto o = l; for (size_t k = 0; k < q.size(); ++k) l[k] = o[q[k]]; } else { auto q = bad(rng, l.size()); refuse("no permutation", [&] { p.permuteDesignVariables(q, g); }, same); } } }
    else if (op == 9) { if (!b.l.empty()) { if (rng.b(0.7)) { auto q = shuffled(rng, b.l.size()); p.permuteOptimizationProblems(q); auto o = b.l; for (size_t k = 0; k < q.size(); ++k) b.l[k] = o[q[k]]; } else { auto q = bad(rng, b.l.size()); refuse("no permutation", [&] { p.permuteOptimizationProblems(q); }, same); } } }
    else if (op == 10) { std::vector<size_t> o(b.order); for (size_t k = 0; k < o.size(); ++k) std::swap(o[k], o[rng.i(k, o.size() - 1)]); if (rng.b(0.7)) { p.setGroupsOrdering(o); b.order = o; } else { if (rng.b() || o.empty()) o.push_back(rng.pick(w.groupIds)); else if (o.size() > 1 && rng.b()) o[0] = o[1]; else o[rng.i(0, o.size() - 1)] = 777; refuse("groups ordering", [&] { p.setGroupsOrdering(o); }, same); } }
    else if (op == 11) { p.saveDesignVariables(); for (auto& x : b.count) b.saved[x.first] = static_cast<const Dv*>(x.first)->getValue(); }
    else if (op == 12) { for (auto& d : w.dv) if (rng.b()) d->setValue(rng.gvec(d->getValue().size())); Values want; for (auto& d : w.dv) want[d.get()] = b.saved.count(d.get()) ? b.saved[d.get()] : VX(d->getValue()); p.restoreDesignVariables(); for (auto& d : w.dv) mon().check("C21.incremental/restore", d->getValue() == want[d.get()], how); mon().tag("restored"); }
    else if (rng.b(0.2)) { p.clear(); b = Inc(); mon().tag("cleared"); }
    else switch (rng.i(0, 5)) { case 0: refuse("no batch", [&] { p.add(Pp()); }, same); break; case 1: refuse("batch index", [&] { p.remove(b.l.size() + rng.i(0, 2)); }, same); break; case 2: { Pp q = boost::make_shared<OptimizationProblem>(); refuse("batch not in problem", [&] { p.remove(q); }, same); break; } case 3: refuse("index", [&] { size_t n = p.numDesignVariables(); p.designVariable(n + rng.i(0, 2)); }, same); break; case 4: refuse("error index", [&] { size_t n = p.numErrorTerms(); p.errorTerm(n + rng.i(0, 2)); }, same); break; default: refuse("group", [&] { p.getDesignVariablesGroup(777); }, same); }
    checkInc(p, b, w, how);
  }
  mon().evaluation(hmix(h, rng.next()));
}
VF_GROUP(permute, 400, 20000) {
  auto& m = mon(); size_t n = rng.i(0, 40); std::vector<int> v(n); for (auto& x : v) x = rng.i(0, 1000000); auto o = v; auto p = shuffled(rng, n); permute(v, p); std::vector<int> w(n); for (size_t k = 0; k < n; ++k) w[k] = o[p[k]]; m.check("C21.permute/values", v == w, "permutation of " + std::to_string(n));
  std::vector<int> ip(p.begin(), p.end()); v = o; permute(v, ip); m.check("C21.permute/signed", v == w, "");
  if (n) { auto q = bad(rng, n); v = o; bool threw = false; try { permute(v, q); } catch (const Exception&) { threw = true; } catch (const std::exception&) { threw = true; } m.check("C21.permute/refused", threw, "a list that is no permutation"); m.check("C21.permute/unchanged", v == o, "container after a refused permutation"); }
  if (n) { auto q = ip; q[rng.i(0, n - 1)] = -rng.i(1, 5); v = o; bool threw = false; try { permute(v, q); } catch (const std::exception&) { threw = true; } m.check("C21.permute/negative", threw && v == o, "negative index"); }
  m.evaluation(hmix(n, rng.next()));
}
VF_GROUP(variable, 300, 8000) {
  auto& m = mon(); int n = rng.i(1, 6); VX a = rng.gvec(n); Dv d(a); m.check("C21.variable/initial", d.getValue() == a && d.minimalDimensions() == n, ""); VX dx = rng.gvec(n); d.update(dx.data(), n); m.check("C21.variable/update", d.getValue() == a + dx, ""); Dv copy(d); m.check("C21.variable/copy", copy.getValue() == d.getValue(), ""); d.revertUpdate(); m.check("C21.variable/revert", d.getValue() == a, ""); copy.revertUpdate(); m.check("C21.variable/copy-revert", copy.getValue() == a, "");
  Eigen::MatrixXd g; d.getParameters(g); m.check("C21.variable/get", g.rows() == n && g.cols() == 1 && g == a, ""); VX b = rng.gvec(n); d.setParameters(b); m.check("C21.variable/set", d.getValue() == b, ""); d.revertUpdate(); m.check("C21.variable/set-revert", d.getValue() == a, ""); d.setValue(b); m.check("C21.variable/value", d.getValue() == b, ""); expectThrow("C21.refuse/parameter-size", [&] { d.setParameters(rng.gvec(n + 1)); }, "wrong size"); m.check("C21.variable/refused", d.getValue() == b, ""); copy = d; m.check("C21.variable/assign", copy.getValue() == b, ""); m.evaluation(hashm(a));
}
