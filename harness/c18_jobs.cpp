// C18: job queue: exactly-once execution, waiting, futures and shutdown under random schedules; run under ThreadSanitizer and AddressSanitizer.
#include <Eigen/Dense>
#include <atomic>
#include <chrono>
#include <iostream>
#include <memory>
#include <thread>
#include "common.hpp"
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <sm_boost/JobQueue.hpp>
using namespace vf;
static void pauseFor(int kind) { switch (kind) { case 0: break; case 1: std::this_thread::yield(); break; case 2: { volatile int x = 0; for (int k = 0; k < 2000; ++k) x = x + k; break; } default: std::this_thread::sleep_for(std::chrono::microseconds(30 * (kind - 2))); } }
static int kindOf(Rng& g, bool slow) { int r = g.i(0, 9); return r < 4 ? 0 : r < 6 ? 1 : r < 8 ? 2 : slow ? g.i(3, 12) : 1; }
struct Log {   // what the jobs did, in a total order
  std::atomic<long> clock{0}; std::atomic<int> running{0}, peak{0};
  struct Rec { std::atomic<int> starts{0}, ends{0}; std::atomic<long> t0{-1}, t1{-1}; };
  std::unique_ptr<Rec[]> r; int n; std::vector<int> payload;   // the payload is written by the job without synchronisation and read after waiting
  explicit Log(int n) : r(new Rec[n]), n(n), payload(n, 0) {}
  void begin(int k) { int a = ++running; int p = peak; while (a > p && !peak.compare_exchange_weak(p, a)) {} r[k].t0 = ++clock; ++r[k].starts; }
  void end(int k) { payload[k] = k + 1; ++r[k].ends; r[k].t1 = ++clock; --running; }
  std::string exactlyOnce(int from, int to) { for (int k = from; k < to; ++k) if (r[k].starts != 1 || r[k].ends != 1) return "job " + std::to_string(k) + " started " + std::to_string(r[k].starts) + " and finished " + std::to_string(r[k].ends) + " times"; return ""; }
  uint64_t order() { uint64_t h = 7; std::vector<std::pair<long, int>> o; for (int k = 0; k < n; ++k) { o.push_back({r[k].t0, k}); o.push_back({r[k].t1, -k - 1}); } std::sort(o.begin(), o.end()); for (auto& x : o) h = hmix(h, uint64_t(x.second)); return h; }
};
static void job(Log* l, int k, int kind) { l->begin(k); pauseFor(kind); l->end(k); }
VF_GROUP(exactlyOnce, 500, 60000) {
  int workers = rng.i(1, 8), rounds = rng.i(1, 4), per = rng.pick(std::vector<int>{0, 1, 2, rng.i(3, 30), rng.i(30, 80)}), nested = rng.b(0.4) ? 1 : 0, total = rounds * per * (1 + nested); Log l(total + 1); bool slow = rng.b(0.3);
  sm::JobQueue q; bool late = rng.b(0.4); if (!late) q.start(workers); mon().check("C18.jobs.emptyAtStart", q.empty(), "a new queue is not empty");
  int next = 0;
  for (int r = 0; r < rounds; ++r) {
    int from = next; std::vector<int> kinds; for (int k = 0; k < per * (1 + nested); ++k) kinds.push_back(kindOf(rng, slow)); int prod = late && r == 0 ? 1 : rng.i(1, 4);
    auto produce = [&](int lo, int hi) { for (int k = lo; k < hi; ++k) { int id = from + k, kind = kinds[k]; if (nested) { int id2 = from + per + k, kind2 = kinds[per + k]; q.scheduleWork([&l, &q, id, kind, id2, kind2] { l.begin(id); q.scheduleWork(boost::bind(&job, &l, id2, kind2)); pauseFor(kind); l.end(id); }); } else q.scheduleWork(boost::bind(&job, &l, id, kind)); } };
    if (prod == 1) produce(0, per); else { std::vector<std::thread> t; for (int p = 0; p < prod; ++p) t.push_back(std::thread(produce, per * p / prod, per * (p + 1) / prod)); for (auto& x : t) x.join(); }
    if (late && r == 0) { mon().check("C18.jobs.pendingBeforeStart", q.empty() == (per == 0), "empty() of a queue with " + std::to_string(per) + " pending jobs"); q.start(workers); }
    next += per * (1 + nested); q.waitForEmptyQueue(); std::string bad = l.exactlyOnce(0, next); mon().check("C18.jobs.exactlyOnce", bad.empty(), "after waiting, with " + std::to_string(workers) + " workers and " + std::to_string(prod) + " producers: " + bad);
    for (int k = 0; k < next; ++k) if (l.payload[k] != k + 1) { mon().check("C18.jobs.visible", false, "the effect of a finished job is not visible after waiting"); break; }
    mon().check("C18.jobs.idle", l.running == 0 && q.empty(), "waiting returned while jobs run or are queued");
  }
  mon().check("C18.jobs.pool", l.peak <= workers, std::to_string(l.peak) + " jobs at once with " + std::to_string(workers) + " workers");
  if (workers == 1 && !nested) { bool fifo = true; for (int k = 1; k < per && late; ++k) if (l.r[k].t0 < l.r[k - 1].t0) fifo = false; mon().check("C18.jobs.fifo", fifo, "one worker runs the jobs in another order than scheduled"); }
  if (rng.b(0.5)) { q.join(); mon().check("C18.jobs.afterJoin", l.exactlyOnce(0, next).empty(), "joining ran a job again"); }
  mon().evaluation(l.order()); mon().tag("peak " + std::to_string(l.peak));
}
struct Boom : std::runtime_error { int code; Boom(int c) : std::runtime_error("boom"), code(c) {} };
static int valueJob(Log* l, int k, int kind) { l->begin(k); pauseFor(kind); l->end(k); if (k % 3 == 2) throw boost::enable_error_info(Boom(k)); return 1000 + k; }
static void voidJob(Log* l, int k, int kind) { job(l, k, kind); }
VF_GROUP(futures, 250, 30000) {
  int workers = rng.i(1, 8), n = rng.i(1, 40); Log l(2 * n); sm::JobQueue q; bool late = rng.b(0.3); if (!late) q.start(workers); std::vector<boost::unique_future<int>> f(n); std::vector<boost::unique_future<void>> v(n);
  for (int k = 0; k < n; ++k) { q.scheduleFuture<int>(boost::bind(&valueJob, &l, k, kindOf(rng, true)), f[k]); q.scheduleFuture<void>(boost::bind(&voidJob, &l, n + k, kindOf(rng, false)), v[k]); } if (late) q.start(workers);
  std::vector<int> order(n); for (int k = 0; k < n; ++k) order[k] = k; for (int k = n - 1; k > 0; --k) std::swap(order[k], order[rng.i(0, k)]);
  for (int k : order) { std::string bad; try { int x = f[k].get(); if (k % 3 == 2) bad = "value instead of an exception"; else if (x != 1000 + k) bad = "value " + std::to_string(x); } catch (const Boom& e) { if (k % 3 != 2 || e.code != k) bad = "exception of another job"; } catch (const std::exception& e) { bad = std::string("another exception ") + e.what(); } mon().check("C18.futures.result", bad.empty(), "future " + std::to_string(k) + ": " + bad); if (l.payload[k] != k + 1) mon().check("C18.futures.visible", false, "the effect of the job is not visible after get()"); v[k].wait(); if (l.payload[n + k] != n + k + 1) mon().check("C18.futures.visible", false, "the effect of the job is not visible after wait()"); }
  std::string bad = l.exactlyOnce(0, 2 * n); mon().check("C18.futures.exactlyOnce", bad.empty(), bad); mon().evaluation(l.order());
}
VF_GROUP(shutdown, 700, 80000) {
  int workers = rng.i(1, 8), n = rng.pick(std::vector<int>{0, 1, rng.i(2, 20), rng.i(20, 60)}), how = rng.i(0, 4); Log l(n + 1); bool ordered = workers == 1; int after = 0; std::atomic<long> done{-1};
  { sm::JobQueue q; if (rng.b(0.95)) q.start(workers); for (int k = 0; k < n; ++k) q.scheduleWork(boost::bind(&job, &l, k, kindOf(rng, true))); pauseFor(kindOf(rng, true));
    if (how == 1) q.stop(); if (how == 2) { q.join(); done = ++l.clock; } if (how == 3) { q.stop(); pauseFor(kindOf(rng, true)); q.join(); done = ++l.clock; } if (how == 4) { q.join(); q.join(); done = ++l.clock; }
    if (how >= 2) { mon().check("C18.shutdown.quiescent", l.running == 0, "jobs are running after join()"); for (int k = 0; k < n; ++k) after += l.r[k].starts; bool all = after == n; mon().check("C18.shutdown.pendingKept", q.empty() == all, "after join() the queue is " + std::string(q.empty() ? "" : "not ") + "empty with " + std::to_string(after) + " of " + std::to_string(n) + " jobs processed"); } }
  long end = ++l.clock; int ran = 0; mon().check("C18.shutdown.destroyed", l.running == 0, "jobs are running after the queue was destroyed"); bool gap = false;
  for (int k = 0; k < n; ++k) { int s = l.r[k].starts, e = l.r[k].ends; mon().check("C18.shutdown.once", s == e && s <= 1, "job " + std::to_string(k) + " started " + std::to_string(s) + " times and finished " + std::to_string(e) + " times at shutdown " + std::to_string(how)); ran += s; if (s && gap && ordered) mon().check("C18.shutdown.prefix", false, "a job was skipped although a later one ran"); if (!s) gap = true; if (s) { mon().check("C18.shutdown.before", l.r[k].t1 < end && (done < 0 || l.r[k].t1 < done), "a job finished after the shutdown"); if (l.payload[k] != k + 1) mon().check("C18.shutdown.visible", false, "the effect of a job is not visible"); } }
  if (how >= 2) mon().check("C18.shutdown.noneLater", ran == after, "jobs ran after join()");
  mon().evaluation(hmix(l.order(), how)); mon().tag("shutdown " + std::to_string(how)); if (ran < n) mon().tag("pending at shutdown");
}
// a pool of n workers runs n jobs at the same time, and waiting threads are all woken
VF_GROUP(parallel, 120, 6000) {
  int n = rng.i(1, 8); sm::JobQueue q; q.start(n); if (rng.b(0.3)) q.start(n + 3); std::atomic<int> in{0}, bad{0}, over{0}; 
  for (int k = 0; k < n; ++k) q.scheduleWork([&] { ++in; for (int w = 0; in < n; ++w) { if (w > 200000) { ++bad; break; } std::this_thread::sleep_for(std::chrono::microseconds(100)); } if (in > n) ++over; });
  std::vector<std::thread> waiters; std::atomic<int> woke{0}; for (int w = rng.i(0, 3); w > 0; --w) waiters.push_back(std::thread([&] { q.waitForEmptyQueue(); if (in == n) ++woke; })); q.waitForEmptyQueue(); for (auto& t : waiters) t.join();
  mon().check("C18.parallel.all", bad == 0 && in == n, std::to_string(n) + " workers do not run " + std::to_string(n) + " jobs at once"); mon().check("C18.parallel.waiters", woke == int(waiters.size()), "a waiter returned before the jobs had run"); mon().evaluation(hmix(n, waiters.size()));
}
