// P14: concurrent const queries do not influence each other.  Stateless model checking of the real library code: two threads, one
// query each, on one shared planner object or on two objects, executed under a controlled scheduler (conc_rt.cpp).
//   1. Both operations are recorded alone: which shared memory do they read and write (cold and warm).
//   2. No write to shared memory by either operation: the two executions commute, all interleavings are equivalent to the serial one
//      (partial-order reduction to one representative).  This is validated by executing schedules with a preemption at shared accesses.
//   3. Otherwise every access to a conflicting location is a scheduling point, and all schedules with up to 2 preemptions (1 where
//      there are too many points) are executed; each answer must be the one the operation gives alone.
#include <array>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "conc_fixture.hpp"
#include "conc_rt.hpp"
#include "words.hpp"
using namespace mc;

enum Method { DIST, CONTROLS, PATH, PATHCOV, INTEG, INTERP, FIX_RACY, FIX_CLEAN, FIX_CACHED, LIFE };
static const char *MN[] = { "get_distance", "get_controls", "get_path", "get_path_with_covariance", "integrate", "interpolate", "fixture", "fixture", "fixture", "create, query and destroy a planner" };
struct OpC { int obj, m, q; };
struct Scen
{
  int id;
  Par p;
  OpC a, b;
  bool two_objects;
  int prelude;  // 0 none, 1 run a first, 2 run b first
  std::pair<State, State> x = { State(), State() };  // query number XQ
};
const int XQ = 9;

static std::vector<std::pair<State, State>> queries(int id, const Par &p)
{
  double L = 1 / p.k, K = META[id].s == ANY ? 0.4 * p.k : META[id].s == PM ? p.k : 0, G = META[id].g == ANY ? -0.6 * p.k : META[id].g == PM ? p.k : 0;
  return { { mk(0.3 * L, -0.2 * L, 0.4, K), mk(3.1 * L, 1.7 * L, 1.3, G) },
           { mk(0, 0, 0, -K), mk(-2 * L, 0.6 * L, 2.9, G) },
           { mk(0, 0, 1, K), mk(0.5 * L, 0.4 * L, -2, -G) },
           { mk(0, 0, 0, 0), mk(6 * L, 0.2 * L, 0.1, 0) } };
}

struct Work { Space *s; Racy *racy; Clean *clean; Cached *cached; State a, b; Controls c; int m; double *out; size_t cap; size_t *n; int id; Par p; };
static void put(std::vector<double> &v, const State &s) { v.insert(v.end(), { s.x, s.y, s.theta, s.kappa, s.d }); }
static void work(void *p)
{
  Work &w = *(Work *)p;
  std::vector<double> v;
  switch (w.m)
  {
    case DIST: v.push_back(w.s->dist(w.a, w.b)); break;
    case CONTROLS: for (auto &u : w.s->controls(w.a, w.b)) v.insert(v.end(), { u.delta_s, u.kappa, u.sigma }); break;
    case PATH: for (auto &t : w.s->path(w.a, w.b)) put(v, t); break;
    case PATHCOV:
    {
      State_With_Covariance x;
      x.state = w.a;
      x.Sigma[0] = x.Sigma[5] = x.Sigma[10] = 0.3;
      for (auto &t : w.s->path_cov(x, w.b)) { put(v, t.state); v.insert(v.end(), t.covariance, t.covariance + 16); }
      break;
    }
    case INTEG: for (auto &t : w.s->integrate(w.a, w.c)) put(v, t); break;
    case INTERP: put(v, w.s->interpolate(w.a, w.c, 0.43)); break;
    case FIX_RACY: v.push_back(w.racy->query(w.a.x)); break;
    case FIX_CLEAN: v.push_back(w.clean->query(w.a.x)); break;
    case FIX_CACHED: v.push_back(w.cached->query(w.a.x)); break;
    case LIFE:
    {
      auto s = make_space(w.id, w.p.k, w.p.s, w.p.disc);
      s->set_filter({ 0.2, 0.02, 0.1, 0.03 }, { 0.3, 0.1, 0.02 }, { 2, 1, 0.5 });
      v.push_back(s->dist(w.a, w.b));
      for (auto &u : s->controls(w.a, w.b)) v.insert(v.end(), { u.delta_s, u.kappa, u.sigma });
      break;
    }
  }
  size_t n = std::min(v.size(), w.cap);
  for (size_t i = 0; i < n; ++i) w.out[i] = v[i];
  *w.n = n;
}

// block shared with the child that executes one schedule
const size_t CAP = 60000, LCAP = 30000;
struct Blk
{
  RtResult r;
  size_t n[2];
  double out[2][CAP];
  RtAccess log[2][LCAP];
};

struct Exec
{
  Blk *b = (Blk *)mmap(nullptr, sizeof(Blk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  // returns the child's wait status; which: 1 only a, 2 only b, 3 both
  int go(const Scen &s, RtConfig cfg, int which, bool warm)
  {
    b->r = RtResult();
    b->n[0] = b->n[1] = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
      alarm(20);
      for (int i : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) signal(i, SIG_DFL);
      std::unique_ptr<Space> o[2];
      // static storage: the same addresses in every forked execution
      static Racy racy;
      static Clean clean;
      static Cached cached;
      static Work w[2];
      auto qs = queries(s.id, s.p);
      qs.resize(XQ);
      qs.push_back(s.x);
      o[0] = make_space(s.id, s.p.k, s.p.s, s.p.disc);
      Par p2 = { s.p.k * 0.7, s.p.s * 1.2, s.p.disc * 1.1 };
      if (s.two_objects) o[1] = make_space(s.id, p2.k, p2.s, p2.disc);
      Controls planned[2];
      for (int i = 0; i < 2; ++i)
      {
        const OpC &op = i ? s.b : s.a;
        if (op.q == XQ && (op.m == INTEG || op.m == INTERP)) planned[i] = o[0]->controls(s.x.first, s.x.second);
      }
      for (auto &x : o) if (x) x->set_filter({ 0.1, 0.01, 0.1, 0.02 }, { 0.1, 0.2, 0.05 }, { 1, 1, 1 });
      const OpC *op[2] = { &s.a, &s.b };
      for (int i = 0; i < 2; ++i)
      {
        Space *sp = (i == 1 && s.two_objects) ? o[1].get() : o[0].get();
        Control u1, u2;
        u1.delta_s = 0.9 / s.p.k; u1.kappa = 0.5 * s.p.k * (op[i]->q + 1) / 4; u1.sigma = 0;
        u2.delta_s = -0.6 / s.p.k; u2.kappa = 0; u2.sigma = META[s.id].cls == G1 ? 0 : 0.5 * s.p.s;
        w[i] = { sp, &racy, &clean, &cached, qs[op[i]->q].first, qs[op[i]->q].second, { u1, u2 }, op[i]->m, b->out[i], CAP, &b->n[i], s.id, i ? p2 : s.p };
        if (planned[i].size()) w[i].c = planned[i];
        if (op[i]->m >= FIX_RACY && op[i]->m <= FIX_CACHED) w[i].a.x = 2 + op[i]->q;
      }
      size_t dn;
      std::vector<double> dump(CAP);
      auto pre = [&](int i) { Work x = w[i]; x.out = dump.data(); x.n = &dn; RtConfig c0; RtResult r0; rt_run(c0, work, &x, nullptr, nullptr, r0); };
      if (s.prelude & 1) pre(0);
      if (s.prelude & 2) pre(1);
      if (warm) { if (which & 1) pre(0); if (which & 2) pre(1); }
      cfg.log[0] = b->log[0];
      cfg.log[1] = b->log[1];
      cfg.cap = LCAP;
      if (which == 3) rt_run(cfg, work, &w[0], work, &w[1], b->r);
      else rt_run(cfg, work, &w[which == 1 ? 0 : 1], nullptr, nullptr, b->r);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
  }
};

struct Totals { std::atomic<long> scen, indep, execs, switches, points, maxpts, viol, blocked, conflict_scen, accesses; char what[3000], art[1000]; std::atomic<int> first; };
static Totals *tot;

static std::string sched_str(const RtConfig &c) { return fmt("thread %d first, preempted at points %ld %ld %ld", c.first, c.preempt[0], c.preempt[1], c.preempt[2]); }
static std::string scen_str(const Scen &s)
{
  std::string x;
  if (s.a.q == XQ || s.b.q == XQ)
    x = fmt(", query %d is (%.6g %.6g %.6g %.6g) -> (%.6g %.6g %.6g %.6g)", XQ, s.x.first.x, s.x.first.y, s.x.first.theta, s.x.first.kappa, s.x.second.x, s.x.second.y, s.x.second.theta, s.x.second.kappa);
  return fmt("%s kappa=%g sigma=%g, %s: %s#%d || %s#%d, prelude %d", META[s.id].name, s.p.k, s.p.s, s.two_objects ? "two objects" : "one object", MN[s.a.m], s.a.q, MN[s.b.m], s.b.q, s.prelude) + x;
}
static std::string scen_pack(const Scen &s, const RtConfig &c)
{
  return fmt("schedule %d %.17g %.17g %.17g  %d %d %d %d %d %d  %d %ld %ld %ld %d  %.17g %.17g %.17g %.17g  %.17g %.17g %.17g %.17g", s.id, s.p.k, s.p.s, s.p.disc, s.a.m, s.a.q, s.b.m, s.b.q, (int)s.two_objects, s.prelude, c.first, c.preempt[0], c.preempt[1],
             c.preempt[2], (int)c.all_points, s.x.first.x, s.x.first.y, s.x.first.theta, s.x.first.kappa, s.x.second.x, s.x.second.y, s.x.second.theta, s.x.second.kappa);
}

// Which queries write to shared memory at all?  Every query of the enumerated input space is executed alone (first on a cold process,
// then in the history of all others) and its writes outside its own stack, thread storage and allocations are counted.  A query
// without shared writes commutes with every other such query; each kind that does write becomes a two-thread scenario of its own.
struct ScanHit { int m; State a, b; };
struct ScanBlk { long n, writes, accesses; int nhit; ScanHit hit[24]; };
static void scan_work(void *p)
{
  Work &w = *(Work *)p;
  switch (w.m)
  {
    case DIST: w.s->dist(w.a, w.b); break;
    case CONTROLS: w.s->controls(w.a, w.b); break;
    case PATH: w.s->path(w.a, w.b); break;
    case PATHCOV: { State_With_Covariance x; x.state = w.a; x.Sigma[0] = x.Sigma[5] = x.Sigma[10] = 0.3; w.s->path_cov(x, w.b); break; }
    case INTEG: w.s->integrate(w.a, w.c); break;
    case INTERP: w.s->interpolate(w.a, w.c, 0.61); break;
  }
}
static bool scan_space(int id, const Par &p, const std::vector<Query> &qs, const std::vector<Query> &all_methods, ScanBlk *b)
{
  memset((void *)b, 0, sizeof *b);
  pid_t pid = fork();
  if (pid == 0)
  {
    alarm(600);
    for (int i : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) signal(i, SIG_DFL);
    auto sp = make_space(id, p.k, p.s, p.disc);
    sp->set_filter({ 0.1, 0.01, 0.1, 0.02 }, { 0.1, 0.2, 0.05 }, { 1, 1, 1 });
    Controls none;
    std::set<std::pair<uintptr_t, int>> known;
    auto one = [&](int m, const State &x, const State &y, const Controls &c) {
      Work w = { sp.get(), nullptr, nullptr, nullptr, x, y, c, m, nullptr, 0, nullptr };
      RtConfig cfg;
      RtResult res;
      uintptr_t seen[64];
      cfg.wseen = seen;
      cfg.wcap = 64;
      rt_run(cfg, scan_work, &w, nullptr, nullptr, res);
      b->n++;
      b->accesses += res.naccess[0];
      if (!res.nwrites[0]) return;
      b->writes++;
      bool novel = false;  // one scenario per kind of write
      for (long i = 0; i < std::min(res.nwrites[0], 64L); ++i) if (known.size() < 10000 && known.insert({ seen[i], m }).second) novel = true;
      if (novel && b->nhit < 24) b->hit[b->nhit++] = { m, x, y };
    };
    for (auto &q : qs) one(DIST, q.a, q.b, none);
    for (auto &q : all_methods)
    {
      for (int m : { CONTROLS, PATH, PATHCOV }) one(m, q.a, q.b, none);
      Controls c = sp->controls(q.a, q.b);
      one(INTEG, q.a, q.b, c);
      one(INTERP, q.a, q.b, c);
    }
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

struct Explorer
{
  Exec x;
  Scen s;
  std::vector<double> base[2];
  std::vector<uintptr_t> pts;
  bool failed = false;
  std::string why;
  RtConfig fail_cfg;

  // objects and the scheduler's own allocations never differ between forks: addresses are comparable
  bool baseline()
  {
    std::map<uintptr_t, int> acc[2];
    for (int warm = 0; warm < 2; ++warm)
      for (int i = 0; i < 2; ++i)
      {
        RtConfig c;
        c.record = true;
        int st = x.go(s, c, i + 1, warm);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { failed = true; why = fmt("the query crashed when run alone (status %d)", st); return false; }
        std::vector<double> a(x.b->out[i], x.b->out[i] + x.b->n[i]);
        // a solo run puts its work into slot 0 of the runtime
        for (size_t k = 0; k < x.b->r.nlog[0]; ++k) acc[i][x.b->log[0][k].g] |= x.b->log[0][k].flags;
        tot->accesses += x.b->r.naccess[0];
        if (!warm) base[i] = a;
      }
    for (int i = 0; i < 2; ++i)
      for (auto &e : acc[i])
        if (e.second & 2)
        {
          auto o = acc[1 - i].find(e.first);
          if (o != acc[1 - i].end()) pts.push_back(e.first);
        }
    std::sort(pts.begin(), pts.end());
    pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    return true;
  }
  bool same(int i)
  {
    if (x.b->n[i] != base[i].size()) return false;
    for (size_t k = 0; k < base[i].size(); ++k)
    {
      double u = x.b->out[i][k], v = base[i][k];
      if (!(u == v) && !(std::fabs(u - v) <= 1e-12 * (1 + std::fabs(v)))) return false;
    }
    return true;
  }
  // executes one schedule; returns number of scheduling points, -1 on violation
  long run1(const RtConfig &c)
  {
    int st = x.go(s, c, 3, false);
    tot->execs++;
    for (long p : c.preempt) if (p >= 0) tot->switches++;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { failed = true; why = "deadlock"; fail_cfg = c; return -1; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { tot->blocked++; return 0; }  // blocked in a primitive the scheduler does not model
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { failed = true; why = fmt("the process died (status %d)", st); fail_cfg = c; return -1; }
    for (int i = 0; i < 2; ++i)
      if (!same(i)) { failed = true; why = fmt("thread %d got another answer than when run alone", i); fail_cfg = c; return -1; }
    tot->points += x.b->r.npoints;
    return x.b->r.npoints;
  }
  void explore(long budget, long valid_budget)
  {
    tot->scen++;
    if (!baseline()) return;
    RtConfig c;
    c.points = pts.data();
    c.npoints = pts.size();
    bool indep = pts.empty();
    if (indep) { tot->indep++; c.all_points = true; budget = valid_budget; }
    else tot->conflict_scen++;
    if (budget <= 0) return;
    for (int first = 0; first < 2; ++first)
    {
      c.first = first;
      c.preempt[0] = c.preempt[1] = c.preempt[2] = -1;
      long n = run1(c);
      if (n < 0) return;
      if (n > tot->maxpts) tot->maxpts = n;
      // one preemption: all points (independent scenarios: evenly spread, at most `budget`)
      long step = indep ? std::max(1L, n / std::max(1L, budget)) : 1;
      if (!indep && n > 20 * budget) step = n / (20 * budget) + 1;
      for (long i = 0; i < n; i += step)
      {
        c.preempt[0] = i;
        c.preempt[1] = -1;
        long m = run1(c);
        if (m < 0) return;
        if (!indep && m <= 64)
          for (long j = i + 1; j < m; ++j) { c.preempt[1] = j; if (run1(c) < 0) return; }
      }
      // two preemptions with few points handled above; with many points: the second one right after the other thread's k-th access
      if (!indep && n > 64)
        for (long i = 0; i < n; i += std::max(1L, n / 60))
          for (long j = 1; j <= 24; ++j) { c.preempt[0] = i; c.preempt[1] = i + j; if (run1(c) < 0) return; }
    }
  }
};

int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  mallopt(M_ARENA_MAX, 1);
  tot = (Totals *)mmap(nullptr, sizeof(Totals), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (r.replay)
  {
    FILE *f = fopen(r.replay_file.c_str(), "r");
    char line[2000];
    while (f && fgets(line, sizeof line, f))
    {
      Scen s;
      RtConfig c;
      int two, all;
      if (sscanf(line, "schedule %d %lf %lf %lf %d %d %d %d %d %d %d %ld %ld %ld %d %lf %lf %lf %lf %lf %lf %lf %lf", &s.id, &s.p.k, &s.p.s, &s.p.disc, &s.a.m, &s.a.q, &s.b.m, &s.b.q, &two, &s.prelude, &c.first, &c.preempt[0], &c.preempt[1],
                 &c.preempt[2], &all, &s.x.first.x, &s.x.first.y, &s.x.first.theta, &s.x.first.kappa, &s.x.second.x, &s.x.second.y, &s.x.second.theta, &s.x.second.kappa) != 23) continue;
      s.two_objects = two;
      s.a.obj = s.b.obj = 0;
      Explorer e;
      e.s = s;
      if (e.baseline())
      {
        c.points = e.pts.data();
        c.npoints = e.pts.size();
        c.all_points = e.pts.empty();
        e.run1(c);
      }
      if (e.failed) violation(e.why + "  in  " + scen_str(s) + "; " + sched_str(c), line);
      else printf("  holds\n");
    }
    return finish();
  }
  // self-test: the scheduler must find the planted races of its fixture and pass the clean one
  {
    Par p = { 1, 1, 0.1 };
    struct { int m; int qa, qb; bool bad; } F[] = { { FIX_RACY, 0, 1, true }, { FIX_CLEAN, 0, 1, false }, { FIX_CACHED, 0, 0, true } };
    for (auto &f : F)
    {
      Explorer e;
      e.s = { CC00F, p, { 0, f.m, f.qa }, { 0, f.m, f.qb }, false, 0 };
      e.explore(200, 50);
      if (getenv("MC_DEBUG")) for (auto g : e.pts) printf("  pt %lx (main %lx heap %p)\n", g, (unsigned long)&main, malloc(1));
      if (getenv("MC_DEBUG")) printf("fixture %d: pts %zu execs %ld points %ld maxpts %ld acc %ld base %g %g\n", f.m, e.pts.size(), tot->execs.load(), tot->points.load(), tot->maxpts.load(), tot->accesses.load(), e.base[0].size() ? e.base[0][0] : -1, e.base[1].size() ? e.base[1][0] : -1);
      if (e.failed != f.bad) { printf("self-test of the scheduler failed (fixture %d): %s\n", f.m, e.why.c_str()); return 2; }
    }
    r.extra["scheduler_selftest_schedules"] = std::to_string(tot->execs.load());
    memset((void *)tot, 0, sizeof(Totals));
  }
  std::vector<Scen> sc;
  std::vector<Par> ps = { { 1, 1, 0.1 } };
  if (r.thorough) ps.push_back({ 0.2, 0.05, 0.3 }), ps.push_back({ 2, 3, 0.07 });
  for (auto &p : ps)
    for (int id = 0; id < NSPACES; ++id)
    {
      std::vector<std::array<int, 4>> pr = { { DIST, 0, DIST, 1 }, { DIST, 0, DIST, 0 }, { DIST, 2, PATH, 1 }, { CONTROLS, 1, CONTROLS, 3 }, { PATHCOV, 0, PATHCOV, 1 }, { INTEG, 0, INTEG, 1 }, { INTERP, 0, INTERP, 2 }, { INTERP, 0, PATH, 0 }, { LIFE, 0, DIST, 1 }, { LIFE, 1, PATHCOV, 0 }, { LIFE, 0, LIFE, 2 } };
      if (r.thorough)
      {
        pr.clear();
        for (int m1 = 0; m1 <= INTERP; ++m1)
          for (int m2 = m1; m2 <= INTERP; ++m2)
            for (int q1 = 0; q1 < 3; ++q1)
              for (int q2 = 0; q2 < 4; ++q2) pr.push_back({ m1, q1, m2, q2 });
        for (int m = 0; m <= LIFE; ++m)
          if (m <= INTERP || m == LIFE)
            for (int q1 = 0; q1 < 2; ++q1)
              for (int q2 = 0; q2 < 2; ++q2) pr.push_back({ LIFE, q1, m, q2 });
      }
      for (auto &x : pr)
        for (int two = 0; two < 2; ++two)
          for (int pre = 0; pre < 3; ++pre) sc.push_back({ id, p, { 0, x[0], x[1] }, { 0, x[2], x[3] }, two != 0, pre });
    }
  // solo pass over the enumerated input space; adds a scenario for every kind of query that writes to shared memory
  {
    struct Job { int id; Par p; std::vector<Query> q, all; ScanBlk *b; };
    std::vector<Job> jobs;
    std::vector<Par> sp = { { 1, 1, 0.1 }, { 0.2, 0.05, 0.3 } };
    if (r.thorough) sp = params(false);
    for (auto &p : sp)
    {
      DomainOpt o = domain_opt(false);
      o.thin = r.thorough ? 1 : 8;
      Goals g = goals_for(p, o, false);
      DomainOpt few = o;
      few.thin = r.thorough ? 8 : 150;
      for (int id = 0; id < NSPACES; ++id)
      {
        Job j;
        j.id = id;
        j.p = p;
        queries_for(id, p, g, o, false, j.q);
        family_queries(id, p, false, r.thorough ? 1 : 2, j.q);
        queries_for(id, p, g, few, false, j.all);
        j.b = (ScanBlk *)mmap(nullptr, sizeof(ScanBlk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        jobs.push_back(j);
      }
    }
    std::atomic<size_t> nj{ 0 };
    std::atomic<bool> died{ false };
    std::vector<std::thread> th;
    for (unsigned k = 0; k < std::max(1u, std::thread::hardware_concurrency()); ++k)
      th.emplace_back([&] { for (size_t i; (i = nj++) < jobs.size();) if (!scan_space(jobs[i].id, jobs[i].p, jobs[i].q, jobs[i].all, jobs[i].b)) died = true; });
    for (auto &t : th) t.join();
    if (died) { printf("the solo pass failed\n"); return 2; }
    long n = 0, wr = 0, acc = 0;
    std::vector<Scen> extra;
    for (auto &j : jobs)
    {
      n += j.b->n;
      wr += j.b->writes;
      acc += j.b->accesses;
      for (int h = 0; h < j.b->nhit; ++h)
        for (int two = 0; two < 2; ++two)
          for (int pre = 0; pre < 3; pre += 2)
          {
            Scen s = { j.id, j.p, { 0, j.b->hit[h].m, XQ }, { 0, j.b->hit[h].m, XQ }, two != 0, pre, { j.b->hit[h].a, j.b->hit[h].b } };
            extra.push_back(s);
            s.b = { 0, DIST, 1 };
            extra.push_back(s);
          }
    }
    sc.insert(sc.begin(), extra.begin(), extra.end());
    r.extra["solo_queries_scanned"] = std::to_string(n);
    r.extra["solo_queries_writing_shared_memory"] = std::to_string(wr);
    r.extra["solo_shared_accesses"] = std::to_string(acc);
    if (getenv("MC_DEBUG")) printf("scan %ld queries, %ld write, %ld accesses, %zu extra scenarios\n", n, wr, acc, extra.size());
  }
  // workers are processes: each forks one child per schedule
  std::atomic<long> *next = (std::atomic<long> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  unsigned np = std::max(1u, std::thread::hardware_concurrency());
  long valid = r.thorough ? 150 : 12;
  std::vector<pid_t> kids;
  for (unsigned k = 0; k < np; ++k)
  {
    pid_t pid = fork();
    if (pid == 0)
    {
      for (long i; (i = next->fetch_add(1)) < (long)sc.size();)
      {
        if (tot->viol > 3) break;
        Explorer e;
        e.s = sc[i];
        e.explore(r.thorough ? 2000 : 300, valid);
        munmap(e.x.b, sizeof(Blk));
        if (e.failed)
        {
          tot->viol++;
          if (tot->first.fetch_add(1) == 0)
          {
            snprintf(tot->what, sizeof tot->what, "%s  in  %s; %s", e.why.c_str(), scen_str(e.s).c_str(), sched_str(e.fail_cfg).c_str());
            snprintf(tot->art, sizeof tot->art, "%s", scen_pack(e.s, e.fail_cfg).c_str());
          }
        }
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  bool bad = false;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = true; }
  if (bad) { printf("a worker of the checker failed\n"); return 2; }
  if (tot->viol) violation(tot->what, tot->art);
  r.states = tot->scen.load() + tot->points.load();
  r.transitions = tot->execs.load() + tot->switches.load();
  r.traces = tot->execs.load();
  r.comparisons = 2 * tot->execs.load();
  r.extra["scenarios"] = std::to_string(tot->scen.load());
  r.extra["scenarios_without_conflicting_accesses"] = std::to_string(tot->indep.load());
  r.extra["schedules_executed"] = std::to_string(tot->execs.load());
  r.extra["max_scheduling_points"] = std::to_string(tot->maxpts.load());
  r.extra["shared_accesses_recorded"] = std::to_string(tot->accesses.load());
  r.extra["schedules_skipped_blocked"] = std::to_string(tot->blocked.load());
  for (int i = 0; i < 4; ++i) sample(scen_str(sc[(size_t)i * sc.size() / 4]));
  r.assumptions = { "two threads, one query each; sequentially consistent memory; preemption before instrumented accesses of the library",
                    "scenarios without conflicting accesses are decided by partial-order reduction and validated on spread preemption points" };
  return finish();
}
