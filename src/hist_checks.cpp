// P13: the answer to a query depends only on the planner's parameters and the query.  All operation histories up to a depth over a
// small alphabet (several objects, all methods, queries that differ from each other in one component only) are executed; every
// answer is compared with the answer the same operation gives as the very first library call of a fresh process.
// Runs in forked worker processes (single threaded) so that process-wide state is part of the history.
#include <array>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "words.hpp"
using namespace mc;

typedef std::vector<double> Ans;
enum Method { DIST, CONTROLS, PATH, PATHCOV, INTEG, INTERP, INTERP0, SETF, RECREATE, NMETH };
static const char *MN[] = { "get_distance", "get_controls", "get_path", "get_path_with_covariance", "integrate", "interpolate", "interpolate(0)", "set_filter_parameters", "new object" };
struct Obj { int id; Par p; };
struct Op { int obj, m, q; };

static Motion_Noise MNZ[2] = { { 0.1, 0.01, 0.1, 0.02 }, { 0.3, 0.07, 0.02, 0.11 } };
static Measurement_Noise MEZ[2] = { { 0.1, 0.2, 0.05 }, { 0.5, 0.04, 0.3 } };
static Controller COZ[2] = { { 1, 1, 1 }, { 0.3, 0.6, 0.2 } };

struct Case
{
  int id;
  Par p;
  std::vector<Obj> objs;
  std::vector<std::pair<State, State>> qs;
};

static Controls fixed_controls(const Par &p, int q)
{
  auto c = [](double d, double k, double s) { Control u; u.delta_s = d; u.kappa = k; u.sigma = s; return u; };
  double f = 1 + 0.1 * q;
  return { c(p.k / p.s, 0, q % 2 ? -p.s : p.s), c(f / p.k, q % 2 ? -p.k : p.k, 0), c(-0.5 * f / p.k, q % 3 ? p.k : 0, 0) };
}
static Controls g1_controls(const Par &p, int q)
{
  auto c = [](double d, double k) { Control u; u.delta_s = d; u.kappa = k; u.sigma = 0; return u; };
  double f = 1 + 0.1 * q;
  return { c(f / p.k, q % 2 ? -p.k : p.k), c(-0.5 * f / p.k, 0), c(0.7 / p.k, p.k) };
}

struct World
{
  const Case *c;
  std::vector<std::unique_ptr<Space>> o;
  std::vector<int> filt;
  World(const Case &cc) : c(&cc), o(cc.objs.size()), filt(cc.objs.size(), 0) {}
  Space &get(int i, bool fresh = false)
  {
    if (!o[i] || fresh)
    {
      const Obj &b = c->objs[i];
      o[i].reset();
      o[i] = make_space(b.id, b.p.k, b.p.s, b.p.disc);
      o[i]->set_filter(MNZ[0], MEZ[0], COZ[0]);
      filt[i] = 0;
    }
    return *o[i];
  }
};

static void push(Ans &a, const State &s) { a.insert(a.end(), { s.x, s.y, s.theta, s.kappa, s.d }); }
static Ans exec(World &w, const Op &op)
{
  Ans a;
  Space &s = w.get(op.obj, op.m == RECREATE);
  const State &x = w.c->qs[op.q].first, &y = w.c->qs[op.q].second;
  const Par &p = w.c->objs[op.obj].p;
  Controls fc = META[w.c->objs[op.obj].id].cls == G1 ? g1_controls(p, op.q) : fixed_controls(p, op.q);
  switch (op.m)
  {
    case DIST: a.push_back(s.dist(x, y)); break;
    case CONTROLS: for (auto &u : s.controls(x, y)) a.insert(a.end(), { u.delta_s, u.kappa, u.sigma }); break;
    case PATH: for (auto &t : s.path(x, y)) push(a, t); break;
    case PATHCOV:
    {
      State_With_Covariance b;
      b.state = x;
      for (int i = 0; i < 3; ++i) b.Sigma[5 * i] = b.covariance[5 * i] = 0.2 + 0.1 * i;
      for (auto &t : s.path_cov(b, y))
      {
        push(a, t.state);
        a.insert(a.end(), t.Sigma, t.Sigma + 16);
        a.insert(a.end(), t.Lambda, t.Lambda + 16);
        a.insert(a.end(), t.covariance, t.covariance + 16);
      }
      break;
    }
    case INTEG: for (auto &t : s.integrate(x, fc)) push(a, t); break;
    case INTERP: push(a, s.interpolate(x, fc, 0.37)); push(a, s.interpolate(x, fc, 0.9)); break;
    case INTERP0: push(a, s.interpolate(x, fc, 0)); push(a, s.interpolate(x, fc, 1)); break;
    case SETF: w.filt[op.obj] = op.q % 2; s.set_filter(MNZ[op.q % 2], MEZ[op.q % 2], COZ[op.q % 2]); break;
    case RECREATE: break;
  }
  return a;
}

// dirty the stack below the caller, so that reading uninitialised locals is visible
static volatile double sink;
__attribute__((noinline)) static void dirty(double v)
{
  volatile double buf[1500];
  for (int i = 0; i < 1500; ++i) buf[i] = v;
  sink = buf[700];
}

static bool same(const Ans &a, const Ans &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i]) && !(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(b[i])))) return false;
  return true;
}

static std::vector<Case> cases(bool thorough)
{
  std::vector<Case> v;
  std::vector<Par> ps = { { 1, 1, 0.1 }, { 0.2, 0.05, 0.3 } };
  if (thorough) ps.push_back({ 2, 3, 0.07 });
  for (auto &p : ps)
    for (int id = 0; id < NSPACES; ++id)
    {
      Case c;
      c.id = id;
      c.p = p;
      // objects: the planner, the same planner with one parameter changed, the partner driving the other way, a relative
      c.objs = { { id, p }, { id, { p.k * 0.8, p.s, p.disc } }, { id, { p.k, p.s * 1.3, p.disc } }, { id, { p.k, p.s, p.disc * 1.7 } } };
      int other = id == DUB_F ? DUB_B : id == DUB_B ? DUB_F : id == RS ? DUB_F : id < CC00RS ? (id % 2 ? id + 1 : id - 1) : id == CC00RS ? HC00 : id == HCRS ? HC0P : HCRS;
      c.objs.push_back({ other, p });
      c.objs.push_back({ id == HC0P ? (int)HCP0 : id == CC00F ? (int)CCF : (int)CC00F, p });
      // queries: a base query and one variation per component
      double L = 1 / p.k, K = META[id].s == ANY ? 0.4 * p.k : META[id].s == PM ? p.k : 0, G = META[id].g == ANY ? -0.6 * p.k : META[id].g == PM ? p.k : 0;
      State a = mk(0.3 * L, -0.2 * L, 0.4, K), b = mk(3.1 * L, 1.7 * L, 1.3, G);
      auto put = [&](State s, State t) { c.qs.push_back({ s, t }); };
      put(a, b);
      State t = a; t.x += 0.7 * L; put(t, b);
      t = a; t.y -= 0.9 * L; put(t, b);
      t = a; t.theta += 2.1; put(t, b);
      t = b; t.x -= 2.3 * L; put(a, t);
      t = b; t.y += 1.1 * L; put(a, t);
      t = b; t.theta -= 2.7; put(a, t);
      if (K != 0) { t = a; t.kappa = -t.kappa; put(t, b); t = a; t.kappa = 0; put(t, b); }
      if (G != 0) { t = b; t.kappa = -t.kappa; put(a, t); t = b; t.kappa = 0; put(a, t); }
      put(b, a);
      put(a, a);
      t = b; t.theta += 2 * M_PI; put(a, t);
      v.push_back(c);
    }
  return v;
}

// ---- shared result block between workers and parent
struct Shared
{
  std::atomic<long> next, seqs, ops, cmps, viol, states;
  char what[4000];
  char art[4000];
  std::atomic<int> lock;
};
static Shared *sh;

static std::string op_str(const Case &c, const Op &o)
{
  return fmt("obj%d(%s k=%g s=%g disc=%g).%s#%d", o.obj, META[c.objs[o.obj].id].name, c.objs[o.obj].p.k, c.objs[o.obj].p.s, c.objs[o.obj].p.disc, MN[o.m], o.q);
}
static void report(int ci, const Case &c, const std::vector<Op> &h, const std::string &why)
{
  if (sh->viol.fetch_add(1) == 0)
  {
    std::string w = why + " history:", a = fmt("history %d", ci);
    // keep the artefact readable: the last operations of a long history
    size_t from = h.size() > 60 ? h.size() - 60 : 0;
    for (size_t i = from; i < h.size(); ++i)
    {
      if (h.size() - i <= 4) w += " " + op_str(c, h[i]);
      a += fmt(" %d.%d.%d", h[i].obj, h[i].m, h[i].q);
    }
    snprintf(sh->what, sizeof sh->what, "%s", w.c_str());
    snprintf(sh->art, sizeof sh->art, "%s", a.c_str());
  }
}

// answers of a fresh process, one fork per operation
typedef std::map<std::array<int, 4>, Ans> Base;
static Ans fresh_answer(const Case &c, const Op &op, int filt)
{
  int fd[2];
  if (pipe(fd)) return {};
  pid_t pid = fork();
  if (pid == 0)
  {
    close(fd[0]);
    World w(c);
    if (filt) exec(w, { op.obj, SETF, filt });
    Ans a = exec(w, op);
    size_t n = a.size() * sizeof(double), off = 0;
    while (off < n) { ssize_t k = write(fd[1], (char *)a.data() + off, n - off); if (k <= 0) break; off += k; }
    _exit(0);
  }
  close(fd[1]);
  std::string buf;
  char tmp[65536];
  for (ssize_t k; (k = read(fd[0], tmp, sizeof tmp)) > 0;) buf.append(tmp, k);
  close(fd[0]);
  int st;
  waitpid(pid, &st, 0);
  Ans a(buf.size() / sizeof(double));
  memcpy(a.data(), buf.data(), a.size() * sizeof(double));
  if (!WIFEXITED(st) || WEXITSTATUS(st)) a.assign(1, NAN);
  return a;
}

struct Runner
{
  int ci;
  const Case &c;
  Base base;
  long n = 0;
  Runner(int i, const Case &cc) : ci(i), c(cc) {}
  const Ans &want(const Op &o, int filt)
  {
    std::array<int, 4> k = { o.obj, o.m, o.q, o.m == PATHCOV ? filt : 0 };
    auto it = base.find(k);
    if (it == base.end()) it = base.emplace(k, fresh_answer(c, o, k[3])).first;
    return it->second;
  }
  // execute one history; compare every answer
  bool go(const std::vector<Op> &h, World &w)
  {
    static const double fill[4] = { 0, 1e30, -7.25, NAN };
    std::vector<Op> done;
    for (auto &o : h)
    {
      done.push_back(o);
      dirty(fill[n++ & 3]);
      Ans a = exec(w, o);
      sh->ops++;
      if (o.m == SETF || o.m == RECREATE) continue;
      sh->cmps++;
      if (!same(a, want(o, w.filt[o.obj]))) { report(ci, c, done, "answer differs from the answer of a fresh process:"); return false; }
    }
    return true;
  }
  bool seq(const std::vector<Op> &h)
  {
    World w(c);
    sh->seqs++;
    sh->states++;  // every proper prefix is a history of its own
    return go(h, w);
  }
};

static void explore_case(int ci, const Case &c, bool thorough)
{
  Runner r(ci, c);
  int nq = (int)c.qs.size(), no = (int)c.objs.size();
  // baselines first: the forked children have executed nothing of the library before
  std::vector<Op> all, small;
  for (int m : { DIST, CONTROLS, PATH })
    for (int q = 0; q < nq; ++q) all.push_back({ 0, m, q });
  for (int m : { PATHCOV, INTEG, INTERP, INTERP0, SETF, RECREATE })
    for (int q : { 0, 1, 3 }) all.push_back({ 0, m, q });
  for (int o = 1; o < no; ++o)
  {
    for (int q : { 0, 3, nq - 3 }) for (int m : { DIST, PATH }) all.push_back({ o, m, q });
    all.push_back({ o, PATHCOV, 0 });
    all.push_back({ o, INTEG, 0 });
    all.push_back({ o, SETF, 1 });
    all.push_back({ o, RECREATE, 0 });
  }
  small = { { 0, DIST, 0 }, { 0, DIST, 3 }, { 0, CONTROLS, nq - 3 }, { 0, PATH, 6 }, { 0, PATHCOV, 0 }, { 0, INTERP, 0 }, { 0, SETF, 1 }, { 0, SETF, 0 }, { 0, RECREATE, 0 },
            { 1, DIST, 0 }, { 4, DIST, 0 }, { 5, CONTROLS, 0 }, { 4, SETF, 1 } };
  for (auto &o : small) { r.want(o, 0); r.want(o, 1); }
  for (auto &o : all) { r.want(o, 0); if (o.m == PATHCOV) r.want(o, 1); }
  // depth 1 and 2 over the full alphabet, on fresh objects
  for (auto &a : all)
  {
    if (!r.seq({ a })) return;
    for (auto &b : all)
    {
      if (b.m == RECREATE && !thorough) continue;
      if (!r.seq({ a, b })) return;
    }
  }
  // deeper histories over a reduced alphabet
  int depth = thorough ? 4 : 3;
  std::vector<size_t> idx(depth, 0);
  for (;;)
  {
    std::vector<Op> h;
    for (size_t i : idx) h.push_back(small[i]);
    if (h.back().m != SETF && h.back().m != RECREATE && !r.seq(h)) return;
    int k = depth - 1;
    while (k >= 0 && ++idx[k] == small.size()) idx[k--] = 0;
    if (k < 0) break;
  }
  // one long life on the same objects, covering every ordered pair of operations (twice: repetition counts)
  {
    World w(c);
    std::vector<Op> h;
    for (int rep = 0; rep < 2; ++rep)
      for (size_t d = 1; d < all.size(); d += 1)
        for (size_t i = 0, k = 0; k < all.size(); ++k, i = (i + d) % all.size())
          if (all[i].m != RECREATE && (thorough || (k + d) % 2 == 0)) h.push_back(all[i]);
    sh->seqs++;
    sh->states += (long)h.size();
    r.go(h, w);
  }
}

// ---- histories over the whole enumerated input space: the same query as the first call of a process, in an ascending history where
// every call is made twice, and in a descending history in which another planner object answers in between
struct Sweep { int id; Par p; std::vector<Query> q; double *asc, *desc, *fresh; };
static double digest(Space &s, const Query &q)
{
  Controls cs = s.controls(q.a, q.b);
  double v = s.dist(q.a, q.b) + 0.1 * cs.size();
  for (size_t i = 0; i < cs.size(); ++i) v += (i + 1.3) * cs[i].delta_s + 0.7 * (i + 1) * cs[i].kappa + 0.3 * (i + 1) * cs[i].sigma;
  return v;
}
static const double DEAD = -1e300;
static void sweep_run(Sweep &w, size_t stride)
{
  size_t n = w.q.size();
  for (size_t i = 0; i < n; ++i) w.asc[i] = w.desc[i] = w.fresh[i] = DEAD;
  auto child = [&](auto f) { pid_t pid = fork(); if (pid == 0) { alarm(300); for (int i : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) signal(i, SIG_DFL); f(); _exit(0); } int st; waitpid(pid, &st, 0); };
  child([&] {
    auto o = make_space(w.id, w.p.k, w.p.s, w.p.disc);
    for (size_t i = 0; i < n; ++i)
    {
      double a = digest(*o, w.q[i]), b = digest(*o, w.q[i]);
      w.asc[i] = a == b ? a : NAN;
    }
  });
  child([&] {
    auto x = make_space(w.id, 0.83 * w.p.k, 1.37 * w.p.s, 1.1 * w.p.disc);
    auto o = make_space(w.id, w.p.k, w.p.s, w.p.disc);
    for (size_t i = n; i-- > 0;)
    {
      x->dist(w.q[i].a, w.q[i].b);
      w.desc[i] = digest(*o, w.q[i]);
      if (i > 3) x->dist(w.q[i / 2].a, w.q[i / 2].b);
    }
  });
  for (size_t i = 0; i < n; i += stride)
    child([&] {
      auto o = make_space(w.id, w.p.k, w.p.s, w.p.disc);
      w.fresh[i] = digest(*o, w.q[i]);
    });
}
static std::string sweep_str(const Sweep &w, size_t i)
{
  const Query &q = w.q[i];
  return fmt("sweep %d %.17g %.17g %.17g %zu  %.17g %.17g %.17g %.17g  %.17g %.17g %.17g %.17g", w.id, w.p.k, w.p.s, w.p.disc, i, q.a.x, q.a.y, q.a.theta, q.a.kappa, q.b.x, q.b.y, q.b.theta, q.b.kappa);
}
static std::vector<Sweep> sweeps(bool thorough)
{
  std::vector<Sweep> v;
  std::vector<Par> ps = { { 1, 1, 0.1 }, { 0.5, 1, 0.25 } };
  if (thorough) ps = params(false);
  for (auto &p : ps)
  {
    DomainOpt o = domain_opt(false);
    o.thin = thorough ? 1 : 4;
    Goals g = goals_for(p, o, false);
    for (int id = 0; id < NSPACES; ++id)
    {
      Sweep w;
      w.id = id;
      w.p = p;
      queries_for(id, p, g, o, false, w.q);
      family_queries(id, p, false, thorough ? 1 : 2, w.q);
      v.push_back(w);
    }
  }
  return v;
}
static void sweep_all(bool thorough, const char *only, long &queries)
{
  auto v = sweeps(thorough);
  std::atomic<size_t> next{ 0 };
  std::mutex mx;
  std::vector<std::thread> th;
  int oid = -1;
  Par op = { 0, 0, 0 };
  if (only) sscanf(only, "sweep %d %lf %lf %lf", &oid, &op.k, &op.s, &op.disc);
  for (unsigned k = 0; k < std::max(1u, std::thread::hardware_concurrency()); ++k)
    th.emplace_back([&] {
      for (size_t i; (i = next++) < v.size();)
      {
        Sweep &w = v[i];
        if (only && !(w.id == oid && w.p.k == op.k && w.p.s == op.s)) continue;
        size_t n = w.q.size(), bytes = 3 * n * sizeof(double);
        double *m = (double *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        w.asc = m;
        w.desc = m + n;
        w.fresh = m + 2 * n;
        sweep_run(w, thorough ? 5 : 40);
        auto eq = [](double a, double b) { return a == b || std::fabs(a - b) <= 1e-11 * (1 + std::fabs(b)); };
        for (size_t j = 0; j < n; ++j)
        {
          std::string why;
          if (w.asc[j] == DEAD || w.desc[j] == DEAD) why = "the process died during a history of queries";
          else if (std::isnan(w.asc[j])) why = "the same query asked twice in a row gives two answers";
          else if (!eq(w.asc[j], w.desc[j])) why = "the answer depends on the queries asked before (ascending and descending history)";
          else if (w.fresh[j] != DEAD && !eq(w.asc[j], w.fresh[j])) why = "the answer differs from the answer of a fresh process";
          if (why.empty()) continue;
          std::lock_guard<std::mutex> l(mx);
          if (sh->viol.fetch_add(1) == 0)
          {
            snprintf(sh->what, sizeof sh->what, "%s: %s", why.c_str(), show(w.q[j]).c_str());
            snprintf(sh->art, sizeof sh->art, "%s", sweep_str(w, j).c_str());
          }
          break;
        }
        munmap(m, bytes);
        sh->cmps += 2 * n;
        sh->ops += 8 * n;
        sh->states += 3 * n;
        sh->seqs += 2 + n / (thorough ? 5 : 40);
      }
    });
  for (auto &t : th) t.join();
  for (auto &w : v) queries += (long)w.q.size();
}

int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  mallopt(M_PERTURB, 0xA5);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto cs = cases(r.thorough);
  if (r.replay)
  {
    auto all = cases(true);
    FILE *f = fopen(r.replay_file.c_str(), "r");
    char line[8000];
    while (f && fgets(line, sizeof line, f))
    {
      int ci, off;
      long nq = 0;
      if (!strncmp(line, "sweep", 5)) { sweep_all(false, line, nq); if (!sh->viol) sweep_all(true, line, nq); continue; }
      if (sscanf(line, "history %d%n", &ci, &off) != 1) continue;
      std::vector<Op> h;
      Op o;
      for (char *s = line + off; sscanf(s, " %d.%d.%d%n", &o.obj, &o.m, &o.q, &off) == 3; s += off) h.push_back(o);
      Runner u(ci, all[ci]);
      for (auto &x : h) { u.want(x, 0); u.want(x, 1); }
      u.seq(h);
      for (int i = 0; i < 3 && !sh->viol; ++i) { std::vector<Op> h2; for (int k = 0; k < 50; ++k) h2.insert(h2.end(), h.begin(), h.end()); u.seq(h2); }
    }
    if (sh->viol) violation(sh->what, sh->art);
    return finish();
  }
  // the case indices of the quick tier are a prefix of the thorough tier's
  std::vector<pid_t> kids;
  std::map<pid_t, int> what;
  int running = 0, launched = 0, nproc = (int)std::max(1u, std::thread::hardware_concurrency());
  double limit = r.thorough ? 7000 : 500;
  while (launched < (int)cs.size() || running)
  {
    while (running < nproc && launched < (int)cs.size())
    {
      pid_t p = fork();
      if (p == 0) { alarm((unsigned)limit); explore_case(launched, cs[launched], r.thorough); _exit(0); }
      what[p] = launched++;
      ++running;
    }
    int st;
    pid_t p = wait(&st);
    --running;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      violation(fmt("the process died (status %d) while exploring histories of %s", st, META[cs[what[p]].id].name), "none");
  }
  long nsweep = 0;
  if (!sh->viol) sweep_all(r.thorough, nullptr, nsweep);
  r.extra["queries_in_sweep_histories"] = std::to_string(nsweep);
  if (sh->viol) violation(sh->what, sh->art);
  r.states = sh->states.load();
  r.transitions = sh->ops.load();
  r.traces = sh->seqs.load();
  r.comparisons = sh->cmps.load();
  r.extra["cases"] = std::to_string(cs.size());
  r.extra["bounds"] = jstr(fmt("all histories of depth 1 and 2 over the full alphabet, all of depth %d over 13 operations, one long history per case covering every ordered pair", r.thorough ? 4 : 3));
  r.extra["exhaustive"] = "true";
  for (int i = 0; i < 3; ++i) sample(fmt("%s: ", META[cs[i * 7 % cs.size()].id].name) + op_str(cs[i * 7 % cs.size()], { 0, DIST, 3 }) + " ; " + op_str(cs[i * 7 % cs.size()], { 1, PATH, 0 }));
  r.assumptions = { "answers are compared to 1e-12", "the alphabet is finite: queries differing in one component each" };
  return finish();
}
