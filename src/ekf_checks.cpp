// P12: belief propagation along a path.  Model: linear-Gaussian belief update of a feedback-controlled vehicle (Bry & Roy 2011), one
// transition per sampled step.  Every transition the implementation takes is replayed on the model: derivatives by quadrature of the
// motion equations, textbook Kalman update, own 3x3 algebra.
#include <array>
#include "sampling.hpp"
using namespace mc;

typedef std::array<double, 9> M3;
static M3 mul(const M3 &a, const M3 &b)
{
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[3 * i + j] = a[3 * i] * b[j] + a[3 * i + 1] * b[3 + j] + a[3 * i + 2] * b[6 + j];
  return r;
}
static M3 tr(const M3 &a) { return { a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8] }; }
static M3 add(const M3 &a, const M3 &b, double f = 1) { M3 r; for (int i = 0; i < 9; ++i) r[i] = a[i] + f * b[i]; return r; }
static double norm(const M3 &a) { double n = 0; for (double v : a) n = std::max(n, std::fabs(v)); return n; }
static M3 take(const double *c) { return { c[0], c[1], c[2], c[4], c[5], c[6], c[8], c[9], c[10] }; }
// X = A * inv(B), B symmetric positive definite (Cholesky)
static M3 right_solve(const M3 &A, const M3 &B)
{
  double L[3][3] = {};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j <= i; ++j)
    {
      double s = B[3 * i + j];
      for (int k = 0; k < j; ++k) s -= L[i][k] * L[j][k];
      L[i][j] = i == j ? std::sqrt(s) : s / L[j][j];
    }
  M3 X;
  for (int r = 0; r < 3; ++r)
  {
    double y[3], z[3];
    for (int i = 0; i < 3; ++i) { double s = A[3 * r + i]; for (int k = 0; k < i; ++k) s -= L[i][k] * y[k]; y[i] = s / L[i][i]; }
    for (int i = 2; i >= 0; --i) { double s = y[i]; for (int k = i + 1; k < 3; ++k) s -= L[k][i] * z[k]; z[i] = s / L[i][i]; }
    for (int i = 0; i < 3; ++i) X[3 * r + i] = z[i];
  }
  return X;
}

struct Noise { Motion_Noise m; Measurement_Noise n; Controller c; };
struct Belief { M3 S, L; };

// derivatives of the end pose: quadrature of the variational equations
static void jac(double th, double k, double sg, double d, double h, M3 &Fx, double Fu[3][2])
{
  static const double X[5] = { 0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717 };
  static const double W[5] = { 0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881 };
  int n = (int)std::ceil((std::fabs(k) * h + 0.5 * std::fabs(sg) * h * h) / 0.7) + 1;
  double w = h / n, C = 0, S = 0, Cs = 0, Ss = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 5; ++j)
      for (int e = -1; e <= 1; e += 2)
      {
        double s = (i + 0.5) * w + e * X[j] * 0.5 * w, t = th + d * (k * s + 0.5 * sg * s * s), f = W[j] * 0.5 * w;
        C += f * std::cos(t);
        S += f * std::sin(t);
        Cs += f * s * std::cos(t);
        Ss += f * s * std::sin(t);
      }
  Fx = { 1, 0, -d * S, 0, 1, d * C, 0, 0, 1 };
  double te = th + d * (k * h + 0.5 * sg * h * h);
  Fu[0][0] = std::cos(te);   // w.r.t. the signed step length
  Fu[1][0] = std::sin(te);
  Fu[2][0] = k + sg * h;
  Fu[0][1] = -Ss;            // w.r.t. the curvature
  Fu[1][1] = Cs;
  Fu[2][1] = d * h;
}

static Belief model_step(const Belief &b, const Noise &z, double th, double k, double sg, double d, double h, bool gap = false)
{
  M3 F;
  double U[3][2];
  jac(th, k, sg, d, h, F, U);
  if (gap) U[0][1] = U[1][1] = 0;
  double q[2] = { z.m.alpha1 * h * h + z.m.alpha2 * k * k, z.m.alpha3 * h * h + z.m.alpha4 * k * k };
  M3 Sp = mul(mul(F, b.S), tr(F));
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) Sp[3 * i + j] += U[i][0] * q[0] * U[j][0] + U[i][1] * q[1] * U[j][1];
  // closed loop: u = -K * (error in the vehicle frame)
  double c = std::cos(th), s = std::sin(th);
  double KR[2][3] = { { z.c.k1 * c, z.c.k1 * s, 0 }, { -z.c.k2 * s, z.c.k2 * c, d * z.c.k3 } };
  M3 A = F;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) A[3 * i + j] -= U[i][0] * KR[0][j] + U[i][1] * KR[1][j];
  M3 Lp = mul(mul(A, b.L), tr(A));
  M3 Sz = Sp;
  Sz[0] += z.n.std_x * z.n.std_x;
  Sz[4] += z.n.std_y * z.n.std_y;
  Sz[8] += z.n.std_theta * z.n.std_theta;
  M3 G = right_solve(Sp, Sz), GS = mul(G, Sp);
  return { add(Sp, GS, -1), add(Lp, GS) };
}

// Known finding "straight-step" (known_findings.txt): on a straight step the library takes the position as independent of the
// curvature input.  Exactly that deviation, on exactly such steps, is accepted as long as the file lists it.
static bool listed()
{
  static const bool yes = [] {
    FILE *f = fopen("known_findings.txt", "r");
    char line[1000];
    bool hit = false;
    while (f && fgets(line, sizeof line, f)) hit |= !strncmp(line, "known: property=P12 straight-step ", 34);
    if (f) fclose(f);
    return hit;
  }();
  return yes;
}
static std::atomic<long> known_hits{ 0 };

static std::vector<Noise> noises(bool thorough)
{
  std::vector<Noise> v = { { { 0.1, 0.01, 0.1, 0.02 }, { 0.1, 0.2, 0.05 }, { 1.0, 1.0, 1.0 } },
                           { { 0.03, 0.0, 0.0, 0.5 }, { 1.0, 0.3, 0.2 }, { 0.4, 0.0, 1.3 } },
                           { { 0.0, 0.2, 0.07, 0.0 }, { 0.02, 5.0, 1.0 }, { 0.0, 0.7, 0.0 } } };
  if (thorough)
  {
    v.push_back({ { 0, 0, 0, 0 }, { 0.1, 0.1, 0.1 }, { 0, 0, 0 } });
    v.push_back({ { 1, 1, 1, 1 }, { 10, 20, 3 }, { 0.2, 0.5, 2 } });
    v.push_back({ { 1e-4, 2e-4, 3e-4, 4e-4 }, { 1e-3, 2e-3, 5e-4 }, { 0.9, 0.3, 0.1 } });
  }
  return v;
}
static std::vector<Belief> beliefs(bool thorough)
{
  M3 Z = {}, D = { 0.5, 0, 0, 0, 0.3, 0, 0, 0, 0.2 };
  M3 P = { 0.6, 0.1, -0.05, 0.1, 0.4, 0.08, -0.05, 0.08, 0.3 }, Q = { 0.05, -0.02, 0.01, -0.02, 0.09, 0.015, 0.01, 0.015, 0.07 };
  std::vector<Belief> v = { { P, Q }, { Z, Z } };
  if (thorough) { v.push_back({ D, Z }); v.push_back({ Z, D }); v.push_back({ Q, P }); }
  return v;
}

static void put(const M3 &m, double *c) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[4 * i + j] = m[3 * i + j]; }
static State_With_Covariance start_of(const State &a, const Belief &b)
{
  State_With_Covariance s;
  s.state = a;
  put(b.S, s.Sigma);
  put(b.L, s.Lambda);
  put(add(b.S, b.L), s.covariance);
  return s;
}
static double diff(const double *a, const M3 &m) { return norm(add(take(a), m, -1)); }

static void check_beliefs(Space &sp, const State_With_Covariance &a, const Controls &cs, const std::vector<State_With_Covariance> &pc, const Noise &z, Ctx &c)
{
  std::vector<State> path;
  for (auto &s : pc) path.push_back(s.state);
  std::vector<std::pair<int, double>> at;
  if (!c.require("empty path", !path.empty())) return;
  check_sampling(sp, a.state, cs, path, c, &at);
  if (at.size() != path.size()) return;  // already reported
  double e0 = 0;
  for (int i = 0; i < 16; ++i)
    e0 = std::max({ e0, std::fabs(pc[0].Sigma[i] - a.Sigma[i]), std::fabs(pc[0].Lambda[i] - a.Lambda[i]), std::fabs(pc[0].covariance[i] - a.covariance[i]) });
  c.need("the first belief is not the initial belief", e0, 1e-12);
  // sharpness below the library's resolution: where exactly a sample lies on its segment is only known roughly
  double rough = 0;
  for (auto &u : cs) if (u.sigma != 0 && std::fabs(u.sigma) <= 1.01e-4) rough = 1e-3;
  for (size_t i = 1; i < pc.size(); ++i)
  {
    const auto &p = pc[i - 1], &n = pc[i];
    Belief b = { take(p.Sigma), take(p.Lambda) };
    const Control &u = cs[at[i].first];
    if (!(norm(b.S) + norm(b.L) < 1e5)) break;  // unstable closed loop: the numbers carry no information any more
    // a step may start in an earlier segment whose end it left: then it covers the whole of [0, s] of its own segment
    double h = at[i].second - (at[i].first == at[i - 1].first ? at[i - 1].second : 0), d = sign_of(u.delta_s), k = p.state.kappa;
    double move = std::hypot(n.state.x - p.state.x, n.state.y - p.state.y);
    // step length measured from the pose the step starts at (the walk's reference pose may be off by its slack)
    for (int it = 0; it < 12; ++it)
    {
      RState e = { p.state.x, p.state.y, p.state.theta, k };
      ref_advance(e, d, u.sigma, h);
      double al = d * ((n.state.x - e.x) * std::cos(e.th) + (n.state.y - e.y) * std::sin(e.th));
      h = std::max(0.0, h + al);
      if (std::fabs(al) < 1e-13) break;
    }
    Belief w = model_step(b, z, p.state.theta, k, u.sigma, d, h);
    double sc = norm(w.S) + norm(b.S) + 1e-6, lc = norm(w.L) + norm(b.L) + norm(w.S) + 1e-6;
    double tol = 1e-5 + rough + 20 * std::fabs(u.sigma) * (std::fabs(u.sigma) <= 1.01e-4) * (1 + h * h * h);
    if (std::fabs(k) <= 1.01e-4) tol += 2e-4 * (1 + h * h);
    double eS = diff(n.Sigma, w.S) / sc, eL = diff(n.Lambda, w.L) / lc;
    bool still = move < 1e-9 && diff(n.Sigma, b.S) <= 1e-12 * sc && diff(n.Lambda, b.L) <= 1e-12 * lc;
    if (!still && (eS > tol || eL > tol) && std::fabs(k) <= 1.01e-4 && std::fabs(u.sigma) <= 1.01e-4 && listed())
    {
      w = model_step(b, z, p.state.theta, k, u.sigma, d, h, true);
      double gS = diff(n.Sigma, w.S) / sc, gL = diff(n.Lambda, w.L) / lc;
      if (gS <= tol && gL <= tol) { eS = gS; eL = gL; ++known_hits; }
    }
    auto in = [&] { return fmt("state %zu of %zu, step %.6g kappa %.6g sigma %.6g d %g ", i, pc.size(), h, k, u.sigma, d) + show(cs); };
    if (!still)
    {
      if (!c.need("estimation covariance off the model", eS, tol, in)) return;
      if (!c.need("tracking covariance off the model", eL, tol, in)) return;
    }
    if (!c.need("covariance is not the sum of both parts", diff(n.covariance, add(take(n.Sigma), take(n.Lambda))) / (sc + lc), 1e-9, in)) return;
    double kap = 0;
    for (int j : { 3, 7, 11, 12, 13, 14, 15 }) kap = std::max({ kap, std::fabs(n.Sigma[j]), std::fabs(n.Lambda[j]), std::fabs(n.covariance[j]) });
    c.need("curvature rows are not zero", kap, 0, in);
    for (const double *m : { n.Sigma, n.Lambda, n.covariance })
    {
      M3 x = take(m);
      double N = norm(x) + 1e-9;
      c.need("covariance is not symmetric", norm(add(x, tr(x), -1)) / N, 1e-8, in);
      double neg = std::max({ -x[0], -x[4], -x[8], x[1] * x[1] / N - x[0] * x[4] / N, x[2] * x[2] / N - x[0] * x[8] / N, x[5] * x[5] / N - x[4] * x[8] / N }) / N;
      double det = x[0] * (x[4] * x[8] - x[5] * x[7]) - x[1] * (x[3] * x[8] - x[5] * x[6]) + x[2] * (x[3] * x[7] - x[4] * x[6]);
      c.need("covariance is not positive semidefinite", std::max(neg, -det / N / N / N), 1e-7, in);
    }
  }
}

// query.ub: packed (noise, belief); for control words the word index is added in steps of 64
static void p12(Space &sp, const Query &q, Ctx &c)
{
  auto ns = noises(true);
  auto bs = beliefs(true);
  long code = (long)q.ub;
  const Noise &z = ns[code % 8];
  const Belief &b = bs[(code / 8) % 8];
  sp.set_filter(z.m, z.n, z.c);
  State_With_Covariance a = start_of(q.a, b);
  if (q.kind == CWORD)
  {
    Query w = q;
    w.ub = (double)(code / 64);
    const Controls &cs = control_word(w);
    ++c.calls;
    check_beliefs(sp, a, cs, sp.integrate_cov(a, cs), z, c);
    return;
  }
  Controls cs = sp.controls(q.a, q.b);
  auto pc = sp.path_cov(a, q.b);
  auto pp = sp.path(q.a, q.b);
  c.calls += 3;
  if (!c.require("no controls", !cs.empty())) return;
  bool same = pc.size() == pp.size();
  for (size_t i = 0; same && i < pc.size(); ++i)
  {
    const State &x = pc[i].state, &y = pp[i];
    same = std::hypot(x.x - y.x, x.y - y.y) < 1e-9 * (1 + std::fabs(x.x) + std::fabs(x.y)) && ang_err(x.theta, y.theta) < 1e-9 && std::fabs(x.kappa - y.kappa) < 1e-9 && x.d == y.d;
  }
  c.require("the belief path visits other states than the plain path", same);
  check_beliefs(sp, a, cs, pc, z, c);
}

int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  guard_start();
  auto done = [&] {
    if (known_hits) printf("KNOWN-FINDING: property=P12 straight-step: on a straight step the filter ignores the effect of curvature noise and of the controller's curvature on the position\n");
    r.extra["steps_with_known_finding"] = std::to_string(known_hits.load());
    return finish();
  };
  if (replay_queries(p12)) return done();
  size_t nn = noises(r.thorough).size(), nb = beliefs(r.thorough).size();
  std::map<std::string, long> per;
  size_t cnt = 0;
  auto go = [&](std::vector<Query> &qs) {
    for (auto &q : qs) per[KIND[q.kind]]++;
    if (!qs.empty()) sample(show(qs[qs.size() / 2]));
    explore(qs, p12);
    qs.clear();
  };
  std::vector<Par> ps = params(r.thorough);
  size_t major = ps.size(), np = 0;
  for (auto &p : minor_params()) ps.push_back(p);
  for (auto &p : ps)
  {
    bool minor = ++np > major;
    if (p.disc * p.k > 1) continue;  // several turns per sample
    // every control word x every noise set x every initial belief
    std::vector<Query> qs;
    auto starts = start_poses(p, false);
    for (int sid : { (int)DUB_F, (int)RS, (int)CC00F, (int)HC00 })
    {
      auto ws = control_words(p, META[sid].cls == G1, false);
      for (size_t i = 0; i < ws.size(); i += minor ? 10 : 1)
        for (size_t e = 0; e < nn; ++e)
          for (size_t b = 0; b < nb; ++b)
          {
            Query q;
            q.space = sid;
            q.p = p;
            q.a = starts[i % starts.size()];
            q.b = mk(0, 0, 0);
            q.kind = CWORD;
            q.ub = (double)(i * 64 + b * 8 + e);
            qs.push_back(q);
          }
    }
    go(qs);
    // planner output of all planners; noise set and belief cycle
    DomainOpt o = domain_opt(false);
    o.thin = (r.thorough ? 4 : 12) * (minor ? 10 : 1);
    o.far = false;
    Goals g = goals_for(p, o, false);
    for (int s = 0; s < NSPACES; ++s) queries_for(s, p, g, o, false, qs);
    for (auto &q : qs) q.ub = (double)((cnt / nn % nb) * 8 + cnt % nn), ++cnt;
    go(qs);
  }
  std::string k = "{";
  for (auto &e : per) k += (k.size() > 1 ? ", " : "") + jstr(e.first) + ": " + std::to_string(e.second);
  r.extra["queries_by_source"] = k + "}";
  r.extra["noise_sets"] = std::to_string(nn);
  r.extra["initial_beliefs"] = std::to_string(nb);
  r.extra["exhaustive"] = "true";
  r.assumptions = { "measurement noise is positive definite", "one filter step per sampled step; states added at curvature jumps keep their belief",
                    "results between enumerated inputs are not covered" };
  return done();
}
