// P01..P06, P10, P11: one oracle per property, evaluated on every query of the bounded input space.
#include "sampling.hpp"
#include "words.hpp"
using namespace mc;

static const double TINY = 1e-6;  // a control of this length or less carries no motion

// what the library's documented 1e-4 resolution can move an end point by: position units 1/kappa, plus heading resolution
// times travelled length
static double tol_pos(const Query &q, double L) { return 1.5e-3 / q.p.k + 3e-4 + 3e-4 * L; }
static double tol_th(const Query &q) { return 1e-3; }

static bool finite_controls(const Controls &cs)
{
  for (auto &c : cs)
    if (!std::isfinite(c.delta_s) || !std::isfinite(c.kappa) || !std::isfinite(c.sigma)) return false;
  return true;
}
// ---------------------------------------------------------------- P01
static void p01(Space &sp, const Query &q, Ctx &c)
{
  Controls cs = sp.controls(q.a, q.b);
  auto path = sp.path(q.a, q.b);
  c.calls += 2;
  if (!c.require("no controls returned", !cs.empty() && finite_controls(cs), [&] { return show(cs); })) return;
  if (!c.require("no path returned", !path.empty())) return;
  double L = clen(cs);
  RState e = ref_run(q.a, cs);
  c.need("controls end off the goal position", std::hypot(e.x - q.b.x, e.y - q.b.y), tol_pos(q, L), [&] { return show(cs); });
  c.need("controls end off the goal heading", ang_err(e.th, q.b.theta), tol_th(q), [&] { return show(cs); });
  const State &f = path.front(), &l = path.back();
  c.need("path starts off the start position", std::hypot(f.x - q.a.x, f.y - q.a.y), 1e-9 * (1 + std::fabs(q.a.x) + std::fabs(q.a.y)));
  c.need("path starts off the start heading", ang_err(f.theta, q.a.theta), 1e-9);
  c.need("path ends off the goal position", std::hypot(l.x - q.b.x, l.y - q.b.y), 3 * tol_pos(q, L), [&] { return show(cs); });
  c.need("path ends off the goal heading", ang_err(l.theta, q.b.theta), 5 * tol_th(q), [&] { return show(cs); });
}

// ---------------------------------------------------------------- P02
static void p02(Space &sp, const Query &q, Ctx &c)
{
  double L = sp.dist(q.a, q.b);
  Controls cs = sp.controls(q.a, q.b);
  auto path = sp.path(q.a, q.b);
  c.calls += 3;
  double S = clen(cs);
  double tol = 3e-4 + 3e-4 / q.p.k + 1e-9 * S;
  c.require("distance is not finite", std::isfinite(L) && L >= 0, [&] { return fmt("%g", L); });
  c.need("distance differs from the summed control lengths", std::fabs(L - S), tol, [&] { return fmt("distance %.9g ", L) + show(cs); });
  double chord = 0;
  for (size_t i = 0; i + 1 < path.size(); ++i) chord += std::hypot(path[i + 1].x - path[i].x, path[i + 1].y - path[i].y);
  double kd = q.p.k * q.p.disc;
  double lo = kd < 1 ? S * (1 - kd * kd / 24 * 1.01) : 0;
  c.need("sampled path longer than the distance", chord - S, tol, [&] { return fmt("chord %.9g length %.9g", chord, S); });
  c.need("sampled path shorter than the distance", lo - chord, tol, [&] { return fmt("chord %.9g length %.9g", chord, S); });
  c.need("distance below the straight-line distance", std::hypot(q.b.x - q.a.x, q.b.y - q.a.y) - L, tol + 1e-3 / q.p.k + 2e-4 * L);
}

// ---------------------------------------------------------------- P03
static void p03(Space &sp, const Query &q, Ctx &c)
{
  Controls cs = sp.controls(q.a, q.b);
  auto path = sp.path(q.a, q.b);
  c.calls += 2;
  double km = 0, sm = 0, pm = 0;
  bool g1 = sp.m.cls == G1, offset = false;
  for (auto &u : cs)
  {
    km = std::max({ km, std::fabs(u.kappa), std::fabs(u.kappa + u.sigma * std::fabs(u.delta_s)) });
    sm = std::max(sm, std::fabs(u.sigma));
    if (g1 && u.sigma != 0) offset = true;
    if (g1 && !(std::fabs(u.kappa) < 1e-9 || std::fabs(std::fabs(u.kappa) - q.p.k) < 1e-9 * q.p.k)) offset = true;
  }
  // library resolution: curvature levels are recognised within 1e-4
  c.need("curvature exceeds the maximum (controls)", km - q.p.k, 1e-6 * q.p.k + 2e-4, [&] { return show(cs); });
  if (!g1) c.need("sharpness exceeds the maximum", sm - q.p.s, 1e-4 * q.p.s, [&] { return show(cs); });
  c.require("segment is neither straight nor a maximum-curvature arc", !offset, [&] { return show(cs); });
  for (size_t i = 0; i < path.size(); ++i)
  {
    if (!(std::fabs(path[i].kappa) <= pm)) pm = std::fabs(path[i].kappa);
    if (i)
    {
      // what the vehicle actually does: heading change per travelled length
      double ch = std::hypot(path[i].x - path[i - 1].x, path[i].y - path[i - 1].y), kd = q.p.k * ch / 2;
      double dth = ang_err(path[i].theta, path[i - 1].theta);
      if (q.p.k * q.p.disc < 0.5)
        c.need("path turns tighter than the minimum radius", dth - 2 * std::asin(std::min(1.0, kd)), 1e-3 * kd + 1e-7);
    }
  }
  c.need("curvature exceeds the maximum (path)", pm - q.p.k, 1e-6 * q.p.k + 2e-4);
}

// ---------------------------------------------------------------- P04
static void p04(Space &sp, const Query &q, Ctx &c)
{
  if (sp.m.cls == G1) return;
  Controls cs = sp.controls(q.a, q.b);
  auto path = sp.path(q.a, q.b);
  c.calls += 2;
  double tol = 3e-4 + 1e-4 * q.p.k;
  // between two motion-carrying segments; a direction switch (also one of zero length, i.e. a negligible segment) releases HC
  bool have = false, tiny = false;
  double k = 0, d = 0;
  for (auto &u : cs)
  {
    double len = std::fabs(u.delta_s);
    if (u.kappa != 0 && len <= TINY) { tiny = true; continue; }  // an arc that carries no motion; a vanishing line keeps its direction
    if (have)
    {
      bool cusp = sign_of(u.delta_s) != d;
      if (sp.m.cls == CC || !(cusp || tiny)) c.need("curvature jumps between segments", std::fabs(u.kappa - k), tol, [&] { return show(cs); });
      else { ++c.cmps; }
    }
    have = true;
    tiny = false;
    k = u.kappa + u.sigma * len;
    d = sign_of(u.delta_s);
  }
  bool anytiny = false;
  double ptol = tol;
  for (auto &u : cs)
  {
    if (u.kappa != 0 && std::fabs(u.delta_s) <= TINY) anytiny = true;
    // sharpness below the library's resolution: its curvature change is applied at the segment end
    if (std::fabs(u.sigma) <= 1.01e-4) ptol = std::max(ptol, tol + std::fabs(u.sigma * u.delta_s));
  }
  for (size_t i = 0; i + 1 < path.size(); ++i)
  {
    if (sp.m.cls == HC && (path[i].d != path[i + 1].d || anytiny)) continue;
    double ch = std::hypot(path[i].x - path[i + 1].x, path[i].y - path[i + 1].y);
    // arc length of the step from its chord
    double kd = q.p.k * q.p.disc;
    double st = kd < 1 ? ch * 1.06 : q.p.disc * 1.0001;
    c.need("curvature jumps along the path", std::fabs(path[i].kappa - path[i + 1].kappa), q.p.s * st + 1.5 * ptol);
  }
}

// ---------------------------------------------------------------- P05
static double curv_err(CurvMode m, double want, double got, double k)
{
  if (m == FREE) return 0;
  if (m == ZERO) return std::fabs(got);
  if (m == PM) return want == 0 ? std::fabs(std::fabs(got) - k) : std::fabs(got - (want > 0 ? k : -k));
  return std::fabs(got - want);
}
static void p05(Space &sp, const Query &q, Ctx &c)
{
  if (sp.m.cls == G1) return;
  Controls cs = sp.controls(q.a, q.b);
  auto path = sp.path(q.a, q.b);
  c.calls += 2;
  if (cs.empty() || path.empty()) { c.require("nothing returned", false); return; }
  double tol = 3e-4 + 1e-4 * q.p.k;
  if (sp.m.s == ANY) tol += 1.05e-4 * q.p.s;  // a first or last clothoid below the length resolution is left out
  double ke = cs.back().kappa + cs.back().sigma * std::fabs(cs.back().delta_s);
  // sharpness below the library's resolution is not integrated
  double sub = std::fabs(cs.back().sigma) <= 1.01e-4 ? std::fabs(cs.back().sigma * cs.back().delta_s) : 0;
  c.need("controls start with the wrong curvature", curv_err(sp.m.s, q.a.kappa, cs.front().kappa, q.p.k), tol, [&] { return show(cs); });
  c.need("controls end with the wrong curvature", curv_err(sp.m.g, q.b.kappa, ke, q.p.k), tol, [&] { return show(cs); });
  c.need("path starts with the wrong curvature", curv_err(sp.m.s, q.a.kappa, path.front().kappa, q.p.k), tol, [&] { return show(cs); });
  c.need("path ends with the wrong curvature", curv_err(sp.m.g, q.b.kappa, path.back().kappa, q.p.k), tol + 2e-4 + 1e-3 * q.p.k + sub, [&] { return show(cs); });
  // only the sign (superscript +-) or nothing (superscript 0) of a given curvature counts: the same query with other curvature values
  if (sp.m.s == ANY && sp.m.g == ANY) return;
  uint64_t h;
  double bits = q.b.x + 3 * q.b.y + 7 * q.b.theta;
  memcpy(&h, &bits, 8);
  h = (h * 0x9E3779B97F4A7C15ull) >> 32;
  static const double Z[8] = { 0.5, -1, 1e-6, 3, -0.02, 1e-12, -0.3, 1 }, M[8] = { 1e-9, 0.004, 0.3, 0.97, 2.5, 1e-5, 0.05, 0.6 };
  State a = q.a, b = q.b;
  auto other = [&](CurvMode m, double &k, unsigned v) {
    if (m == ZERO) k = Z[v] * q.p.k;
    else if (m == PM && k != 0) k = (k > 0 ? 1 : -1) * M[v] * q.p.k;
  };
  other(sp.m.s, a.kappa, h & 7);
  other(sp.m.g, b.kappa, (h >> 3) & 7);
  double d0 = sp.dist(q.a, q.b), d1 = sp.dist(a, b);
  Controls cs1 = sp.controls(a, b);
  c.calls += 3;
  auto in = [&] { return fmt("given curvatures %.6g %.6g ", a.kappa, b.kappa) + show(cs1); };
  if (cs1.empty()) { c.require("nothing returned for another given curvature", false); return; }
  double ke1 = cs1.back().kappa + cs1.back().sigma * std::fabs(cs1.back().delta_s);
  c.need("controls start with the wrong curvature", curv_err(sp.m.s, a.kappa, cs1.front().kappa, q.p.k), tol, in);
  c.need("controls end with the wrong curvature", curv_err(sp.m.g, b.kappa, ke1, q.p.k), tol, in);
  c.need("the size of the given curvature changes the distance", std::fabs(d1 - d0), 1e-9 * (1 + d0), in);
}

// ---------------------------------------------------------------- P06
static void p06(Space &sp, const Query &q, Ctx &c)
{
  Controls cs = sp.controls(q.a, q.b);
  auto path = sp.path(q.a, q.b);
  c.calls += 2;
  if (sp.m.dir)
    for (auto &u : cs) c.need("segment driven in the forbidden direction", -sp.m.dir * u.delta_s, TINY, [&] { return show(cs); });
  bool anytiny = false;
  for (auto &u : cs) if (std::fabs(u.delta_s) <= 2e-4) anytiny = true;
  for (size_t i = 0; i < path.size(); ++i)
  {
    c.require("direction flag is not +1/-1", path[i].d == 1 || path[i].d == -1, [&] { return fmt("%g", path[i].d); });
    if (sp.m.dir && !anytiny) c.require("direction flag contradicts the space", path[i].d == sp.m.dir);
    if (i && q.p.k * q.p.disc < 1)
    {
      double th = path[i].theta;
      double adv = (path[i].x - path[i - 1].x) * std::cos(th) + (path[i].y - path[i - 1].y) * std::sin(th);
      c.need("vehicle moves against the direction flag", -path[i].d * adv, 1e-6, [&] { return show(cs); });
      if (sp.m.dir) c.need("path moves in the forbidden direction", -sp.m.dir * adv, 1e-6, [&] { return show(cs); });
    }
  }
}

// ---------------------------------------------------------------- P10
static void check_interpolation(Space &sp, const State &a, const Controls &cs, Ctx &c, bool dense)
{
  double L = clen(cs);
  std::vector<Slack> sls = slacks(cs);
  double ks = kslack(cs);
  double scale = 1e-9 * (std::fabs(a.x) + std::fabs(a.y));
  std::vector<double> ts = { -3, -1e-12, 0, 0.5, 1, 1 + 1e-12, 2.5 };
  if (dense) for (double t : { 1e-9, 0.05, 0.123, 0.25, 0.4, 0.6, 0.75, 0.9, 0.999, 1 - 1e-9 }) ts.push_back(t);
  double cum = 0;
  if (L > 0)
    for (auto &u : cs)
    {
      double l = std::fabs(u.delta_s);
      for (double x : { cum, cum + 0.5 * l, cum + 1e-5, cum - 1e-5 }) if (x > 0 && x < L) ts.push_back(x / L);
      cum += l;
    }
  for (double t : ts)
  {
    State r = sp.interpolate(a, cs, t);
    ++c.calls;
    double tc = t <= 0 ? 0 : (t > 1 ? 1 : t), s = tc * L;
    int at = 0;
    RState e = ref_at(a, cs, s, &at);
    const Slack &sl = sls[at];
    auto in = [&] { return fmt("t=%.12g ", t) + show(cs); };
    c.need("interpolated position off the path", std::hypot(r.x - e.x, r.y - e.y), sl.pos + scale, in);
    c.need("interpolated heading off the path", ang_err(r.theta, e.th), sl.th, in);
    // curvature and direction: at a junction either side is acceptable
    double kerr = 1e300;
    bool dok = false;
    double cum2 = 0;
    for (auto &u : cs)
    {
      double l = std::fabs(u.delta_s), x = s - cum2;
      if (x >= -1e-7 - 1e-9 * L && x <= l + 1e-7 + 1e-9 * L)
      {
        double xx = std::min(std::max(x, 0.0), l);
        kerr = std::min(kerr, std::fabs(r.kappa - (u.kappa + u.sigma * xx)));
        if (r.d == sign_of(u.delta_s)) dok = true;
      }
      cum2 += l;
    }
    c.need("interpolated curvature off the path", kerr, ks, in);
    c.require("interpolated direction wrong", dok, in);
  }
}
static void p10(Space &sp, const Query &q, Ctx &c)
{
  if (q.kind == CWORD) { check_interpolation(sp, q.a, control_word(q), c, false); return; }
  Controls cs = sp.controls(q.a, q.b);
  ++c.calls;
  if (cs.empty()) { c.require("no controls", false); return; }
  check_interpolation(sp, q.a, cs, c, true);
}

// ---------------------------------------------------------------- P11
static void p11(Space &sp, const Query &q, Ctx &c)
{
  if (q.kind == CWORD) { ++c.calls; check_sampling(sp, q.a, control_word(q), sp.integrate(q.a, control_word(q)), c); return; }
  Controls cs = sp.controls(q.a, q.b);
  c.calls += 1;
  if (cs.empty()) { c.require("no controls", false); return; }
  auto path = sp.integrate(q.a, cs);
  auto path2 = sp.path(q.a, q.b);
  c.calls += 2;
  check_sampling(sp, q.a, cs, path, c);
  bool same = path.size() == path2.size();
  for (size_t i = 0; same && i < path.size(); ++i)
    same = std::fabs(path[i].x - path2[i].x) + std::fabs(path[i].y - path2[i].y) < 1e-9 * (1 + std::fabs(path[i].x) + std::fabs(path[i].y)) &&
           ang_err(path[i].theta, path2[i].theta) < 1e-9 && std::fabs(path[i].kappa - path2[i].kappa) < 1e-9 && path[i].d == path2[i].d;
  c.require("planned path differs from the integrated controls", same);
}

static void control_word_pass(const Eval &ev)
{
  Run &r = run();
  for (auto &p : params(r.thorough))
  {
    std::vector<Query> qs;
    auto starts = start_poses(p, r.thorough);
    for (int sid : { (int)DUB_F, (int)RS, (int)CC00F, (int)HC00 })
    {
      size_t n = control_words(p, META[sid].cls == G1, r.thorough).size();
      for (size_t i = 0; i < n; ++i)
      {
        Query q;
        q.space = sid;
        q.p = p;
        q.a = starts[i % starts.size()];
        q.b = mk(0, 0, 0);
        q.kind = CWORD;
        q.ub = (double)i;
        qs.push_back(q);
      }
    }
    explore(qs, ev);
  }
}

int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  guard_start();
  std::map<std::string, Eval> ev = { { "P01", p01 }, { "P02", p02 }, { "P03", p03 }, { "P04", p04 }, { "P05", p05 }, { "P06", p06 }, { "P10", p10 }, { "P11", p11 } };
  if (!ev.count(r.prop)) return 2;
  if (replay_queries(ev[r.prop])) return finish();
  DomainOpt o = domain_opt(r.thorough);
  if (r.prop == "P10" || r.prop == "P11") o.thin = r.thorough ? 5 : 4;
  std::vector<int> spaces;
  for (int s = 0; s < NSPACES; ++s)
    if (!((r.prop == "P04" || r.prop == "P05") && META[s].cls == G1)) spaces.push_back(s);
  std::map<std::string, long> per;
  std::vector<Par> ps = params(r.thorough);
  size_t major = ps.size(), np = 0;
  for (auto &p : minor_params()) ps.push_back(p);
  for (auto &p : ps)
  {
    std::vector<Query> qs;
    if (++np == major + 1) o.thin *= r.thorough ? 5 : 20;
    if (r.prop == "P11" && p.disc * p.k >= 6) continue;  // a step may be a full circle: the walk along the curve is ambiguous
    Goals g = goals_for(p, o, r.thorough);
    for (int s : spaces)
    {
      queries_for(s, p, g, o, r.thorough, qs);
      family_queries(s, p, false, r.thorough ? std::max(1, o.thin - 1) : o.thin, qs);
    }
    for (auto &q : qs) per[KIND[q.kind]]++;
    for (size_t i = 0; i < qs.size(); i += qs.size() / 2 + 1) sample(show(qs[i]));
    explore(qs, ev[r.prop]);
  }
  if (r.prop == "P10" || r.prop == "P11") control_word_pass(ev[r.prop]);
  std::string k = "{";
  for (auto &e : per) k += (k.size() > 1 ? ", " : "") + jstr(e.first) + ": " + std::to_string(e.second);
  r.extra["queries_by_source"] = k + "}";
  r.extra["exhaustive"] = "true";
  r.extra["bounds"] = jstr(fmt("%zu parameter sets (and %zu more with a sparse share), %zu planner instances; pose lattices, far goals, all curvature-automaton words (depth %d), all "
                               "tangent words (depth %d), path-family words, circle-coincidence goals, perturbations, coincident poses", major, ps.size() - major,
                               spaces.size(), o.micro_depth, o.g1_depth));
  r.assumptions = { "sharpness >= 1e-3 and curvature >= 0.01 (the library uses an absolute 1e-4 resolution)",
                    "results between enumerated inputs are not covered" };
  return finish();
}
