// P09: the distance respects the symmetries of the problem.  For every query of the bounded input space, every element of a
// finite set of symmetry transformations is applied and the two answers of the implementation are compared.
#include "words.hpp"
using namespace mc;

static State xf(const State &s, double dx, double dy, double rot, int turns)
{
  State r = s;
  r.x = std::cos(rot) * s.x - std::sin(rot) * s.y + dx;
  r.y = std::sin(rot) * s.x + std::cos(rot) * s.y + dy;
  r.theta = s.theta + rot + 2 * M_PI * turns;
  return r;
}
static State mirror(const State &s) { State r = s; r.y = -s.y; r.theta = -s.theta; r.kappa = -s.kappa; return r; }
static State about(const State &s) { State r = s; r.theta = s.theta + M_PI; r.kappa = -s.kappa; return r; }
static State scale(const State &s, double l) { State r = s; r.x *= l; r.y *= l; r.kappa /= l; return r; }

// planner that drives the same manoeuvre from b to a
static int swapped(int id)
{
  switch (id)
  {
    case DUB_F: return DUB_B; case DUB_B: return DUB_F;
    case CC00F: return CC00B; case CC00B: return CC00F;
    case CC0PF: return CCP0B; case CC0PB: return CCP0F;
    case CCP0F: return CC0PB; case CCP0B: return CC0PF;
    case CCPPF: return CCPPB; case CCPPB: return CCPPF;
    case CCF: return CCB; case CCB: return CCF;
    case HC0P: return HCP0; case HCP0: return HC0P;
  }
  return id;
}
// planner for the vehicle turned about by 180 degrees
static int turned(int id)
{
  switch (id)
  {
    case DUB_F: return DUB_B; case DUB_B: return DUB_F;
    case CC00F: return CC00B; case CC00B: return CC00F;
    case CC0PF: return CC0PB; case CC0PB: return CC0PF;
    case CCP0F: return CCP0B; case CCP0B: return CCP0F;
    case CCPPF: return CCPPB; case CCPPB: return CCPPF;
    case CCF: return CCB; case CCB: return CCF;
  }
  return id;
}

// smallest and largest distance in a tiny neighbourhood of the goal (distances jump at family boundaries, where rounding
// decides; a symmetric query may come out on the other side of the jump)
static void range(const Space &sp, const State &a, const State &b, double k, double &lo, double &hi, Ctx &c)
{
  lo = hi = sp.dist(a, b);
  for (double e : { 1e-9, 1e-7, 1e-5, 2e-4 })
    for (int i = -1; i <= 1; ++i)
      for (int j = -1; j <= 1; ++j)
        for (int l = -1; l <= 1; ++l)
        {
          State n = b;
          double ep = e < 1e-4 ? e / k : std::max(e, e / k);  // the library's resolution is absolute
          n.x += i * ep;
          n.y += j * ep;
          n.theta += l * e;
          double d = sp.dist(a, n);
          ++c.calls;
          lo = std::min(lo, d);
          hi = std::max(hi, d);
        }
}

static void same(const char *what, const Query &q, Ctx &c, const Space &s1, const State &a, const State &b, const Space &s2, const State &a2,
                 const State &b2, double factor, double tolx = 1)
{
  double d1 = s1.dist(a, b), d2 = s2.dist(a2, b2) / factor;
  c.calls += 2;
  double tol = tolx * (1e-3 / q.p.k + 2e-4 + 2e-4 * std::min(d1, d2));
  if (std::fabs(d1 - d2) <= tol) { ++c.cmps; return; }
  double l1, h1, l2, h2;
  range(s1, a, b, q.p.k, l1, h1, c);
  range(s2, a2, b2, q.p.k / factor, l2, h2, c);
  l2 /= factor;
  h2 /= factor;
  // the two ranges must overlap
  c.need(what, std::max(l1 - h2, l2 - h1), 3 * tol, [&] { return fmt("%.9g versus %.9g", d1, d2); });
}

static void p09(Space &sp, const Query &q, Ctx &c)
{
  struct { double dx, dy, rot; int t1, t2; } R[] = { { 3.3, -2.1, 0.77, 0, 0 }, { -150.5, 80.25, 2.9, 1, 0 }, { 0, 0, -1.234, 0, -2 }, { 0, 0, 0, -1, 3 },
                                                     { 691607.25 * q.p.k, 5335830.5 * q.p.k, 0.3, 0, 0 } };
  for (auto &r : R)
    same("distance changes when both poses are moved", q, c, sp, q.a, q.b, sp, xf(q.a, r.dx / q.p.k, r.dy / q.p.k, r.rot, r.t1),
         xf(q.b, r.dx / q.p.k, r.dy / q.p.k, r.rot, r.t2), 1);
  for (double seam : { M_PI - q.b.theta, M_PI - q.a.theta })
    same("distance changes when both poses are turned", q, c, sp, q.a, q.b, sp, xf(q.a, 0, 0, seam, 0), xf(q.b, 0, 0, seam, 0), 1);
  same("distance changes when the scene is mirrored", q, c, sp, q.a, q.b, sp, mirror(q.a), mirror(q.b), 1);
  same("distance changes when the manoeuvre is driven in reverse", q, c, sp, q.a, q.b, space_of(swapped(q.space), q.p), q.b, q.a, 1);
  same("distance changes when the vehicle is turned about", q, c, sp, q.a, q.b, space_of(turned(q.space), q.p), about(q.a), about(q.b), 1);
  for (double l : { 2.0, 0.4 })
  {
    Par p2 = { q.p.k / l, q.p.s / l / l, q.p.disc * l };
    if (p2.s < 1e-3) continue;
    same("distance does not scale with the vehicle", q, c, sp, q.a, q.b, space_of(q.space, p2), scale(q.a, l), scale(q.b, l), l, std::max(1.0, 1 / l));
  }
}


int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  guard_start();
  if (replay_queries(p09)) return finish();
  DomainOpt o = domain_opt(r.thorough);
  o.special = r.thorough;
  o.thin = r.thorough ? 1 : 2;
  std::map<std::string, long> per;
  std::vector<Par> ps = params(r.thorough);
  size_t major = ps.size(), np = 0, fthin = r.thorough ? 1 : 3;
  for (auto &p : minor_params()) ps.push_back(p);
  for (auto &p : ps)
  {
    std::vector<Query> qs;
    if (++np == major + 1) o.thin *= r.thorough ? 5 : 20, fthin *= r.thorough ? 5 : 20;
    Goals g = goals_for(p, o, r.thorough);
    for (int s = 0; s < NSPACES; ++s)
    {
      queries_for(s, p, g, o, r.thorough, qs);
      if (META[s].cls == G1 || META[s].s == ANY) continue;
      size_t i = 0;
      for (auto &w : family_words(s, p, false))
      {
        if (++i % fthin) continue;
        Query q;
        q.space = s;
        q.p = p;
        q.a = mk(0, 0, 0, snap(w.cs.front().kappa, p.k));
        RState e = ref_run(q.a, w.cs);
        q.b = mk(e.x, e.y, e.th, snap(e.k, p.k));
        q.kind = FAMILY;
        q.ub = w.len;
        qs.push_back(q);
      }
    }
    for (auto &q : qs) per[KIND[q.kind]]++;
    for (size_t i = 0; i < qs.size(); i += qs.size() / 2 + 1) sample(show(qs[i]));
    explore(qs, p09);
  }
  std::string k = "{";
  for (auto &e : per) k += (k.size() > 1 ? ", " : "") + jstr(e.first) + ": " + std::to_string(e.second);
  r.extra["queries_by_source"] = k + "}";
  r.extra["transformations_per_query"] = "12";
  r.extra["exhaustive"] = "true";
  r.assumptions = { "sharpness >= 1e-3 and curvature >= 0.01 (the library uses an absolute 1e-4 resolution)",
                    "at jumps of the distance either one-sided value is accepted", "results between enumerated inputs are not covered" };
  return finish();
}
