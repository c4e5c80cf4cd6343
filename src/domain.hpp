// Bounded input spaces.  Everything here is enumerated exhaustively; nothing is drawn at random.
#pragma once
#include <algorithm>
#include "engine.hpp"

namespace mc
{
// ------------------------------------------------------------------ parameter sets
// kappa, sigma, discretization.  delta_min = kappa^2/sigma spans 0.05 .. 10 rad.
inline std::vector<Par> params(bool thorough)
{
  std::vector<Par> p = { { 1, 1, 0.1 },       { 1, 0.5, 0.1 },   { 0.5, 1, 0.25 },   { 0.2, 0.05, 0.3 },
                         { 2, 3, 0.037 },     { 1, 0.1, 0.1 },   { 1, 20, 0.1 },     { 0.1, 0.01, 1.0 },
                         { 5, 5, 0.05 },      { 0.7, 0.31, 0.1 },{ 3, 2, 0.5 },
                         { 0.01, 0.001, 5 } };
  if (thorough)
  {
    std::vector<Par> e = { { 10, 30, 0.01 }, { 1, 0.2, 2.0 } };
    p.insert(p.end(), e.begin(), e.end());
  }
  return p;
}

// further parameter sets that get a sparse share of the queries: discretization far above / below the path's features, sharp and
// very soft clothoids
inline std::vector<Par> minor_params() { return { { 1, 1, 50 }, { 1, 1, 2.7 }, { 1, 0.2, 3.0 }, { 1, 1, 0.004 }, { 4, 100, 0.1 }, { 0.3, 0.03, 0.2 }, { 12, 7, 0.02 }, { 1, 0.04, 0.1 }, { 0.5, 60, 0.1 }, { 1, 1000, 0.1 } }; }

// goal relative to the start frame; start curvature ks and goal curvature kg in units of kappa (only levels that matter
// for the space are used)
struct Rel { double x, y, th, ks, kg; int kind; double ub; };

inline RState rel_run(double th0, const std::vector<Control> &cs)
{
  RState q = { 0, 0, th0, cs.empty() ? 0 : cs.front().kappa };
  for (auto &c : cs) { q.k = c.kappa; ref_advance(q, sign_of(c.delta_s), c.sigma, std::fabs(c.delta_s)); }
  return q;
}

// ------------------------------------------------------------------ model: curvature automaton
// Levels -2..2 (curvature level*kappa/2).  Moves: clothoid to the next level (full sharpness), hold (straight / max-curvature
// arc) of one of two lengths, each forwards or backwards.  Every word up to `depth` from every level, prefix closed.
inline void micro_words(const Par &p, int depth, bool fwd, bool bwd, bool mixed, std::vector<Rel> &out)
{
  const double hold[2] = { 0.45 / p.k, 1.8 / p.k };
  struct N { RState q; int lvl; double len; int dir; };
  for (int l0 = -2; l0 <= 2; ++l0)
  {
    std::vector<N> cur = { { { 0, 0, 0, l0 * p.k / 2 }, l0, 0, 0 } };
    for (int d = 0; d < depth; ++d)
    {
      std::vector<N> nxt;
      for (auto &n : cur)
        for (int dir = -1; dir <= 1; dir += 2)
        {
          if (!mixed && n.dir && n.dir != dir) continue;
          if (dir > 0 && !fwd) continue;
          if (dir < 0 && !bwd) continue;
          for (int mv = 0; mv < 4; ++mv)
          {
            N m = n;
            m.dir = dir;
            double len, sg = 0;
            if (mv < 2)
            {
              if (n.lvl == 1 || n.lvl == -1) continue;
              len = hold[mv];
            }
            else
            {
              int to = n.lvl + (mv == 2 ? 1 : -1);
              if (to < -2 || to > 2) continue;
              len = p.k / 2 / p.s;
              sg = (mv == 2 ? 1 : -1) * p.s;
              m.lvl = to;
            }
            m.q.k = n.lvl * p.k / 2;
            ref_advance(m.q, dir, sg, len);
            m.len += len;
            nxt.push_back(m);
            out.push_back({ m.q.x, m.q.y, m.q.th, l0 / 2.0, m.lvl / 2.0, MICRO, m.len });
          }
        }
      cur.swap(nxt);
    }
  }
}

// tangent-continuous words: L/S/R of two lengths, forwards/backwards, all words up to depth
inline void g1_words(const Par &p, int depth, bool fwd, bool bwd, bool mixed, std::vector<Rel> &out)
{
  const double lens[3] = { 0.3 / p.k, M_PI / 2 / p.k, 3.9 / p.k };
  struct N { RState q; double len; int dir; };
  std::vector<N> cur = { { { 0, 0, 0, 0 }, 0, 0 } };
  for (int d = 0; d < depth; ++d)
  {
    std::vector<N> nxt;
    for (auto &n : cur)
      for (int dir = -1; dir <= 1; dir += 2)
      {
        if (!mixed && n.dir && n.dir != dir) continue;
        if (dir > 0 && !fwd) continue;
        if (dir < 0 && !bwd) continue;
        for (int t = -1; t <= 1; ++t)
          for (double l : lens)
          {
            N m = n;
            m.dir = dir;
            m.q.k = t * p.k;
            ref_advance(m.q, dir, 0, l);
            m.len += l;
            nxt.push_back(m);
            out.push_back({ m.q.x, m.q.y, m.q.th, 0, 0, G1WORD, m.len });
          }
      }
    cur.swap(nxt);
  }
}

// circle geometry, derived with the reference integrator only
struct Geo { double cx, cy, R, mu, ri, dmin; };
inline Geo geo(const Par &p)
{
  RState q = { 0, 0, 0, 0 };
  ref_advance(q, 1, p.s, p.k / p.s);
  Geo g;
  g.cx = q.x - std::sin(q.th) / p.k;
  g.cy = q.y + std::cos(q.th) / p.k;
  g.R = std::hypot(g.cx, g.cy);
  g.mu = std::atan2(std::fabs(g.cx), std::fabs(g.cy));
  g.ri = 1 / p.k;
  g.dmin = p.k * p.k / p.s;
  return g;
}

// goals whose turning circles have a special distance to the start's turning circles (coincident, tangent, ...)
inline void special_goals(const Par &p, bool thorough, std::vector<Rel> &out)
{
  Geo g = geo(p);
  struct C { double x, y; };
  std::vector<C> cs;
  for (int sx = -1; sx <= 1; sx += 2)
    for (int sy = -1; sy <= 1; sy += 2) cs.push_back({ sx * g.cx, sy * g.cy });
  cs.push_back({ 0, g.ri });
  cs.push_back({ 0, -g.ri });
  std::vector<double> ds = { 0, 2 * g.R, 2 * g.R * std::cos(g.mu), 2 * g.R * std::sin(g.mu), 2 * g.ri, g.R + g.ri, 4 * g.R, 4 * g.ri };
  if (thorough) { ds.push_back(2 * g.R + 2 * g.ri); ds.push_back(g.R); ds.push_back(g.R * std::cos(g.mu)); ds.push_back(6 * g.R); ds.push_back(std::fabs(g.R - g.ri)); }
  int nphi = thorough ? 8 : 3, nth = thorough ? 8 : 4;
  for (auto &c1 : cs)
    for (double d : ds)
      for (int ip = 0; ip < (d == 0 ? 1 : nphi); ++ip)
        for (int it = 0; it < nth; ++it)
          for (auto &c2 : cs)
          {
            double phi = 0.35 + ip * 2 * M_PI / nphi, th = 0.2 + it * 2 * M_PI / nth;
            // goal frame: centre at c2 in the goal frame
            double X = c1.x + d * std::cos(phi) - (std::cos(th) * c2.x - std::sin(th) * c2.y);
            double Y = c1.y + d * std::sin(phi) - (std::sin(th) * c2.x + std::cos(th) * c2.y);
            out.push_back({ X, Y, th, 0, 0, SPECIAL, 0 });
          }
}

inline void lattice(const Par &p, int half, double step, int nth, double ox, double oy, double oth, int kind, std::vector<Rel> &out)
{
  for (int ix = -half; ix <= half; ++ix)
    for (int iy = -half; iy <= half; ++iy)
      for (int it = 0; it < nth; ++it)
        out.push_back({ (ix * step + ox) / p.k, (iy * step + oy) / p.k, it * 2 * M_PI / nth + oth, 0, 0, kind, 0 });
}

inline void far_goals(const Par &p, std::vector<Rel> &out)
{
  for (double r : { 6.0, 13.0, 60.0, 400.0 })
    for (int b = 0; b < 8; ++b)
      for (int t = 0; t < 8; ++t) out.push_back({ r / p.k * std::cos(b * M_PI / 4), r / p.k * std::sin(b * M_PI / 4), t * M_PI / 4, 0, 0, FAR, 0 });
}

inline void perturb(const std::vector<Rel> &base, size_t stride, const std::vector<double> &deltas, const Par &p, std::vector<Rel> &out)
{
  for (size_t i = 0; i < base.size(); i += stride)
    for (double d : deltas)
      for (int ax = 0; ax < 3; ++ax)
      {
        Rel r = base[i];
        if (ax == 0) r.x += d / p.k;
        if (ax == 1) r.y += d / p.k;
        if (ax == 2) r.th += d;
        r.kind = PERTURBED;
        r.ub = 0;
        out.push_back(r);
      }
}

// curvature pairs (units of kappa) a space is queried with; `n` limits ANY-ANY work
// arbitrary curvatures include levels next to 0 and next to the maximum (but above the library's absolute 1e-4 resolution)
inline std::vector<std::pair<double, double>> curv_pairs(const Meta &m, bool full, const Par &p)
{
  const double e = std::max(0.004, 4e-4 / p.k);
  auto opts = [&](CurvMode c) -> std::vector<double> {
    if (c == FREE || c == ZERO) return { 0 };
    if (c == PM) return { -1, 0, 1 };
    if (full) return { -1, e - 1, -0.95, -0.5, -0.02, 0, e, 0.3, 0.9, 1 - e, 1 };
    return { -1, e - 1, -0.06, 0, e, 0.6, 1 };
  };
  std::vector<std::pair<double, double>> v;
  for (double a : opts(m.s))
    for (double b : opts(m.g))
    {
      if (!full && m.s == PM && m.g == PM && ((a == 0) != (b == 0))) continue;
      v.push_back({ a, b });
    }
  return v;
}

inline State place(const State &a, const Rel &r, double kg)
{
  State b;
  double c = std::cos(a.theta), s = std::sin(a.theta);
  b.x = a.x + c * r.x - s * r.y;
  b.y = a.y + s * r.x + c * r.y;
  b.theta = a.theta + r.th;
  b.kappa = kg;
  b.d = 0;
  return b;
}

struct DomainOpt
{
  int lat_half = 5, nth = 8;
  double lat_step = 0.6;
  bool shifted = true, far = true, words = true, special = true, pert = true, coinc = true, starts = true, fullcurv = false;
  int micro_depth = 4, g1_depth = 2;
  int thin = 1;        // keep every thin-th goal (documented bound, deterministic)
};

inline DomainOpt domain_opt(bool thorough)
{
  DomainOpt o;
  if (thorough) { o.lat_half = 8; o.nth = 12; o.lat_step = 0.5; o.micro_depth = 5; o.g1_depth = 3; o.fullcurv = true; }
  return o;
}

inline bool curv_match(CurvMode m, double lvl)
{
  switch (m)
  {
    case FREE: return true;
    case ZERO: return lvl == 0;
    case PM: return std::fabs(lvl) == 1;
    case ANY: return true;
  }
  return false;
}

// All relative goals for one parameter set, grouped: `plain` carry no curvature information, `word` do.
struct Goals { std::vector<Rel> plain, word; };
inline Goals goals_for(const Par &p, const DomainOpt &o, bool thorough)
{
  Goals g;
  lattice(p, o.lat_half, o.lat_step, o.nth, 0, 0, 0, LATTICE, g.plain);
  if (o.shifted) lattice(p, (o.lat_half + 1) / 2, o.lat_step * 1.37, 5, 0.1234567, -0.2345678, 0.3456789, SHIFTED, g.plain);
  if (o.far) far_goals(p, g.plain);
  std::vector<Rel> g1, mw;
  if (o.words)
  {
    g1_words(p, o.g1_depth, true, true, true, g1);
    micro_words(p, o.micro_depth, true, false, false, mw);
    micro_words(p, o.micro_depth, false, true, false, mw);
    micro_words(p, std::max(2, o.micro_depth - 2), true, true, true, mw);
  }
  std::vector<Rel> sp;
  if (o.special) special_goals(p, thorough, sp);
  std::vector<Rel> pt;
  if (o.pert)
  {
    std::vector<double> ds = { 1e-3, -1e-5, 1e-7 };
    if (thorough) ds = { 1e-2, -1e-2, 1e-3, -1e-3, 2e-4, -9e-5, 1e-5, -1e-5, 1e-7, -1e-9, 1e-12 };
    perturb(g1, thorough ? 7 : 37, ds, p, pt);
    perturb(sp, thorough ? 5 : 41, ds, p, pt);
    std::vector<Rel> mp;
    perturb(mw, thorough ? 7 : 61, ds, p, mp);
    mw.insert(mw.end(), mp.begin(), mp.end());
  }
  g.plain.insert(g.plain.end(), g1.begin(), g1.end());
  g.plain.insert(g.plain.end(), sp.begin(), sp.end());
  g.plain.insert(g.plain.end(), pt.begin(), pt.end());
  if (o.coinc)
    for (double t : { 0.0, M_PI / 2, M_PI, -M_PI / 2, 2 * M_PI, -2 * M_PI, 1e-9, -1e-9, 1e-3, -1e-3 })
      for (double x : { 0.0, 1e-12, 1e-7, 1e-3, 0.05 })
        g.plain.push_back({ x / p.k, 0, t, 0, 0, COINC, 0 });
  if (o.coinc)
    for (double t : { 0.0, 0.02, -0.02, M_PI, M_PI / 2 })
      for (double x : { 0.0, 0.02, -0.3 })
        for (double y : { 1e-7, 1e-3, 0.05, -0.05 })
          g.plain.push_back({ x / p.k, y / p.k, t, 0, 0, COINC, 0 });
  g.word = mw;
  return g;
}

inline std::vector<State> start_poses(const Par &p, bool thorough)
{
  std::vector<State> v = { mk(0, 0, 0), mk(1.3 / p.k, -0.7 / p.k, 0.9), mk(-2 / p.k, 0.5 / p.k, -2.5), mk(0.4, 0.3, 7.5), mk(-1.0, 2.0, -20.0),
                           mk(1000.25, -2000.5, 1.1), mk(691607.25, 5335830.5, 2.2) };
  if (thorough) { v.push_back(mk(0, 0, M_PI)); v.push_back(mk(0, 0, -M_PI)); v.push_back(mk(1e5, 2e5, 100)); v.push_back(mk(-12, 7, M_PI / 2)); }
  return v;
}

// Build the query set of one space and parameter set.
inline void queries_for(int sid, const Par &p, const Goals &g, const DomainOpt &o, bool thorough, std::vector<Query> &out)
{
  const Meta &m = META[sid];
  auto starts = start_poses(p, thorough);
  size_t n = 0, n0 = 0;
  auto add = [&](const State &a0, const Rel &r, double ks, double kg) {
    if (o.thin > 1 && (n++ % o.thin)) return;
    Query q;
    q.space = sid;
    q.p = p;
    q.a = a0;
    // some queries are turned so that the goal heading is the seam of the angle normalisation
    if (o.starts && (n0++ + 3) % 11 == 0) q.a.theta = (n0 & 1 ? M_PI : -M_PI) - r.th;
    q.a.kappa = ks * p.k;
    q.b = place(q.a, r, kg * p.k);
    q.kind = r.kind;
    q.ub = r.ub;
    out.push_back(q);
  };
  bool any = m.s == ANY;
  auto cp = curv_pairs(m, o.fullcurv, p);
  size_t i = 0;
  for (auto &r : g.plain)
  {
    ++i;
    // the start pose cycles deterministically through all start poses for a fifth of the goals; origin otherwise
    const State &a = (o.starts && i % 5 == 0) ? starts[(i / 5) % starts.size()] : starts[0];
    if (any && !thorough)
    {
      // arbitrary-curvature spaces: all curvature pairs, spread deterministically over the goals (plus always one fixed pair)
      add(a, r, cp[i % cp.size()].first, cp[i % cp.size()].second);
      if (r.kind == COINC && r.y == 0) for (auto &c : cp) add(a, r, c.first, c.second);
    }
    else if (any)
      for (size_t j = i % 24; j < cp.size(); j += 24) add(a, r, cp[j].first, cp[j].second);
    else if (cp.size() > 4 && !thorough && r.kind != COINC)
      for (size_t j = i % 2; j < cp.size(); j += 2) add(a, r, cp[j].first, cp[j].second);
    else
      for (auto &c : cp) add(a, r, c.first, c.second);
  }
  for (auto &r : g.word)
  {
    if (m.s == FREE) continue;
    if (!curv_match(m.s, r.ks) || !curv_match(m.g, r.kg)) continue;
    ++i;
    const State &a = (o.starts && i % 5 == 0) ? starts[(i / 5) % starts.size()] : starts[0];
    add(a, r, r.ks, r.kg);
  }
}

inline std::vector<Query> all_queries(const DomainOpt &o, bool thorough, const std::vector<int> &spaces = {})
{
  std::vector<Query> out;
  for (auto &p : params(thorough))
  {
    Goals g = goals_for(p, o, thorough);
    for (int s = 0; s < NSPACES; ++s)
    {
      if (!spaces.empty() && std::find(spaces.begin(), spaces.end(), s) == spaces.end()) continue;
      queries_for(s, p, g, o, thorough, out);
    }
  }
  return out;
}
}  // namespace mc
