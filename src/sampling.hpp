// Reference traces of control sequences, control-word enumeration and the sampling walk (P10, P11, P12).
#pragma once
#include "domain.hpp"
namespace mc
{
inline std::string show(const Controls &cs)
{
  std::string s = "controls";
  for (auto &c : cs) s += fmt(" [%.6g %.6g %.6g]", c.delta_s, c.kappa, c.sigma);
  return s;
}

// ---------------------------------------------------------------- reference trace of a control sequence
// pose error that the library's 1e-4 thresholds in its step integrator may introduce (sharpness or curvature of at most 1e-4
// is integrated as zero), everything else is floating point
struct Slack { double th, pos; };
inline std::vector<Slack> slacks(const Controls &cs)
{
  std::vector<Slack> v;
  double th = 1e-7, pos = 1e-7;
  for (auto &u : cs)
  {
    double l = std::fabs(u.delta_s);
    if (std::fabs(u.sigma) <= 1.01e-4) th += 2 * std::fabs(u.sigma) * l * l;
    if (std::fabs(u.sigma) <= 1.01e-4 && std::fabs(u.kappa) <= 1.01e-4) th += 2 * std::fabs(u.kappa) * l;
    pos += th * l;
    v.push_back({ th, pos });
  }
  return v;
}
// curvature slack: below-threshold sharpness leaves the curvature of the step unchanged
inline double kslack(const Controls &cs)
{
  double k = 1.2e-4;
  for (auto &u : cs)
    if (std::fabs(u.sigma) <= 1.01e-4) k += std::fabs(u.sigma * u.delta_s);
  return k;
}

inline RState ref_at(const State &a, const Controls &cs, double s, int *seg = nullptr)
{
  RState r = { a.x, a.y, a.theta, cs.front().kappa };
  for (size_t i = 0; i < cs.size(); ++i)
  {
    double l = std::fabs(cs[i].delta_s);
    r.k = cs[i].kappa;
    if (seg) *seg = (int)i;
    if (s <= l || i + 1 == cs.size()) { ref_advance(r, sign_of(cs[i].delta_s), cs[i].sigma, std::min(s, l)); return r; }
    ref_advance(r, sign_of(cs[i].delta_s), cs[i].sigma, l);
    s -= l;
  }
  return r;
}

// user-supplied control sequences (not produced by a planner): every word over a small control alphabet
inline std::vector<Controls> control_words(const Par &p, bool g1, bool thorough)
{
  std::vector<Control> alpha;
  auto add = [&](double ds, double k, double s) { Control u; u.delta_s = ds; u.kappa = k; u.sigma = s; alpha.push_back(u); };
  for (int d = -1; d <= 1; d += 2)
  {
    add(d * 1.7 / p.k, p.k, 0);
    add(d * 0.03 / p.k, -p.k, 0);
    add(d * 2.3 / p.k, 0, 0);
    add(d * 3 * p.disc, -p.k / 2, 0);
    add(d * 1.4 / p.k, std::max(4e-4, 0.004 * p.k), 0);  // nearly straight
    if (!g1)
    {
      add(d * p.k / p.s, 0, p.s);
      add(d * p.k / p.s, -p.k, p.s);
      add(d * 0.6 * p.k / p.s, p.k / 3, -p.s);
      add(d * 1.6 / p.k, -p.k / 5, std::max(4e-4, 0.004 * p.s));  // nearly circular
    }
  }
  add(0.0, p.k, 0);
  std::vector<Controls> out, cur(1);
  for (int dep = 0; dep < (thorough ? 4 : 3); ++dep)
  {
    std::vector<Controls> nx;
    for (auto &w : cur)
      for (auto &u : alpha) { Controls v = w; v.push_back(u); nx.push_back(v); out.push_back(v); }
    cur.swap(nx);
  }
  return out;
}

inline const Controls &control_word(const Query &q)
{
  static thread_local std::map<std::vector<double>, std::vector<Controls>> m;
  bool g1 = META[q.space].cls == G1, th = run().thorough || run().replay;
  auto &v = m[{ q.p.k, q.p.s, q.p.disc, (double)g1 }];
  if (v.empty()) v = control_words(q.p, g1, th);
  return v[(size_t)q.ub];
}

// ---------------------------------------------------------------- P11
inline void check_sampling(Space &sp, const State &a, const Controls &cs, const std::vector<State> &path, Ctx &c,
                           std::vector<std::pair<int, double>> *trace = nullptr)
{
  std::vector<Slack> sls = slacks(cs);
  double ks = kslack(cs), disc = sp.disc;
  double fp = 2e-12 * (std::fabs(a.x) + std::fabs(a.y));
  if (!c.require("empty path", !path.empty())) return;
  const State &f = path.front();
  c.need("first state is not the start", std::hypot(f.x - a.x, f.y - a.y) + ang_err(f.theta, a.theta), 1e-9 + fp);
  c.need("first state has the wrong curvature", std::fabs(f.kappa - cs.front().kappa), 1e-6);
  c.require("first state has the wrong direction", f.d == sign_of(cs.front().delta_s));
  // walk: current segment, arc length within it
  size_t seg = 0;
  double s = 0;
  RState base = { a.x, a.y, a.theta, cs[0].kappa };
  if (trace) trace->assign(1, { 0, 0.0 });
  size_t maxn = 8 + 4 * cs.size();
  for (auto &u : cs) maxn += (size_t)std::ceil(std::fabs(u.delta_s) / disc) + 2;
  c.require("path has far more states than the discretization asks for", path.size() <= 2 * maxn, [&] { return fmt("%zu states", path.size()); });
  for (size_t i = 1; i < path.size(); ++i)
  {
    const State &p = path[i];
    double best = 1e300;
    // the sample must lie on the current segment (ahead of s) or at the start of / on the following ones
    bool ok = false;
    std::string why;
    // a second pass with three times the slack keeps a margin for code that rounds differently
    for (double lim = 1; lim <= 3 && !ok; lim += 2)
    {
    size_t sg = seg;
    double s0 = s;
    RState b0 = base;
    for (int hop = 0; hop < 4 + (int)cs.size() && sg < cs.size(); ++hop)
    {
      double l = std::fabs(cs[sg].delta_s), d = sign_of(cs[sg].delta_s);
      const Slack &sl = sls[sg];
      // candidate arc length by projection, started from the chord, or from a full step (long steps may turn more than half a circle)
      for (int start = 0; start < (disc * sp.kappa > 1 ? 2 : 1); ++start)
      {
      double x = start ? s0 + disc : s0 + std::hypot(p.x - (i ? path[i - 1].x : a.x), p.y - (i ? path[i - 1].y : a.y));
      RState r;
      for (int it = 0; it < 12; ++it)
      {
        x = std::min(std::max(x, s0), l);
        r = b0;
        r.k = cs[sg].kappa;
        ref_advance(r, d, cs[sg].sigma, x);
        double al = d * ((p.x - r.x) * std::cos(r.th) + (p.y - r.y) * std::sin(r.th));
        if (std::fabs(al) < 1e-12) break;
        x += al;
      }
      x = std::min(std::max(x, s0), l);
      r = b0;
      r.k = cs[sg].kappa;
      ref_advance(r, d, cs[sg].sigma, x);
      double pe = std::hypot(p.x - r.x, p.y - r.y), te = ang_err(p.theta, r.th), ke = std::fabs(p.kappa - r.k);
      double score = std::max({ pe / (sl.pos + fp + 1e-9), te / (sl.th + sp.kappa * sl.pos), ke / (ks + sp.sigma * sl.pos) });
      bool step_ok = x - s0 <= disc * (1 + 1e-6) + 1e-7 + 2 * sl.pos + 2 * fp;
      bool dir_ok = p.d == d;
      if (score <= lim && step_ok && dir_ok)
      {
        ok = true;
        seg = sg;
        s = x;
        base = b0;
        best = score;
        break;
      }
      if (score < best) { best = score; why = fmt("seg %zu s=%.6g: position %.3g heading %.3g curvature %.3g step %.6g", sg, x, pe, te, ke, x - s0); }
      }
      if (ok) break;
      // may only move on if the current segment has been driven to its end
      if (l - s0 > lim * (1e-6 + sl.pos + fp)) break;
      RState r = b0;
      r.k = cs[sg].kappa;
      ref_advance(r, d, cs[sg].sigma, l);
      b0 = r;
      ++sg;
      s0 = 0;
    }
    }
    if (!c.require("sample does not continue the path exactly", ok, [&] { return fmt("state %zu of %zu ", i, path.size()) + show(p) + " " + why + " " + show(cs); }))
      return;
    if (trace) trace->push_back({ (int)seg, s });
    if (c.stats) track(c.worst, "sample", best);
  }
  double rest = std::fabs(cs[seg].delta_s) - s;
  for (size_t j = seg + 1; j < cs.size(); ++j) rest += std::fabs(cs[j].delta_s);
  c.need("path stops before the end of the controls", rest, 3e-6 + 3 * sls.back().pos + 3 * fp, [&] { return show(cs); });
}
}  // namespace mc
