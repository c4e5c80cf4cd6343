// Explicit model of the path families: every control word of every family over a finite set of arc / straight lengths.
// Endpoints are computed forwards with the reference integrator; nothing is solved, no code is shared with /repo.
#pragma once
#include "domain.hpp"

namespace mc
{
struct Word { Controls cs; double len; const char *family; };

// arc codes: >= 0 an arc of that length, < 0 an arc driven against the turn's direction (irregular turn),
// >= ELEM an elementary turn (two clothoids of reduced sharpness, no arc) of deflection code - ELEM
const double ELEM = 1e6;

// Sharpness of the elementary turn of deflection `defl` that ends where the turning circle demands: the chord of a turn of
// deflection d on the circle is 2 R sin(d / 2 + mu).  0 if there is none within the limits.
inline double elementary_sharpness(const Par &p, const Geo &g, double defl)
{
  double l = std::sqrt(defl);  // sharpness 1
  RState q = { 0, 0, 0, 0 };
  ref_advance(q, 1, 1, l);
  q.k = l;
  ref_advance(q, 1, -1, l);
  double chord = 2 * g.R * std::sin(defl / 2 + g.mu);
  if (chord < 1e-2 / p.k) return 0;
  double s = std::pow(std::hypot(q.x, q.y) / chord, 2);
  return s <= p.s && std::sqrt(defl * s) <= p.k ? s : 0;
}

struct WordOpt
{
  bool cuspAtMax;       // HC: curvature jumps at cusps; CC-RS: cusps at zero curvature
  bool startMax, endMax;  // start / end at maximum curvature
};

// pattern: letters T, S, c.  "u" constraints are handled by the caller through `arcs`.
// sides: +1 left / -1 right per turn; dirs: per element (T or S)
inline Word build_word(const Par &p, const char *pat, int side0, int dir0, int sideAfterS, const std::vector<double> &arcs, double slen,
                       const WordOpt &o)
{
  Word w;
  w.family = pat;
  int n = (int)strlen(pat), side = side0, dir = dir0;
  size_t ai = 0;
  double cl = p.k / p.s;
  auto push = [&](double ds, double k, double s) { Control u; u.delta_s = ds; u.kappa = k; u.sigma = s; w.cs.push_back(u); };
  char prev = 0;   // previous element letter
  bool prevCusp = false;
  for (int i = 0; i < n; ++i)
  {
    char e = pat[i];
    if (e == 'c') { dir = -dir; prevCusp = true; continue; }
    if (e == 'S')
    {
      push(dir * slen, 0, 0);
      prev = 'S';
      prevCusp = false;
      continue;
    }
    // turn: side
    if (prev == 'T') side = -side;
    if (prev == 'S') side = sideAfterS;
    // does it start / end at max curvature?
    bool first = prev == 0, last = true;
    for (int j = i + 1; j < n; ++j) if (pat[j] != 'c') last = false;
    bool cuspNext = i + 1 < n && pat[i + 1] == 'c';
    bool smax = first ? o.startMax : (prevCusp && o.cuspAtMax);
    bool emax = last ? o.endMax : (cuspNext && o.cuspAtMax);
    double K = side * p.k, S = side * p.s;
    // a cusp at maximum curvature reverses the arc itself: an arc driven the other way would jump without a direction change
    if (arcs[ai] < 0 && o.cuspAtMax && (prevCusp || cuspNext)) { w.cs.clear(); w.len = -1; return w; }
    if (arcs[ai] >= ELEM)
    {
      double defl = arcs[ai++] - ELEM, s0 = smax || emax ? 0 : elementary_sharpness(p, geo(p), defl);
      if (s0 == 0) { w.cs.clear(); w.len = -1; return w; }
      double l = std::sqrt(defl / s0);
      push(dir * l, 0, side * s0);
      push(dir * l, side * s0 * l, -side * s0);
      prev = 'T';
      prevCusp = false;
      continue;
    }
    if (!smax) push(dir * cl, 0, S);
    push(dir * arcs[ai++], K, 0);
    if (!emax) push(dir * cl, K, -S);
    prev = 'T';
    prevCusp = false;
  }
  w.len = clen(w.cs);
  return w;
}

// The four-turn families connect the end circles by the convex of the two symmetric arrangements whenever it exists
// (inner circles `mid` apart, each `out` away from its end circle).
inline bool trapezoid(const Word &w, const Par &p, double mid, double out)
{
  std::vector<std::pair<double, double>> c;
  RState q = { 0, 0, 0, w.cs.front().kappa };
  for (auto &u : w.cs)
  {
    q.k = u.kappa;
    if (u.sigma == 0 && u.kappa != 0) c.push_back({ q.x - std::sin(q.th) / u.kappa, q.y + std::cos(q.th) / u.kappa });
    ref_advance(q, sign_of(u.delta_s), u.sigma, std::fabs(u.delta_s));
  }
  if (c.size() != 4) return false;
  double dx = c[3].first - c[0].first, dy = c[3].second - c[0].second, d = std::hypot(dx, dy);
  double proj = ((c[1].first - c[0].first) * dx + (c[1].second - c[0].second) * dy) / d;
  double want = d < 2 * out - mid ? (d + mid) / 2 : (d - mid) / 2;
  return d > 1e-3 / p.k && std::fabs(d - (2 * out - mid)) > 1e-3 / p.k && std::fabs(proj - want) < 1e-6 / p.k;
}

inline int count_turns(const char *pat) { int n = 0; for (; *pat; ++pat) n += *pat == 'T'; return n; }

// all words of the families a space offers
inline std::vector<Word> family_words(int sid, const Par &p, bool thorough)
{
  const Meta &m = META[sid];
  std::vector<Word> out;
  std::vector<double> A = { 0.08 / p.k, 0.55 / p.k, 1.3 / p.k, 2.4 / p.k };
  std::vector<double> Sl = { 0.2 / p.k, 1.1 / p.k, 4.0 / p.k };
  double dm = std::min(p.k * p.k / p.s, 4.5);  // an elementary turn deflects less than two full clothoids
  std::vector<double> X = { ELEM + 0.35 * dm, ELEM + 0.9 * dm };
  if (!m.dir) X.push_back(-0.6 / p.k);
  if (thorough) X.push_back(ELEM + 0.7 * dm);
  if (thorough && !m.dir) { X.push_back(-0.15 / p.k); X.push_back(-1.7 / p.k); }
  if (thorough) { A = { 0.08 / p.k, 0.3 / p.k, 0.7 / p.k, 1.2 / p.k, 1.9 / p.k, 2.9 / p.k, 4.4 / p.k }; Sl = { 0.2 / p.k, 0.8 / p.k, 2 / p.k, 6 / p.k }; }
  Sl.push_back(0.01 / p.k);
  Sl.push_back(0.0012 / p.k);
  X.push_back(0.006 / p.k);
  X.push_back(0.0009 / p.k);
  size_t nreg = A.size();
  A.insert(A.end(), X.begin(), X.end());
  WordOpt o;
  Geo g = geo(p);
  o.cuspAtMax = m.cls == HC;
  auto gen = [&](bool smax, bool emax) {
    o.startMax = smax;
    o.endMax = emax;
    std::vector<const char *> pats;
    if (m.dir) pats = { "S", "T", "TT", "TST", "TTT" };
    else pats = { "S", "T", "TT", "TcT", "TcTcT", "TcTT", "TTcT", "TST", "TSTcT", "TcTST", "TcTSTcT", "TTcTT", "TcTTcT", "TTT", "TcST", "TScT", "TcScT" };
    if (m.dir && smax && emax) pats.push_back("TTTT");
    for (const char *pat : pats)
    {
      bool hasS = strchr(pat, 'S') != nullptr;
      if (!strcmp(pat, "S") && (smax || emax)) continue;
      int nt = count_turns(pat);
      std::string ps = pat;
      // which arcs are free: in the four-turn families the inner two are equal; next to a straight the inner turn of a
      // cusp pair turns the heading by pi/2
      for (int dir0 = -1; dir0 <= 1; dir0 += 2)
      {
        if (m.dir && m.dir != dir0) continue;
        for (int side0 = -1; side0 <= 1; side0 += 2)
          for (int s2 = -1; s2 <= (hasS ? 1 : -1); s2 += 2)
          {
            if (!strcmp(pat, "S") && (side0 > 0 || s2 > 0)) continue;
            for (double sl : hasS ? Sl : std::vector<double>{ 0 })
            {
              int free = std::min(nt, 3);
              long tot = 1;
              for (int i = 0; i < free; ++i) tot *= (long)A.size();
              if (nt == 0) tot = 1;
              for (long idx = 0; idx < tot; ++idx)
              {
                std::vector<double> a(nt);
                long r = idx;
                std::vector<double> f(free);
                int odd = 0;
                for (int i = 0; i < free; ++i) { f[i] = A[r % A.size()]; odd += (size_t)(r % (long)A.size()) >= nreg; r /= (long)A.size(); }
                if (odd > (thorough ? 2 : 1) || (odd && (nt > 3 || hasS && sl != Sl[1]))) continue;
                if (nt <= 3) for (int i = 0; i < nt; ++i) a[i] = f[i];
                else { a[0] = f[0]; a[1] = a[2] = f[1]; a[3] = f[2]; }
                double cl = p.k / p.s, hd = 0.5 * p.k * cl;  // heading change of one clothoid
                // pi/2 constraint
                auto quarter = [&](int i, int nclo) -> bool {
                  double need = M_PI / 2 - nclo * hd;
                  if (need < 0) return false;
                  if (f.size() && f[std::min<size_t>(i, f.size() - 1)] != A[0]) return false;  // emit once
                  a[i] = need / p.k;
                  return true;
                };
                int nc = o.cuspAtMax ? 1 : 2;
                if (ps == "TTTT")  // mirror-symmetric inner circles: the angles subtended by the inner turns add up to 2 pi
                {
                  a[2] = (2 * M_PI - 4 * g.mu - 4 * hd) / p.k - a[1];
                  if (a[2] < 0) continue;
                }
                if (ps == "TSTcT" && !quarter(1, nc)) continue;
                if (ps == "TcTST" && !quarter(1, nc)) continue;
                if (ps == "TcTSTcT")
                {
                  double need = M_PI / 2 - nc * hd;
                  if (need < 0 || f[1] != A[0]) continue;
                  a[1] = a[2] = need / p.k;
                }
                // next to two cusps at zero curvature the straight is at least as long as the clothoids' offset
                double sl2 = sl;
                if (ps == "TcScT" && !o.cuspAtMax) sl2 += 2 * g.R * std::sin(g.mu);
                Word w = build_word(p, pat, side0, dir0, s2, a, sl2, o);
                w.family = pat;
                if (w.len < 0) continue;
                if ((ps == "TTTT" || ps == "TTcTT") && !trapezoid(w, p, ps == "TTTT" ? 2 * g.R : (o.cuspAtMax ? 2 / p.k : 2 * g.R * std::cos(g.mu)), 2 * g.R))
                  continue;
                out.push_back(w);
              }
            }
          }
      }
    }
  };
  bool s0 = m.s == ZERO || m.s == ANY, s1 = m.s == PM || m.s == ANY, e0 = m.g == ZERO || m.g == ANY, e1 = m.g == PM || m.g == ANY;
  if (s0 && e0) gen(false, false);
  if (s0 && e1) gen(false, true);
  if (s1 && e0) gen(true, false);
  if (s1 && e1) gen(true, true);
  return out;
}

// levels of the curvature automaton
inline double snap(double k, double K)
{
  for (double v : { 0.0, K, -K }) if (std::fabs(k - v) < 1e-9 * K) return v;
  return k;
}

// queries whose goal is the end of a family word; start poses cycle through all
inline void family_queries(int sid, const Par &p, bool thorough, size_t thin, std::vector<Query> &out)
{
  if (META[sid].cls == G1) return;
  auto starts = start_poses(p, thorough);
  size_t i = 0;
  for (auto &w : family_words(sid, p, thorough))
  {
    if (++i % thin) continue;
    Query q;
    q.space = sid;
    q.p = p;
    q.a = (i / thin) % 5 == 0 ? starts[(i / thin / 5) % starts.size()] : mk(0, 0, (i / thin) % 3 ? std::remainder(i * 2.399963, 2 * M_PI) : 0);
    q.a.kappa = snap(w.cs.front().kappa, p.k);
    RState e = ref_run(q.a, w.cs);
    if ((i / thin) % 7 == 3) { q.a = mk(0, 0, ((i / thin) & 1 ? M_PI : -M_PI) - e.th + q.a.theta, q.a.kappa); e = ref_run(q.a, w.cs); }  // goal heading at the seam
    q.b = mk(e.x, e.y, e.th, snap(e.k, p.k));
    q.kind = FAMILY;
    q.ub = w.len;
    // exact, or next to it: closer than and a little farther than the library's resolution of 1e-4
    static const double OFF[5] = { 0, 0.9e-4, 0.5e-4, 2e-5, 1.7e-4 };
    size_t v = (i / thin) / 2 % 15;
    if ((i / thin) % 2 && v % 5)
    {
      double a = 0.7 + 2.399963 * (double)i, r = OFF[v % 5];
      q.b.x += r * std::cos(a);
      q.b.y += r * std::sin(a);
      if (v > 9) q.b.theta += (v & 1 ? 0.6 : -0.9) * r;
      q.ub = 0;
    }
    out.push_back(q);
  }
}
}  // namespace mc
