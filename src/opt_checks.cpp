// P07 (Dubins / Reeds-Shepp: shortest path), P08 (CC / HC: shortest path of the families).
// Oracles: explicit enumeration of control words (forward model), an independent word solver whose every candidate is
// verified by forward integration, and order relations between planners.
#include "words.hpp"
using namespace mc;

static std::string show(const Controls &cs)
{
  std::string s = "word";
  for (auto &c : cs) s += fmt(" [%.6g %.6g %.6g]", c.delta_s, c.kappa, c.sigma);
  return s;
}

// ------------------------------------------------------------------------------------------------ reference solver (G1)
// Normalised problem (kappa = 1): start (0,0,0), goal (x,y,phi).  A candidate is a word of signed segment lengths; it counts
// only if the unicycle actually reaches the goal, so a mistake here can lose a candidate but never invent one.
struct Seg { int turn; double len; };  // turn +1 left, 0 straight, -1 right; len signed
static double mod_pi(double a) { return std::remainder(a, 2 * M_PI); }
static double mod_2pi(double a) { a = std::fmod(a, 2 * M_PI); return a < 0 ? a + 2 * M_PI : a; }

struct G1Ref
{
  double x, y, phi;
  double best = 1e300;
  double tol;
  static void step(double &X, double &Y, double &T, int turn, double len)
  {
    if (turn == 0) { X += len * std::cos(T); Y += len * std::sin(T); return; }
    double t2 = T + turn * len;
    X += turn * (std::sin(t2) - std::sin(T));
    Y -= turn * (std::cos(t2) - std::cos(T));
    T = t2;
  }
  bool reaches(const Seg *s, int n) const
  {
    double X = 0, Y = 0, T = 0;
    for (int i = 0; i < n; ++i) step(X, Y, T, s[i].turn, s[i].len);
    return std::hypot(X - x, Y - y) < tol && std::fabs(mod_pi(T - phi)) < tol;
  }
  // candidate in the transformed problem: mirrored (turn sign), time-flipped (length sign), reversed order
  void cand(std::vector<Seg> w, bool flip, bool refl, bool rev)
  {
    double L = 0;
    for (auto &s : w)
    {
      if (!std::isfinite(s.len)) return;
      L += std::fabs(s.len);
      if (flip) s.len = -s.len;
      if (refl) s.turn = -s.turn;
    }
    if (L >= best) return;
    if (rev) std::reverse(w.begin(), w.end());
    if (reaches(w.data(), (int)w.size())) best = L;
  }
};

// Dubins: six words, closed form from circle geometry
static double ref_dubins(double x, double y, double phi)
{
  G1Ref r = { x, y, phi };
  r.tol = 1e-7 * (1 + std::hypot(x, y));
  if (r.reaches(nullptr, 0)) return 0;
  for (int a = -1; a <= 1; a += 2)      // first turn
    for (int c = -1; c <= 1; c += 2)    // last turn
    {
      double x1 = 0, y1 = a, x2 = x - c * std::sin(phi), y2 = y + c * std::cos(phi);
      double dx = x2 - x1, dy = y2 - y1, D = std::hypot(dx, dy), psi = std::atan2(dy, dx);
      // heading of the tangent
      double s2 = D * D - (a == c ? 0 : 4);
      if (s2 >= -1e-9)
      {
        double s = std::sqrt(std::max(0.0, s2));
        double th = psi + (a == c ? 0 : a * std::atan2(2, s));
        for (double t0 : { mod_2pi(a * th) })
          for (double v0 : { mod_2pi(c * (phi - th)) })
            for (int i = 0; i < 2; ++i)
              for (int j = 0; j < 2; ++j)
              {
                double t = i ? 2 * M_PI - t0 < 1e-6 ? 0 : t0 : t0, v = j ? 2 * M_PI - v0 < 1e-6 ? 0 : v0 : v0;
                r.cand({ { a, t }, { 0, s }, { c, v } }, 0, 0, 0);
              }
      }
      if (a == c && D <= 4 + 1e-9)
      {
        double u1 = std::acos(std::min(1.0, D / 4));
        for (int sg = -1; sg <= 1; sg += 2)
        {
          double dir = psi + sg * u1;  // direction from centre 1 to the middle centre
          double mx = x1 + 2 * std::cos(dir), my = y1 + 2 * std::sin(dir);
          // heading at the first tangency: tangent to circle a at angle dir
          double h1 = dir + a * M_PI / 2;
          double dir2 = std::atan2(y2 - my, x2 - mx);  // middle -> centre 2
          double h2 = dir2 - a * M_PI / 2;             // middle circle turns the other way
          double t = mod_2pi(a * h1), u = mod_2pi(-a * (h2 - h1)), v = mod_2pi(a * (phi - h2));
          for (double tt : { t, t > 2 * M_PI - 1e-6 ? 0.0 : t })
            for (double vv : { v, v > 2 * M_PI - 1e-6 ? 0.0 : v }) r.cand({ { a, tt }, { -a, u }, { a, vv } }, 0, 0, 0);
        }
      }
    }
  return r.best;
}

// Reeds-Shepp: the families of the 1990 paper
static double ref_rs(double gx, double gy, double gphi)
{
  G1Ref r = { gx, gy, gphi };
  r.tol = 1e-7 * (1 + std::hypot(gx, gy));
  if (r.reaches(nullptr, 0)) return 0;
  for (int rev = 0; rev < 2; ++rev)
    for (int flip = 0; flip < 2; ++flip)
      for (int refl = 0; refl < 2; ++refl)
      {
        double x = gx, y = gy, p = gphi;
        if (rev) { double X = x * std::cos(p) + y * std::sin(p), Y = x * std::sin(p) - y * std::cos(p); x = X; y = Y; }
        if (flip) { x = -x; p = -p; }
        if (refl) { y = -y; p = -p; }
        auto add = [&](std::vector<Seg> w) { r.cand(w, flip, refl, rev); };
        const double H = M_PI / 2;
        double xi = x - std::sin(p), eta = y - 1 + std::cos(p);   // same-side end circle
        double rho = std::hypot(xi, eta), th = std::atan2(eta, xi);
        double xo = x + std::sin(p), yo = y - 1 - std::cos(p);    // other-side end circle
        double rho_o = std::hypot(xo, yo), th_o = std::atan2(yo, xo);
        // C S C
        add({ { 1, mod_pi(th) }, { 0, rho }, { 1, mod_pi(p - th) } });
        if (rho_o >= 2)
        {
          double u = std::sqrt(std::max(0.0, rho_o * rho_o - 4)), t = mod_pi(th_o + std::atan2(2, u));
          add({ { 1, t }, { 0, u }, { -1, mod_pi(t - p) } });
        }
        // C|C|C and C|CC (and, reversed, CC|C)
        if (rho <= 4)
        {
          double u = -2 * std::asin(std::min(1.0, rho / 4)), t = mod_pi(th + u / 2 + M_PI), v = mod_pi(p - t + u);
          add({ { 1, t }, { -1, u }, { 1, v } });
        }
        auto tau = [&](double u, double v, double &t, double &w) {
          double d = mod_pi(u - v), A = std::sin(u) - std::sin(d), B = std::cos(u) - std::cos(d) - 1;
          double t1 = std::atan2(yo * A - xo * B, xo * A + yo * B), t2 = 2 * (std::cos(d) - std::cos(v) - std::cos(u)) + 3;
          t = mod_pi(t2 < 0 ? t1 + M_PI : t1);
          w = mod_pi(t - u + v - p);
        };
        // CCu|CuC
        {
          double q = (2 + rho_o) / 4;
          if (q <= 1) { double u = std::acos(q), t, v; tau(u, -u, t, v); add({ { 1, t }, { -1, u }, { 1, -u }, { -1, v } }); }
          q = (20 - rho_o * rho_o) / 16;
          if (q >= 0 && q <= 1) { double u = -std::acos(q), t, v; tau(u, u, t, v); add({ { 1, t }, { -1, u }, { 1, u }, { -1, v } }); }
        }
        // C|C(pi/2)SC, both last turns
        if (rho >= 2)
        {
          double rr = std::sqrt(rho * rho - 4), u = 2 - rr, t = mod_pi(th + std::atan2(rr, -2)), v = mod_pi(p - H - t);
          add({ { 1, t }, { -1, -H }, { 0, u }, { 1, v } });
        }
        if (rho_o >= 2)
        {
          double t = std::atan2(xo, -yo), u = 2 - rho_o, v = mod_pi(t + H - p);
          add({ { 1, t }, { -1, -H }, { 0, u }, { -1, v } });
        }
        // C|C(pi/2)SC(pi/2)|C
        if (rho_o >= 2)
        {
          double u = 4 - std::sqrt(rho_o * rho_o - 4);
          if (u <= 0)
          {
            double t = mod_pi(std::atan2((4 - u) * xo - 2 * yo, -2 * xo + (u - 4) * yo)), v = mod_pi(t - p);
            add({ { 1, t }, { -1, -H }, { 0, u }, { 1, -H }, { -1, v } });
          }
        }
      }
  return r.best;
}

static void rel_of(const Query &q, double &x, double &y, double &phi)
{
  double dx = q.b.x - q.a.x, dy = q.b.y - q.a.y, c = std::cos(q.a.theta), s = std::sin(q.a.theta);
  x = (c * dx + s * dy) * q.p.k;
  y = (-s * dx + c * dy) * q.p.k;
  phi = wrap(q.b.theta - q.a.theta);
}

// ------------------------------------------------------------------------------------------------ P07
static void p07(Space &sp, const Query &q, Ctx &c)
{
  double L = sp.dist(q.a, q.b) * q.p.k;
  ++c.calls;
  double x, y, phi;
  rel_of(q, x, y, phi);
  double scale = 1 + std::fabs(q.a.x) * q.p.k + std::fabs(q.a.y) * q.p.k + std::hypot(x, y);
  double tol = 2e-5 + 1e-9 * scale;
  if (q.ub > 0) c.need("longer than a known feasible path", L - q.ub * q.p.k, sp.id == RS ? tol : 1e300, [&] { return fmt("word length %.9g", q.ub); });
  if (sp.id == RS)
  {
    double R = ref_rs(x, y, phi), hi = R;
    // sideways displacements within the reference's own resolution cost their square root: take the largest value nearby
    if (L - R > tol)
    {
      double e = 3e-6 * (1 + std::hypot(x, y)) + 1e-9 * scale;
      for (int i = -1; i <= 1; ++i)
        for (int j = -1; j <= 1; ++j)
          for (int k = -1; k <= 1; ++k) hi = std::max(hi, ref_rs(x + i * e, y + j * e, phi + k * e));
    }
    c.need("Reeds-Shepp distance is not the shortest", L - hi, tol, [&] { return fmt("distance %.9g reference %.9g", L, R); });
    c.need("Reeds-Shepp distance below the optimum", R - L, 1e-3, [&] { return fmt("distance %.9g reference %.9g", L, R); });
    return;
  }
  if (sp.id == DUB_B) { x = -x; phi = -phi; }  // driving backwards mirrors x and the heading
  double R = ref_dubins(x, y, phi);
  // the Dubins distance jumps where an arc length passes through a full turn: accept the value of either side
  if (std::fabs(L - R) > tol)
  {
    double lo = R, hi = R, e = 3e-6 * (1 + std::hypot(x, y)) + 1e-9 * scale;
    if (std::hypot(x, y) < e && std::fabs(phi) < e) lo = 0;  // coincident poses
    for (int i = -1; i <= 1; ++i)
      for (int j = -1; j <= 1; ++j)
        for (int k = -1; k <= 1; ++k)
        {
          double v = ref_dubins(x + i * e, y + j * e, phi + k * e);
          lo = std::min(lo, v);
          hi = std::max(hi, v);
        }
    c.need("Dubins distance is not the shortest", L - hi, tol + 5 * e, [&] { return fmt("distance %.9g reference %.9g", L, R); });
    c.need("Dubins distance below the optimum", lo - L, 1e-3, [&] { return fmt("distance %.9g reference %.9g", L, R); });
  }
  else ++c.cmps;
}

// ------------------------------------------------------------------------------------------------ P08
static double tol_len(const Query &q, double L) { return 1e-3 / q.p.k + 5e-4 + 2e-4 * L; }

static void p08(Space &sp, const Query &q, Ctx &c)
{
  double L = sp.dist(q.a, q.b);
  ++c.calls;
  double t = tol_len(q, L);
  if (q.kind == FAMILY)
  {
    c.need("longer than a path of its own families", L - q.ub, t, [&] { return fmt("distance %.9g word %.9g", L, q.ub); });
    return;
  }
  const Meta &m = sp.m;
  // the controls actually returned are the ones the distance talks about
  // relaxations: dropping the sharpness (and direction) constraint can only shorten the path
  double G = space_of(RS, q.p).dist(q.a, q.b);
  ++c.calls;
  if (G - L > t)
  {
    // the controls may end anywhere within the library's resolution of the goal (P01): bound the path actually returned
    Controls cs = sp.controls(q.a, q.b);
    RState e = ref_run(q.a, cs);
    c.calls += 2;
    if (std::hypot(e.x - q.b.x, e.y - q.b.y) < 1.5e-3 / q.p.k + 3e-4 && ang_err(e.th, q.b.theta) < 1e-3)
      G = std::min(G, space_of(RS, q.p).dist(q.a, mk(e.x, e.y, e.th)));
  }
  c.need("shorter than the tangent-continuous optimum", G - L, t, [&] { return fmt("%.9g < %.9g", L, G); });
  // unspecified maximum curvature at an end: best of both signs
  if (m.s == PM && q.a.kappa == 0 || m.g == PM && q.b.kappa == 0)
  {
    double best = 1e300;
    for (int i = -1; i <= 1; i += 2)
      for (int j = -1; j <= 1; j += 2)
      {
        State a = q.a, b = q.b;
        if (m.s == PM && a.kappa == 0) a.kappa = i * q.p.k;
        if (m.g == PM && b.kappa == 0) b.kappa = j * q.p.k;
        best = std::min(best, sp.dist(a, b));
        ++c.calls;
      }
    c.need("unspecified curvature is not the best of both signs", std::fabs(L - best), t, [&] { return fmt("%.9g, best %.9g", L, best); });
  }
  // both directions allowed: never longer than forwards only or backwards only
  if (sp.id == CC00RS || sp.id == HC00)
    for (int d : { (int)CC00F, (int)CC00B })
    {
      double D = space_of(d, q.p).dist(q.a, q.b);
      ++c.calls;
      c.need("longer than driving in one direction only", L - D, t, [&] { return fmt("%.9g > %.9g", L, D); });
    }
  // arbitrary-curvature planners subsume the specialised ones
  if (m.s == ANY)
  {
    double as = q.a.kappa / q.p.k, bs = q.b.kappa / q.p.k;
    auto spec = [](double v) { return v == 0 || v == 1 || v == -1; };
    if (spec(as) && spec(bs))
    {
      int id = -1;
      bool z1 = as == 0, z2 = bs == 0;
      if (sp.id == CCF) id = z1 ? (z2 ? CC00F : CC0PF) : (z2 ? CCP0F : CCPPF);
      if (sp.id == CCB) id = z1 ? (z2 ? CC00B : CC0PB) : (z2 ? CCP0B : CCPPB);
      if (sp.id == HCRS) id = z1 ? (z2 ? HC00 : HC0P) : (z2 ? HCP0 : HCPP);
      double D = space_of(id, q.p).dist(q.a, q.b);
      ++c.calls;
      c.need("differs from the planner for this curvature case", std::fabs(L - D), t, [&] { return fmt("%.9g, specialised %.9g", L, D); });
    }
  }
}

// all words of the arbitrary-curvature planners: a word of a specialised planner whose first / last curvature ramp is
// started / stopped halfway, or preceded / followed by a ramp
static std::vector<Word> any_words(int sid, const Par &p, bool thorough)
{
  std::vector<Word> out;
  std::vector<int> subs;
  if (sid == CCF) subs = { CC00F, CC0PF, CCP0F, CCPPF };
  if (sid == CCB) subs = { CC00B, CC0PB, CCP0B, CCPPB };
  if (sid == HCRS) subs = { HC00, HC0P, HCP0, HCPP };
  const double F[2] = { 0.35, 0.8 };
  size_t n = 0;
  auto mkc = [](double ds, double k, double s) { Control u; u.delta_s = ds; u.kappa = k; u.sigma = s; return u; };
  for (int sub : subs)
  {
    auto ws = family_words(sub, p, false);
    for (auto &w : ws)
      for (int pre = 0; pre < 3; ++pre)
        for (int suf = 0; suf < 3; ++suf)
        {
          if (++n % (thorough ? 2 : 7)) continue;
          Word v = w;
          double f = F[n % 2], g = F[(n / 2) % 2];
          Control a = v.cs.front(), b = v.cs.back();
          double da = sign_of(a.delta_s), db = sign_of(b.delta_s);
          double ke = b.kappa + b.sigma * std::fabs(b.delta_s);
          auto reduced = [&](const Control &u) { return u.sigma != 0 && std::fabs(std::fabs(u.sigma) - p.s) > 1e-9 * p.s; };
          if (pre == 1 && reduced(a) || suf == 1 && reduced(b)) continue;  // the ramps are driven at full sharpness
          // start: 0 keep, 1 drive only the last part of the first ramp / ramp up to it, 2 ramp down to zero first
          if (pre == 1)
          {
            if (a.sigma != 0 && a.kappa == 0) { v.cs.front() = mkc(da * (1 - f) * p.k / p.s, a.sigma > 0 ? f * p.k : -f * p.k, a.sigma); }
            else if (std::fabs(a.kappa) == p.k) { double sg = a.kappa > 0 ? 1 : -1; v.cs.insert(v.cs.begin(), mkc(da * (1 - f) * p.k / p.s, sg * f * p.k, sg * p.s)); }
            else continue;
          }
          if (pre == 2)
          {
            if (a.kappa != 0) continue;
            double sg = (n / 4) % 2 ? 1 : -1;
            v.cs.insert(v.cs.begin(), mkc(da * f * p.k / p.s, sg * f * p.k, -sg * p.s));
          }
          if (suf == 1)
          {
            Control &l = v.cs.back();
            if (l.sigma != 0 && std::fabs(ke) < 1e-9) { double sg = l.kappa > 0 ? 1 : -1; l = mkc(db * (1 - g) * p.k / p.s, sg * p.k, -sg * p.s); }
            else if (std::fabs(std::fabs(ke) - p.k) < 1e-9) { double sg = ke > 0 ? 1 : -1; v.cs.push_back(mkc(db * (1 - g) * p.k / p.s, sg * p.k, -sg * p.s)); }
            else continue;
            if (v.cs.size() == 1) continue;
          }
          if (suf == 2)
          {
            if (std::fabs(ke) > 1e-9) continue;
            double sg = (n / 8) % 2 ? 1 : -1;
            v.cs.push_back(mkc(db * g * p.k / p.s, 0, sg * p.s));
          }
          v.len = clen(v.cs);
          out.push_back(v);
        }
  }
  return out;
}

static void family_queries(int sid, const Par &p, bool thorough, size_t thin, std::vector<Query> &out, std::map<std::string, long> &per)
{
  auto ws = META[sid].s == ANY ? any_words(sid, p, thorough) : family_words(sid, p, thorough);
  auto starts = start_poses(p, thorough);
  size_t i = 0, j = 0;
  for (auto &w : ws)
  {
    if (j++ % thin) continue;
    Query q;
    q.space = sid;
    q.p = p;
    q.a = (++i % 4 == 0) ? starts[(i / 4) % starts.size()] : i % 4 == 1 ? mk(0, 0, 0) : mk(0, 0, std::remainder(i * 2.399963, 2 * M_PI));
    q.a.kappa = snap(w.cs.front().kappa, p.k);
    RState e = ref_run(q.a, w.cs);
    if (i % 7 == 3) { q.a.theta += (i & 1 ? M_PI : -M_PI) - e.th; e = ref_run(q.a, w.cs); }  // goal heading at the seam
    q.b = mk(e.x, e.y, e.th, snap(e.k, p.k));
    q.kind = FAMILY;
    q.ub = w.len;
    out.push_back(q);
    per[w.family]++;
  }
}

// turns joined with very short straights or very short turns, in many orientations: the angles of the short pieces are mostly
// rounding noise
static void short_piece_queries(const Par &p, bool thorough, std::vector<Query> &out)
{
  const int R = thorough ? 180 : 45;
  for (double sh : { 0.01, 1e-3, 1e-4, 3e-6 })
    for (double a : { 0.0, 0.15, 0.6, 1.2, 1.5707963267948966, 2.5, M_PI })
      for (int m = 0; m < 48; ++m)
      {
        double d = m & 1 ? -1 : 1, l = m & 2 ? -1 : 1;
        Controls cs;
        auto add = [&](double len, double turn) { if (len != 0) { Control u; u.delta_s = d * len / p.k; u.kappa = turn * p.k; u.sigma = 0; cs.push_back(u); } };
        switch (m / 4)
        {
          case 0: add(a, l), add(sh, 0); break;
          case 1: add(sh, 0), add(a, l); break;
          case 2: add(a, l), add(sh, 0), add(a / 2, l); break;
          case 3: add(a, l), add(sh, 0), add(a / 2, -l); break;
          case 4: add(a, l), add(sh, -l); break;
          case 5: add(sh, l), add(a, 0), add(sh, -l); break;
          case 6: add(a, 0), add(sh, l); break;
          case 7: add(sh, l), add(a, -l), add(sh, l); break;
          case 8: add(a, l), add(sh, 0), add(sh, -l); break;
          case 9: add(a, l), d = -d, add(sh, 0); break;
          case 10: add(a, l), d = -d, add(a, -l), add(sh, 0); break;
          default: add(sh, l), d = -d, add(a, -l), d = -d, add(sh, l); break;
        }
        if (cs.empty()) continue;
        for (int r = 0; r < R; ++r)
          for (int s : { DUB_F, DUB_B, RS })
          {
            Query q;
            q.space = s;
            q.p = p;
            q.a = r % 5 == 4 ? mk(-3.7 / p.k, 11.3 / p.k, r * 2 * M_PI / R + 0.013) : mk(0, 0, r * 2 * M_PI / R - M_PI);
            RState e = ref_run(q.a, cs);
            q.b = mk(e.x, e.y, e.th, 0);
            q.kind = G1WORD;
            q.ub = clen(cs);
            out.push_back(q);
          }
      }
}

int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  guard_start();
  std::map<std::string, Eval> ev = { { "P07", p07 }, { "P08", p08 } };
  if (!ev.count(r.prop)) return 2;
  if (replay_queries(ev[r.prop])) return finish();
  DomainOpt o = domain_opt(r.thorough);
  std::vector<int> spaces;
  if (r.prop == "P07") { spaces = { DUB_F, DUB_B, RS }; o.g1_depth = r.thorough ? 5 : 4; o.lat_half = r.thorough ? 40 : 20; o.lat_step = r.thorough ? 0.15 : 0.29; o.nth = r.thorough ? 60 : 32; }
  else for (int s = CC00F; s < NSPACES; ++s) spaces.push_back(s);
  std::map<std::string, long> per, fam;
  std::vector<Par> ps = params(r.thorough);
  size_t major = ps.size(), np = 0, fthin = 1;
  for (auto &p : minor_params()) ps.push_back(p);
  for (auto &p : ps)
  {
    std::vector<Query> qs;
    if (++np == major + 1) fthin = r.thorough ? 5 : 20, o.thin *= fthin;
    Goals g = goals_for(p, o, r.thorough);
    for (int s : spaces) queries_for(s, p, g, o, r.thorough, qs);
    for (auto &q : qs) if (r.prop != "P07" || q.kind != G1WORD) q.ub = 0;
    if (r.prop == "P07") short_piece_queries(p, r.thorough, qs);
    if (r.prop == "P08") for (int s : spaces) family_queries(s, p, r.thorough, fthin, qs, fam);
    for (auto &q : qs) per[KIND[q.kind]]++;
    for (size_t i = 0; i < qs.size(); i += qs.size() / 2 + 1) sample(show(qs[i]));
    explore(qs, ev[r.prop]);
  }
  auto js = [](const std::map<std::string, long> &m) {
    std::string k = "{";
    for (auto &e : m) k += (k.size() > 1 ? ", " : "") + jstr(e.first) + ": " + std::to_string(e.second);
    return k + "}";
  };
  r.extra["queries_by_source"] = js(per);
  if (!fam.empty()) r.extra["family_words"] = js(fam);
  r.extra["exhaustive"] = "true";
  r.assumptions = { "sharpness >= 1e-3 and curvature >= 0.01 (the library uses an absolute 1e-4 resolution)",
                    "results between enumerated inputs are not covered" };
  return finish();
}
