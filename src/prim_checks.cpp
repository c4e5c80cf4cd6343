// P16: numeric building blocks of the library, on exhaustively enumerated argument grids, against independent references.
#include "domain.hpp"
#include "steering_functions/utilities/utilities.hpp"
using namespace mc;
using namespace steering;

static std::atomic<long> cmps{ 0 }, segs{ 0 };
static std::mutex wm;
static std::map<std::string, double> worst;

static bool need(const char *what, double err, double tol, const std::string &in)
{
  ++cmps;
  if (err <= tol) return true;
  violation(fmt("%s: error %.6g exceeds %.3g ", what, err, tol) + in, "prim " + in);
  return false;
}

template <class F> static void par(long n, F f)
{
  unsigned nt = std::max(1u, std::thread::hardware_concurrency());
  std::atomic<long> next{ 0 };
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; ++t) th.emplace_back([&] { for (long i; (i = next++) < n;) f(i); });
  for (auto &t : th) t.join();
}

// int_a^b of cos / sin (pi/2 u^2), long double Gauss-Legendre on short pieces
static void fres_piece(long double a, long double b, long double &S, long double &C)
{
  static const long double X[5] = { 0.148874338981631210884826001129719985L, 0.433395394129247190799265943165784162L, 0.679409568299024406234327365114873576L,
                                    0.865063366688984510732096688423493049L, 0.973906528517171720077964012084452053L };
  static const long double W[5] = { 0.295524224714752870173815619188769402L, 0.269266719309996355091226921569469353L, 0.219086362515982043995534934228163192L,
                                    0.149451349150580593145863396957673322L, 0.066671344308688137593568809893331793L };
  long double top = fabsl(a) > fabsl(b) ? fabsl(a) : fabsl(b);
  int n = (int)(fabsl(b - a) * top * M_PI / 0.6L) + 1;
  long double h = (b - a) / n;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 5; ++j)
      for (int e = -1; e <= 1; e += 2)
      {
        long double u = a + (i + 0.5L + e * X[j] * 0.5L) * h, p = 1.57079632679489661923132169163975144L * u * u;
        C += W[j] * 0.5L * h * cosl(p);
        S += W[j] * 0.5L * h * sinl(p);
      }
}

static void check_fresnel(bool thorough)
{
  // dense grid, chunked; plus every step around the seam of the two approximations
  const int chunks = 640;
  const double top = 32;
  long per = thorough ? 60000 : 4000;
  double tolS = 1e-9, w = 0;
  par(chunks, [&](long c) {
    long double a = top * c / chunks, S = 0, C = 0;
    fres_piece(0, a, S, C);
    double wl = 0;
    for (long i = 0; i <= per; ++i)
    {
      double s = (double)(top * (c + (double)i / per) / chunks);
      long double S1 = S, C1 = C;
      fres_piece(a, s, S1, C1);
      for (int sg = -1; sg <= 1; sg += 2)
      {
        double f, g;
        fresnel(sg * s, f, g);
        run().transitions++;
        double e = std::max(std::fabs(f - sg * (double)S1), std::fabs(g - sg * (double)C1));
        if (!(e <= wl)) wl = e;
        if (!need("Fresnel integral", e, tolS, fmt("s=%.17g", sg * s))) return;
      }
      S = S1, C = C1, a = s;
      run().states += 2;
    }
    std::lock_guard<std::mutex> l(wm);
    w = std::max(w, wl);
  });
  // large arguments: asymptotic expansion (error of order 1/x^7)
  for (double s = 32; s < 3e4; s *= 1.0137)
  {
    double f, g, p = M_PI * s;
    long double x = 1.57079632679489661923132169163975144L * (long double)s * s;
    fresnel(s, f, g);
    long double sn = sinl(x), cs = cosl(x), q = p * (long double)s * s * M_PI;
    (void)q;
    long double z = M_PI * (long double)s * s;
    long double F = (1 - 3 / (z * z)) / p, G = (1 - 15 / (z * z)) / (p * z);
    need("Fresnel integral (large argument)", std::max(std::fabs((double)(0.5L + F * sn - G * cs) - g), std::fabs((double)(0.5L - F * cs - G * sn) - f)), 1e-8, fmt("s=%.17g", s));
    run().transitions++;
  }
  worst["fresnel"] = w;
}

static void check_angles(bool thorough)
{
  std::vector<double> as;
  for (int k = -60; k <= 60; ++k)
    for (double e : { 0.0, 1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3, 0.1, -0.1 }) as.push_back(k * M_PI / 4 + e);
  for (int k = -2000; k <= 2000; ++k) as.push_back(k * 0.0137), as.push_back(k * 7.7), as.push_back(k * 1234.567);
  if (thorough) for (long k = -2000000; k <= 2000000; ++k) as.push_back(k * 0.000731);
  for (double a : as)
  {
    double t = twopify(a), p = pify(a), fp = 1e-14 + 4e-16 * std::fabs(a);
    need("twopify leaves [0,2pi]", std::max(-t, t - 2 * M_PI), 0, fmt("%.17g -> %.17g", a, t));
    need("pify leaves [-pi,pi]", std::fabs(p) - M_PI, 1e-15, fmt("%.17g -> %.17g", a, p));
    need("twopify changes the direction", std::hypot(std::cos(t) - std::cos(a), std::sin(t) - std::sin(a)), 8 * fp, fmt("%.17g -> %.17g", a, t));
    need("pify changes the direction", std::hypot(std::cos(p) - std::cos(a), std::sin(p) - std::sin(a)), 8 * fp, fmt("%.17g -> %.17g", a, p));
    run().transitions += 2;
  }
  run().states += (long)as.size();
  for (double v : { -1e300, -2.0, -1e-300, 0.0, 1e-300, 3.0, 1e300 }) need("sgn", std::fabs(sgn(v) - (v < 0 ? -1 : 1)), 0, fmt("%g", v));
}

static void check_frames(bool thorough)
{
  std::vector<double> xs = { 0, 1, -2.5, 1000.25 }, ths, ls = { 0, 1, -3, 0.001 };
  for (int i = -24; i <= 24; ++i) ths.push_back(i * M_PI / 12);
  for (double t : { 0.1, 1e-9, 20.3, -100.7 }) ths.push_back(t);
  for (double x : xs) for (double y : xs) for (double t : ths) for (double u : ls) for (double v : ls)
  {
    double gx, gy, lx, ly;
    global_frame_change(x, y, t, u, v, &gx, &gy);
    std::string in = fmt("frame %.17g %.17g %.17g point %.17g %.17g", x, y, t, u, v);
    double s = 1e-12 * (1 + std::fabs(x) + std::fabs(y));
    need("global frame change", std::hypot(gx - (x + u * std::cos(t) - v * std::sin(t)), gy - (y + u * std::sin(t) + v * std::cos(t))), s, in);
    local_frame_change(x, y, t, gx, gy, &lx, &ly);
    need("local frame change does not undo the global one", std::hypot(lx - u, ly - v), s, in);
    double r, a;
    polar(u, v, r, a);
    need("polar", std::hypot(r * std::cos(a) - u, r * std::sin(a) - v) + std::max(0.0, -r), 1e-12, in);
    need("point distance", std::fabs(point_distance(x, y, x + u, y + v) - std::hypot(u, v)), s, in);
    run().transitions += 4;
    run().states++;
  }
}

static void check_segments(bool thorough)
{
  std::vector<double> ks = { -20, -5, -2, -1, -0.3, -0.01, -1e-3, 0, 1e-3, 5e-4, 0.05, 0.5, 1, 3, 10 }, ss = { -40, -5, -1, -0.1, -0.01, -1e-3, 1e-3, 0.02, 0.3, 1, 4, 25 };
  std::vector<double> ls = { 0, 1e-6, 1e-3, 0.01, 0.1, 0.33, 1, 2.5, 6, 11, 40 }, ths = { 0, 0.7, -2.2, M_PI, -M_PI / 2, 9.4 };
  if (thorough)
  {
    for (int i = 1; i < 30; ++i) ls.push_back(i * 0.21), ths.push_back(-3 + i * 0.21);
    for (int i = 1; i < 12; ++i) ks.push_back(i * 0.17 - 1.1), ss.push_back(i * 0.13 - 0.8);
  }
  struct J { double t, k; };
  std::vector<J> js;
  for (double t : ths) for (double k : ks) js.push_back({ t, k });
  par((long)js.size(), [&](long i) {
    double t = js[i].t, k = js[i].k;
    const double O[4][2] = { { 0.4, -0.7 }, { 0, 0 }, { -1200.5, 830.25 }, { 691607.25, 5335830.5 } };
    const double X0 = O[i % 4][0], Y0 = O[i % 4][1], fp = 4e-16 * (std::fabs(X0) + std::fabs(Y0));
    for (double l : ls) for (int d = -1; d <= 1; d += 2)
    {
      double x, y, th, kf;
      for (double s : ss)
      {
        if (std::fabs(s) < 1e-3 || std::fabs(k) * l + 0.5 * std::fabs(s) * l * l > 400) continue;
        end_of_clothoid(X0, Y0, t, k, s, d, l, &x, &y, &th, &kf);
        RState r = { X0, Y0, t, k };
        ref_advance(r, d, s, l);
        std::string in = fmt("clothoid theta=%.17g kappa=%.17g sigma=%.17g d=%d length=%.17g", t, k, s, d, l);
        double cond = fp + 1e-8 * (1 + 1 / std::sqrt(std::fabs(s))) + 1e-11 * k * k / std::fabs(s) * (l + 1);
        need("end of clothoid position", std::hypot(x - r.x, y - r.y), cond, in);
        need("end of clothoid heading", ang_err(th, r.th), 1e-9, in);
        segs++;
        need("end of clothoid curvature", std::fabs(kf - r.k), 1e-9, in);
        run().transitions++;
        run().states++;
      }
      if (std::fabs(k) >= 5e-4)
      {
        end_of_circular_arc(X0, Y0, t, k, d, l, &x, &y, &th);
        RState r = { X0, Y0, t, k };
        ref_advance(r, d, 0, l);
        std::string in = fmt("arc theta=%.17g kappa=%.17g d=%d length=%.17g", t, k, d, l);
        need("end of arc position", std::hypot(x - r.x, y - r.y), 1e-9 + fp, in);
        segs++;
        need("end of arc heading", ang_err(th, r.th), 1e-9, in);
      }
      end_of_straight_line(X0, Y0, t, d, l, &x, &y);
      need("end of line", std::hypot(x - (X0 + d * l * std::cos(t)), y - (Y0 + d * l * std::sin(t))), 1e-12 + fp, fmt("line %.17g %d %.17g", t, d, l));
      run().transitions += 2;
    }
  });
}

static void check_arrays(bool thorough)
{
  // every array up to length n over five values
  const double V[5] = { 0, 1, 2.5, -1, std::numeric_limits<double>::max() };
  int top = thorough ? 9 : 7;
  for (int n = 1; n <= top; ++n)
  {
    long tot = 1;
    for (int i = 0; i < n; ++i) tot *= 5;
    for (long c = 0; c < tot; ++c)
    {
      double a[16];
      long x = c;
      double mn = 1e309;
      for (int i = 0; i < n; ++i, x /= 5) a[i] = V[x % 5], mn = std::min(mn, a[i]);
      int k = array_index_min(a, n);
      if (!(k >= 0 && k < n && a[k] == mn)) { need("index of the minimum", 1, 0, fmt("n=%d code=%ld -> %d", n, c, k)); return; }
      ++cmps;
      run().transitions++;
    }
    run().states += tot;
    double b[16];
    void *q[16];
    for (int i = 0; i < 16; ++i) b[i] = 7, q[i] = b;
    double_array_init(b, n, 3.25);
    pointer_array_init(q, n);
    for (int i = 0; i < 16; ++i) need("array initialisation", !(b[i] == (i < n ? 3.25 : 7) && q[i] == (i < n ? nullptr : (void *)b)), 0, fmt("n=%d i=%d", n, i));
  }
}

int main(int argc, char **argv)
{
  init(argc, argv);
  guard_start(600);
  Run &r = run();
  bool t = r.thorough;
  check_fresnel(t);
  check_angles(t);
  check_frames(t);
  check_segments(t);
  check_arrays(t);
  r.comparisons = cmps.load();
  r.traces = segs.load();
  r.worst = worst;
  r.extra["grids"] = jstr(t ? "Fresnel 2*640*60000 points on [-32,32] plus large arguments; angles 4.1M; frames 13.5k; segments thorough grid; all arrays up to length 9 over 5 values"
                            : "Fresnel 2*640*4000 points on [-32,32] plus large arguments; angles 13.6k; frames 13.5k; segments grid; all arrays up to length 7 over 5 values");
  r.extra["exhaustive"] = "true";
  sample("fresnel(-1.23), twopify(-1e-15), clothoid kappa=-0.3 sigma=0.02 length=2.5 backwards, index of minimum of {1,0,0,-1}");
  r.assumptions = { "values between grid points are not covered" };
  return finish();
}
