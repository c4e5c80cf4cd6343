// Uniform access to the 19 steering-function instances of /repo's public API.
#pragma once
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/steering_functions.hpp"

namespace mc
{
using steering::Control;
using steering::Controller;
using steering::Measurement_Noise;
using steering::Motion_Noise;
using steering::State;
using steering::State_With_Covariance;
typedef std::vector<Control> Controls;

enum Cls { G1, CC, HC };              // tangent-continuous / curvature-continuous / continuous between cusps
enum CurvMode { FREE, ZERO, PM, ANY };  // what the space promises about the curvature at an end

struct Meta
{
  const char *name;
  Cls cls;
  int dir;  // +1 forwards only, -1 backwards only, 0 both
  CurvMode s, g;
};

static const Meta META[] = {
  { "Dubins+", G1, 1, FREE, FREE },    { "Dubins-", G1, -1, FREE, FREE },  { "RS", G1, 0, FREE, FREE },
  { "CC00Dubins+", CC, 1, ZERO, ZERO }, { "CC00Dubins-", CC, -1, ZERO, ZERO }, { "CC0pmDubins+", CC, 1, ZERO, PM },
  { "CC0pmDubins-", CC, -1, ZERO, PM }, { "CCpm0Dubins+", CC, 1, PM, ZERO },   { "CCpm0Dubins-", CC, -1, PM, ZERO },
  { "CCpmpmDubins+", CC, 1, PM, PM },   { "CCpmpmDubins-", CC, -1, PM, PM },   { "CCDubins+", CC, 1, ANY, ANY },
  { "CCDubins-", CC, -1, ANY, ANY },    { "CC00RS", CC, 0, ZERO, ZERO },       { "HC00RS", HC, 0, ZERO, ZERO },
  { "HC0pmRS", HC, 0, ZERO, PM },       { "HCpm0RS", HC, 0, PM, ZERO },        { "HCpmpmRS", HC, 0, PM, PM },
  { "HCRS", HC, 0, ANY, ANY }
};
enum Id { DUB_F, DUB_B, RS, CC00F, CC00B, CC0PF, CC0PB, CCP0F, CCP0B, CCPPF, CCPPB, CCF, CCB, CC00RS, HC00, HC0P, HCP0,
          HCPP, HCRS, NSPACES };

struct Space
{
  Meta m;
  int id;
  double kappa, sigma, disc;
  virtual ~Space() {}
  virtual double dist(const State &a, const State &b) const = 0;
  virtual Controls controls(const State &a, const State &b) const = 0;
  virtual std::vector<State> path(const State &a, const State &b) const = 0;
  virtual std::vector<State_With_Covariance> path_cov(const State_With_Covariance &a, const State &b) const = 0;
  virtual std::vector<State> integrate(const State &a, const Controls &c) const = 0;
  virtual std::vector<State_With_Covariance> integrate_cov(const State_With_Covariance &a, const Controls &c) const = 0;
  virtual State interpolate(const State &a, const Controls &c, double t) const = 0;
  virtual void set_filter(const Motion_Noise &m, const Measurement_Noise &n, const Controller &c) = 0;
  virtual const void *object() const = 0;
  virtual size_t object_size() const = 0;
};

template <class T> struct SpaceT : Space
{
  T t;
  template <class... A> SpaceT(A... a) : t(a...) {}
  double dist(const State &a, const State &b) const override { return t.get_distance(a, b); }
  Controls controls(const State &a, const State &b) const override { return t.get_controls(a, b); }
  std::vector<State> path(const State &a, const State &b) const override { return t.get_path(a, b); }
  std::vector<State_With_Covariance> path_cov(const State_With_Covariance &a, const State &b) const override
  { return t.get_path_with_covariance(a, b); }
  std::vector<State> integrate(const State &a, const Controls &c) const override { return t.integrate(a, c); }
  std::vector<State_With_Covariance> integrate_cov(const State_With_Covariance &a, const Controls &c) const override
  { return t.integrate_with_covariance(a, c); }
  State interpolate(const State &a, const Controls &c, double x) const override { return t.interpolate(a, c, x); }
  void set_filter(const Motion_Noise &m, const Measurement_Noise &n, const Controller &c) override
  { t.set_filter_parameters(m, n, c); }
  const void *object() const override { return &t; }
  size_t object_size() const override { return sizeof(T); }
};

inline std::unique_ptr<Space> make_space(int id, double k, double s, double d)
{
  using namespace steering;
  Space *p = nullptr;
  switch (id)
  {
    case DUB_F: p = new SpaceT<Dubins_State_Space>(k, d, true); break;
    case DUB_B: p = new SpaceT<Dubins_State_Space>(k, d, false); break;
    case RS: p = new SpaceT<Reeds_Shepp_State_Space>(k, d); break;
    case CC00F: p = new SpaceT<CC00_Dubins_State_Space>(k, s, d, true); break;
    case CC00B: p = new SpaceT<CC00_Dubins_State_Space>(k, s, d, false); break;
    case CC0PF: p = new SpaceT<CC0pm_Dubins_State_Space>(k, s, d, true); break;
    case CC0PB: p = new SpaceT<CC0pm_Dubins_State_Space>(k, s, d, false); break;
    case CCP0F: p = new SpaceT<CCpm0_Dubins_State_Space>(k, s, d, true); break;
    case CCP0B: p = new SpaceT<CCpm0_Dubins_State_Space>(k, s, d, false); break;
    case CCPPF: p = new SpaceT<CCpmpm_Dubins_State_Space>(k, s, d, true); break;
    case CCPPB: p = new SpaceT<CCpmpm_Dubins_State_Space>(k, s, d, false); break;
    case CCF: p = new SpaceT<CC_Dubins_State_Space>(k, s, d, true); break;
    case CCB: p = new SpaceT<CC_Dubins_State_Space>(k, s, d, false); break;
    case CC00RS: p = new SpaceT<CC00_Reeds_Shepp_State_Space>(k, s, d); break;
    case HC00: p = new SpaceT<HC00_Reeds_Shepp_State_Space>(k, s, d); break;
    case HC0P: p = new SpaceT<HC0pm_Reeds_Shepp_State_Space>(k, s, d); break;
    case HCP0: p = new SpaceT<HCpm0_Reeds_Shepp_State_Space>(k, s, d); break;
    case HCPP: p = new SpaceT<HCpmpm_Reeds_Shepp_State_Space>(k, s, d); break;
    case HCRS: p = new SpaceT<HC_Reeds_Shepp_State_Space>(k, s, d); break;
  }
  p->m = META[id];
  p->id = id;
  p->kappa = k;
  p->sigma = s;
  p->disc = d;
  return std::unique_ptr<Space>(p);
}

// ---------------------------------------------------------------- independent reference integrator
// Kinematic car: x' = d cos(th), y' = d sin(th), th' = d kappa, kappa' = sigma (all w.r.t. travelled length s).
// Gauss-Legendre quadrature of the closed-form heading; shares no code with /repo.
struct RState { double x, y, th, k; };

inline void ref_advance(RState &q, double d, double sigma, double len)
{
  static const double X[5] = { 0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845,
                               0.9739065285171717 };
  static const double W[5] = { 0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806,
                               0.0666713443086881 };
  if (len == 0) return;
  double turn = std::fabs(q.k) * len + 0.5 * std::fabs(sigma) * len * len;
  int n = (int)std::ceil(turn / 0.7) + 1;
  if (n > 100000) n = 100000;
  double h = len / n, sx = 0, sy = 0;
  for (int i = 0; i < n; ++i)
  {
    double mid = (i + 0.5) * h, ax = 0, ay = 0;
    for (int j = 0; j < 5; ++j)
      for (int sg = -1; sg <= 1; sg += 2)
      {
        double s = mid + sg * X[j] * 0.5 * h;
        double th = q.th + d * (q.k * s + 0.5 * sigma * s * s);
        ax += W[j] * std::cos(th);
        ay += W[j] * std::sin(th);
      }
    sx += ax * 0.5 * h;
    sy += ay * 0.5 * h;
  }
  q.x += d * sx;
  q.y += d * sy;
  q.th += d * (q.k * len + 0.5 * sigma * len * len);
  q.k += sigma * len;
}

inline double sign_of(double v) { return v < 0 ? -1.0 : 1.0; }

inline RState ref_run(const State &s, const Controls &cs)
{
  RState q = { s.x, s.y, s.theta, cs.empty() ? 0.0 : cs.front().kappa };
  for (const auto &c : cs)
  {
    q.k = c.kappa;
    ref_advance(q, sign_of(c.delta_s), c.sigma, std::fabs(c.delta_s));
  }
  return q;
}

inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
inline double ang_err(double a, double b) { return std::fabs(wrap(a - b)); }
inline double clen(const Controls &cs)
{
  double l = 0;
  for (const auto &c : cs) l += std::fabs(c.delta_s);
  return l;
}
}  // namespace mc
