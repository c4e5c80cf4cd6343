// Worker of P15: executes its share of the bounded input space on a sanitized build of the library (ASan+UBSan+assertions, or MSan).
// Any report ends the process; the driver (mem_checks.cpp) finds the offending operation in the shared slot file.
#include <fcntl.h>
#include <sys/mman.h>
#include "words.hpp"
#include "mem_slot.hpp"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace mc;

static long live = 0;
static void on_malloc(const volatile void *, size_t) { ++live; }
static void on_free(const volatile void *p) { if (p) --live; }

static MemSlot *slot;
static void fail(const char *what)
{
  snprintf(slot->what, sizeof slot->what, "%s", what);
  fprintf(stderr, "%s\n", what);
  _exit(98);
}
template <class T> static void defined(const T *p, size_t n, const char *what)
{
#ifdef MSAN
  slot->def_checks += n;
  intptr_t off = __msan_test_shadow(p, n * sizeof(T));
  if (off >= 0) fail(what);
#else
  (void)p; (void)n; (void)what;
#endif
}
static double touch;

static void all_methods(Space &s, const Query &q, int stage)
{
  Controls cs;
  slot->method = 0;
  { double d = s.dist(q.a, q.b); defined(&d, 1, "the distance is computed from uninitialised memory"); touch += d; }
  slot->method = 1;
  cs = s.controls(q.a, q.b);
  if (!cs.empty()) defined(cs.data(), cs.size(), "the controls are computed from uninitialised memory");
  slot->method = 2;
  { auto p = s.path(q.a, q.b); if (!p.empty()) defined(p.data(), p.size(), "the path contains uninitialised memory"); }
  if (!cs.empty())
  {
    slot->method = 3;
    for (double t : { -1.0, 0.0, 0.3, 1.0, 2.0 }) { State r = s.interpolate(q.a, cs, t); defined(&r, 1, "the interpolated state contains uninitialised memory"); }
    slot->method = 4;
    if (stage)
    {
      State_With_Covariance a;
      a.state = q.a;
      a.Sigma[0] = a.Sigma[5] = a.Sigma[10] = 0.2;
      auto p = s.path_cov(a, q.b);
      if (!p.empty()) defined(p.data(), p.size(), "the belief path contains uninitialised memory");
    }
    slot->method = 5;
    { auto p = s.integrate(q.a, cs); touch += p.size(); }
  }
}

template <class B, class T, class... A> static void life(A... a)
{
  long l0 = live;
  {
    B *p = new T(a...);
    delete p;
  }
  if (live != l0) fail("an object deleted through its base class leaks");
}

int main(int argc, char **argv)
{
  // argv: shard nshards slotfile thorough thin
  int shard = atoi(argv[1]), n = atoi(argv[2]);
  bool th = atoi(argv[4]) != 0;
  int thin = atoi(argv[5]);
  int fd = open(argv[3], O_RDWR);
  slot = (MemSlot *)mmap(nullptr, sizeof(MemSlot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  auto one = [&](Space &s, const Query &q, size_t i) {
    slot->q = q;
    s.set_filter({ 0.1, 0.01, 0.1, 0.02 }, { 0.1, 0.2, 0.05 }, { 1, 1, 1 });
    all_methods(s, q, i % 3 == 0);
    slot->calls += 10;
    slot->states++;
    if (i % 4 == 0)
    {
      // repeated queries must not accumulate memory
      long l[4];
      for (int k = 0; k < 4; ++k) { all_methods(s, q, 1); l[k] = live; slot->calls += 10; }
      slot->leak_checks++;
      if (l[1] > l[0] && l[2] > l[1] && l[3] > l[2]) { slot->method = 6; fail("repeated identical queries accumulate memory"); }
    }
  };
  if (argc > 6)
  {
    // replay of one packed query
    Query q;
    if (!unpack(argv[6], q)) return 97;
    auto s = make_space(q.space, q.p.k, q.p.s, q.p.disc);
    one(*s, q, 0);
    return 0;
  }
  if (shard == 0)
  {
    using namespace steering;
    slot->method = 7;
    life<HC_CC_State_Space, CC00_Dubins_State_Space>(1.0, 1.0, 0.1, true);
    life<HC_CC_State_Space, CC0pm_Dubins_State_Space>(1.0, 1.0, 0.1, true);
    life<HC_CC_State_Space, CCpm0_Dubins_State_Space>(1.0, 1.0, 0.1, true);
    life<HC_CC_State_Space, CCpmpm_Dubins_State_Space>(1.0, 1.0, 0.1, true);
    life<HC_CC_State_Space, CC_Dubins_State_Space>(1.0, 1.0, 0.1, true);
    life<HC_CC_State_Space, CC00_Reeds_Shepp_State_Space>(1.0, 1.0, 0.1);
    life<HC_CC_State_Space, HC00_Reeds_Shepp_State_Space>(1.0, 1.0, 0.1);
    life<HC_CC_State_Space, HC0pm_Reeds_Shepp_State_Space>(1.0, 1.0, 0.1);
    life<HC_CC_State_Space, HCpm0_Reeds_Shepp_State_Space>(1.0, 1.0, 0.1);
    life<HC_CC_State_Space, HCpmpm_Reeds_Shepp_State_Space>(1.0, 1.0, 0.1);
    life<HC_CC_State_Space, HC_Reeds_Shepp_State_Space>(1.0, 1.0, 0.1);
    life<Dubins_State_Space, Dubins_State_Space>(1.0, 0.1, true);
    life<Reeds_Shepp_State_Space, Reeds_Shepp_State_Space>(1.0, 0.1);
    slot->leak_checks += 13;
  }
  // planning only: (nearly) every query, memory balanced after each one
  for (auto &p : params(th))
  {
    DomainOpt o = domain_opt(false);
    o.thin = th ? 1 : 15;
    Goals g = goals_for(p, o, false);
    for (int s = 0; s < NSPACES; ++s)
    {
      std::vector<Query> qs;
      queries_for(s, p, g, o, false, qs);
      family_queries(s, p, false, th ? 1 : 7, qs);
      auto sp = make_space(s, p.k, p.s, p.disc);
      for (size_t i = shard; i < qs.size(); i += n)
      {
        slot->q = qs[i];
        long l[5];
        l[0] = live;
        for (int k = 0; k < 4; ++k)
        {
          slot->method = k % 2;
          if (k % 2 == 0) { double d = sp->dist(qs[i].a, qs[i].b); defined(&d, 1, "the distance is computed from uninitialised memory"); touch += d; }
          else
          {
            Controls cs = sp->controls(qs[i].a, qs[i].b);
            if (!cs.empty()) defined(cs.data(), cs.size(), "the controls are computed from uninitialised memory");
          }
          l[k + 1] = live;
          slot->calls++;
          if (k == 1 && l[1] == l[0] && l[2] == l[1]) break;  // balanced
          if (k == 3 && l[4] > l[2] && l[2] > l[0]) { slot->method = 6; fail("repeated identical queries accumulate memory"); }
        }
        slot->states++;
        slot->leak_checks++;
      }
    }
  }
  DomainOpt o = domain_opt(false);
  if (!th) { o.lat_half = 4; }
  o.thin = thin;
  for (auto &p : params(th))
  {
    Goals g = goals_for(p, o, false);
    for (int s = 0; s < NSPACES; ++s)
    {
      std::vector<Query> qs;
      queries_for(s, p, g, o, false, qs);
      family_queries(s, p, false, thin, qs);
      auto sp = make_space(s, p.k, p.s, p.disc);
      for (size_t i = shard; i < qs.size(); i += n) one(*sp, qs[i], i / n);
    }
  }
  return touch == 0.123456 ? 1 : 0;
}
