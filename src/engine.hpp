// Exploration engine shared by all checks: bounded input spaces (enumerated exhaustively), parallel driver with
// crash/hang capture, replay-before-report, evidence writer.  Judges behaviour only; includes nothing but the public API.
#pragma once
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include "spaces.hpp"

namespace mc
{
struct Par { double k, s, disc; };

// ---------------------------------------------------------------- one query
struct Query
{
  int space;
  Par p;
  State a, b;
  int kind;   // GoalKind: which enumeration produced it
  double ub;  // length of the control word that leads to b (if > 0), an upper bound where the family promises it
};
enum GoalKind { LATTICE, SHIFTED, FAR, G1WORD, MICRO, FAMILY, SPECIAL, PERTURBED, COINC, CWORD };
static const char *KIND[] = { "lattice", "shifted", "far", "g1word", "micro", "family", "special", "perturbed", "coincident", "control-word" };

inline State mk(double x, double y, double th, double k = 0) { State s; s.x = x; s.y = y; s.theta = th; s.kappa = k; s.d = 0; return s; }

inline std::string show(const State &s)
{
  char b[200];
  snprintf(b, sizeof b, "(x=%.17g y=%.17g theta=%.17g kappa=%.17g)", s.x, s.y, s.theta, s.kappa);
  return b;
}
inline std::string show(const Query &q)
{
  char b[200];
  snprintf(b, sizeof b, "%s kappa=%.17g sigma=%.17g disc=%.17g ", META[q.space].name, q.p.k, q.p.s, q.p.disc);
  return b + show(q.a) + " -> " + show(q.b) + " [" + KIND[q.kind] + "]";
}
inline std::string pack(const Query &q)
{
  char b[600];
  snprintf(b, sizeof b, "query %d %.17g %.17g %.17g  %.17g %.17g %.17g %.17g  %.17g %.17g %.17g %.17g  %d %.17g", q.space, q.p.k, q.p.s,
           q.p.disc, q.a.x, q.a.y, q.a.theta, q.a.kappa, q.b.x, q.b.y, q.b.theta, q.b.kappa, q.kind, q.ub);
  return b;
}
inline bool unpack(const char *line, Query &q)
{
  q.a.d = q.b.d = 0;
  return sscanf(line, "query %d %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %d %lf", &q.space, &q.p.k, &q.p.s, &q.p.disc, &q.a.x, &q.a.y,
                &q.a.theta, &q.a.kappa, &q.b.x, &q.b.y, &q.b.theta, &q.b.kappa, &q.kind, &q.ub) == 14;
}

// ---------------------------------------------------------------- run-wide bookkeeping
struct Run
{
  std::string prop, tier = "quick", title;
  bool thorough = false, replay = false;
  long seed = 1;
  std::string replay_file;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  std::atomic<long> states{ 0 }, transitions{ 0 }, traces{ 0 }, comparisons{ 0 }, violations{ 0 };
  std::mutex mu;
  std::vector<std::string> samples, assumptions, details;
  std::map<std::string, std::string> extra;  // extra coverage fields (raw JSON values)
  std::string first_viol;
  std::map<std::string, double> worst;  // largest observed error per oracle, for calibration
  double wall() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
inline Run &run() { static Run r; return r; }

inline std::string jstr(const std::string &s)
{
  std::string o = "\"";
  for (char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}
inline std::string fmt(const char *f, ...)
{
  char b[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

inline std::string out_dir() { const char *e = getenv("MC_OUT"); return e ? e : "build/out"; }
inline std::string replay_path() { return out_dir() + "/" + run().prop + ".replay"; }

inline void write_evidence()
{
  Run &r = run();
  std::string dir = getenv("MC_EVIDENCE") ? getenv("MC_EVIDENCE") : "evidence";
  FILE *f = fopen((dir + "/" + r.prop + ".json").c_str(), "w");
  if (!f) return;
  fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %ld,\n \"level\": \"model_checking\",\n \"coverage\": {\n", jstr(r.prop).c_str(),
          jstr(r.tier).c_str(), r.seed);
  fprintf(f, "  \"states\": %ld,\n  \"transitions\": %ld,\n  \"traces_validated_against_impl\": %ld,\n  \"oracle_comparisons\": %ld,\n",
          r.states.load(), r.transitions.load(), r.traces.load(), r.comparisons.load());
  for (auto &e : r.extra) fprintf(f, "  %s: %s,\n", jstr(e.first).c_str(), e.second.c_str());
  fprintf(f, "  \"samples\": [");
  for (size_t i = 0; i < r.samples.size(); ++i) fprintf(f, "%s\n   %s", i ? "," : "", jstr(r.samples[i]).c_str());
  fprintf(f, "]\n },\n \"assumptions\": [");
  for (size_t i = 0; i < r.assumptions.size(); ++i) fprintf(f, "%s\n  %s", i ? "," : "", jstr(r.assumptions[i]).c_str());
  fprintf(f, "],\n \"wall_s\": %.3f,\n \"violations\": %ld\n}\n", r.wall(), r.violations.load());
  fclose(f);
}

inline void sample(const std::string &s)
{
  Run &r = run();
  std::lock_guard<std::mutex> l(r.mu);
  if (r.samples.size() < 12) r.samples.push_back(s);
}

// Record one violation. `art` is the replay artefact.
inline void violation(const std::string &what, const std::string &art)
{
  Run &r = run();
  std::lock_guard<std::mutex> l(r.mu);
  long n = ++r.violations;
  if (n == 1)
  {
    r.first_viol = what;
    if (!r.replay)
    {
      FILE *f = fopen(replay_path().c_str(), "w");
      if (f) { fprintf(f, "# property %s\n# %s\n%s\n", r.prop.c_str(), what.c_str(), art.c_str()); fclose(f); }
    }
  }
  if (n <= 12) printf("  violated: %s\n", what.c_str());
  fflush(stdout);
}

inline void track(std::map<std::string, double> &w, const char *name, double v)
{
  auto it = w.find(name);
  if (it == w.end()) w[name] = v;
  else if (!(v <= it->second)) it->second = v;
}

inline int finish()
{
  Run &r = run();
  write_evidence();
  printf("%s tier=%s states=%ld transitions=%ld traces=%ld comparisons=%ld violations=%ld wall=%.1fs\n", r.prop.c_str(), r.tier.c_str(),
         r.states.load(), r.transitions.load(), r.traces.load(), r.comparisons.load(), r.violations.load(), r.wall());
  if (getenv("MC_WORST"))
    for (auto &e : r.worst) printf("  worst %-28s %.6g\n", e.first.c_str(), e.second);
  if (r.violations)
  {
    printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), r.replay ? r.replay_file.c_str() : replay_path().c_str());
    fflush(stdout);
    return 1;
  }
  return 0;
}

// ---------------------------------------------------------------- crash / hang capture
struct Slot { std::atomic<const Query *> q{ nullptr }; std::atomic<long> since{ 0 }; };
inline Slot *slots() { static Slot s[256]; return s; }
inline int &my_slot() { static thread_local int i = -1; return i; }
inline void claim_slot() { static std::atomic<int> n{ 0 }; if (my_slot() < 0) my_slot() = n++ % 256; }
inline long now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

inline void die_with(const char *why, const Query *q)
{
  violation(std::string(why) + (q ? ": " + show(*q) : std::string()), q ? pack(*q) : std::string("none"));
  write_evidence();
  printf("VIOLATION property=%s replay=%s\n", run().prop.c_str(), run().replay ? run().replay_file.c_str() : replay_path().c_str());
  fflush(stdout);
  _exit(1);
}
inline void on_signal(int sig)
{
  int i = my_slot();
  const Query *q = i >= 0 ? slots()[i].q.load() : nullptr;
  static std::atomic<int> once{ 0 };
  if (once++) for (;;) pause();
  char b[100];
  snprintf(b, sizeof b, "the library crashed (signal %d, %s)", sig, strsignal(sig));
  die_with(b, q);
}
inline void guard_start(double limit_s = 60)
{
  for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL })
  {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    sigaction(s, &sa, nullptr);
  }
  std::thread([limit_s] {
    for (;;)
    {
      usleep(500000);
      for (int i = 0; i < 256; ++i)
      {
        const Query *q = slots()[i].q.load();
        if (q && now_ms() - slots()[i].since.load() > limit_s * 1000) die_with("a query did not return (hang)", q);
      }
    }
  }).detach();
}

// ---------------------------------------------------------------- exhaustive query exploration
struct Ctx
{
  const Query *q = nullptr;
  std::vector<std::string> fails;
  std::map<std::string, double> worst;
  long calls = 0, cmps = 0;
  bool stats = getenv("MC_WORST") != nullptr;
  // require err <= tol (NaN fails)
  bool need(const char *name, double err, double tol)
  {
    return need(name, err, tol, [] { return std::string(); });
  }
  template <class F> bool need(const char *name, double err, double tol, F info)
  {
    ++cmps;
    if (stats) track(worst, name, std::isfinite(err) && tol > 0 ? err / tol : (err <= tol ? 0 : 1e300));
    if (err <= tol) return true;
    fails.push_back(fmt("%s: %.9g exceeds %.3g ", name, err, tol) + info());
    return false;
  }
  bool require(const char *name, bool ok) { return require(name, ok, [] { return std::string(); }); }
  template <class F> bool require(const char *name, bool ok, F info)
  {
    ++cmps;
    if (!ok) fails.push_back(std::string(name) + " " + info());
    return ok;
  }
};

inline Space &space_of(int id, const Par &p)
{
  typedef std::map<std::vector<double>, std::unique_ptr<Space>> M;
  static thread_local M m;
  std::vector<double> key = { (double)id, p.k, p.s, p.disc };
  auto it = m.find(key);
  if (it == m.end()) it = m.emplace(key, make_space(id, p.k, p.s, p.disc)).first;
  return *it->second;
}

typedef std::function<void(Space &, const Query &, Ctx &)> Eval;

inline std::vector<std::string> eval_one(const Query &q, const Eval &ev, bool fresh)
{
  Ctx c;
  c.q = &q;
  claim_slot();
  Slot &s = slots()[my_slot()];
  s.since = now_ms();
  s.q = &q;
  try
  {
    if (fresh) { auto sp = make_space(q.space, q.p.k, q.p.s, q.p.disc); ev(*sp, q, c); }
    else ev(space_of(q.space, q.p), q, c);
  }
  catch (std::exception &e) { c.fails.push_back(std::string("exception: ") + e.what()); }
  s.q = nullptr;
  return c.fails;
}

inline void explore(const std::vector<Query> &qs, const Eval &ev)
{
  Run &r = run();
  std::atomic<size_t> next{ 0 };
  unsigned nt = std::thread::hardware_concurrency();
  if (!nt) nt = 4;
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; ++t)
    th.emplace_back([&] {
      claim_slot();
      Slot &slot = slots()[my_slot()];
      Ctx c;
      for (;;)
      {
        size_t i0 = next.fetch_add(64);
        if (i0 >= qs.size() || r.violations > 100) break;  // decided: do not spend time on further counterexamples
        for (size_t i = i0; i < std::min(qs.size(), i0 + 64); ++i)
        {
          const Query &q = qs[i];
          c.q = &q;
          c.fails.clear();
          slot.since = now_ms();
          slot.q = &q;
          try { ev(space_of(q.space, q.p), q, c); }
          catch (std::exception &e) { c.fails.push_back(std::string("exception: ") + e.what()); }
          slot.q = nullptr;
          if (!c.fails.empty())
          {
            // replay before report, on a fresh object
            auto again = eval_one(q, ev, true);
            std::string w = c.fails[0] + "  in  " + show(q);
            if (again.empty()) w += "  (not reproduced on a fresh object: depends on the call history)";
            violation(w, pack(q));
          }
        }
      }
      std::lock_guard<std::mutex> l(r.mu);
      r.transitions += c.calls;
      r.comparisons += c.cmps;
      for (auto &e : c.worst) track(r.worst, e.first.c_str(), e.second);
    });
  for (auto &t : th) t.join();
  r.states += (long)qs.size();
  for (auto &q : qs) if (q.kind == G1WORD || q.kind == MICRO || q.kind == FAMILY || q.kind == CWORD) ++r.traces;
}

// returns true if the run was a replay (and has been executed)
inline bool replay_queries(const Eval &ev)
{
  Run &r = run();
  if (!r.replay) return false;
  FILE *f = fopen(r.replay_file.c_str(), "r");
  char line[2000];
  while (f && fgets(line, sizeof line, f))
  {
    Query q;
    if (!unpack(line, q)) continue;
    auto fails = eval_one(q, ev, true);
    ++r.states;
    printf("replay %s\n", show(q).c_str());
    for (auto &x : fails) violation(x + "  in  " + show(q), line);
    if (fails.empty()) printf("  holds\n");
  }
  if (f) fclose(f);
  return true;
}

inline void init(int argc, char **argv)
{
  Run &r = run();
  r.prop = argv[1];
  if (const char *t = getenv("VERIF_TIER")) if (!strcmp(t, "thorough")) r.thorough = true, r.tier = "thorough";
  if (const char *s = getenv("VERIF_SEED")) r.seed = atol(s);
  for (int i = 2; i < argc; ++i)
  {
    if (!strcmp(argv[i], "--thorough")) r.thorough = true, r.tier = "thorough";
    if (!strcmp(argv[i], "--replay") && i + 1 < argc) r.replay = true, r.replay_file = argv[++i];
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
}
}  // namespace mc
