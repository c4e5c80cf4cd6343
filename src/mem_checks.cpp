// P15 driver: runs the sanitized workers over the bounded input space and turns any report into a violation with a replay file.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "domain.hpp"
#include "mem_slot.hpp"
using namespace mc;
static const char *METH[] = { "get_distance", "get_controls", "get_path", "interpolate", "get_path_with_covariance", "integrate", "repeated queries", "object lifetime" };

struct Job { pid_t pid; std::string err, bin; MemSlot *slot; std::string file; };
static std::string bindir;
static std::string tmpdir() { return out_dir(); }

static Job launch(const std::string &bin, int shard, int n, bool th, int thin, const std::string &extra = "")
{
  Job j;
  j.bin = bin;
  j.file = tmpdir() + "/mem_" + bin + fmt("_%d.slot", shard);
  j.err = tmpdir() + "/mem_" + bin + fmt("_%d.err", shard);
  int fd = open(j.file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (ftruncate(fd, sizeof(MemSlot))) exit(2);
  j.slot = (MemSlot *)mmap(nullptr, sizeof(MemSlot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  j.pid = fork();
  if (j.pid == 0)
  {
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=0:malloc_context_size=5", 1);
    setenv("UBSAN_OPTIONS", "print_stacktrace=0:exitcode=99", 1);
    setenv("MSAN_OPTIONS", "exitcode=99", 1);
    int e = open(j.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 2);
    std::string b = bindir + "/" + bin, s1 = std::to_string(shard), s2 = std::to_string(n), s4 = th ? "1" : "0", s5 = std::to_string(thin);
    if (extra.empty()) execl(b.c_str(), b.c_str(), s1.c_str(), s2.c_str(), j.file.c_str(), s4.c_str(), s5.c_str(), nullptr);
    else execl(b.c_str(), b.c_str(), s1.c_str(), s2.c_str(), j.file.c_str(), s4.c_str(), s5.c_str(), extra.c_str(), nullptr);
    _exit(97);
  }
  return j;
}
static std::string first_line(const std::string &file)
{
  FILE *f = fopen(file.c_str(), "r");
  char line[600];
  std::string r;
  while (f && fgets(line, sizeof line, f))
    if (strstr(line, "ERROR") || strstr(line, "runtime error") || strstr(line, "WARNING") || strstr(line, "ssert") || strstr(line, "memory")) { r = line; break; }
  if (f) fclose(f);
  while (!r.empty() && (r.back() == '\n')) r.pop_back();
  return r;
}
static bool judge(Job &j, int st)
{
  Run &r = run();
  r.states += j.slot->states;
  r.transitions += j.slot->calls;
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { printf("cannot run %s\n", j.bin.c_str()); exit(2); }
  if (!ok)
  {
    std::string w = first_line(j.err);
    if (w.empty()) w = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
    int m = j.slot->method;
    violation(j.bin + ": " + w + "  during " + METH[m < 0 || m > 7 ? 0 : m] + (m == 7 ? "" : "  in  " + show(j.slot->q)), m == 7 ? "lifetime" : pack(j.slot->q));
  }
  return ok;
}

int main(int argc, char **argv)
{
  init(argc, argv);
  Run &r = run();
  bindir = argv[0];
  bindir = bindir.substr(0, bindir.rfind('/'));
  std::vector<std::string> bins = { "mem_asan", "mem_msan" };
  if (r.replay)
  {
    FILE *f = fopen(r.replay_file.c_str(), "r");
    char line[2000];
    while (f && fgets(line, sizeof line, f))
    {
      if (line[0] == '#') continue;
      line[strcspn(line, "\n")] = 0;
      for (auto &b : bins)
      {
        Job j = launch(b, 0, 100000000, false, 100000, strncmp(line, "query", 5) ? "" : line);
        int st;
        waitpid(j.pid, &st, 0);
        judge(j, st);
      }
    }
    return finish();
  }
  int n = (int)std::max(2u, std::thread::hardware_concurrency());
  std::vector<Job> js;
  long leaks = 0, defs = 0;
  for (auto &b : bins)
  {
    js.clear();
    int thin = r.thorough ? 4 : (b == "mem_asan" ? 40 : 40);
    for (int i = 0; i < n; ++i) js.push_back(launch(b, i, n, r.thorough, thin));
    for (auto &j : js)
    {
      int st;
      waitpid(j.pid, &st, 0);
      judge(j, st);
      leaks += j.slot->leak_checks;
      defs += j.slot->def_checks;
      r.extra[b + "_states"] = std::to_string((r.extra.count(b + "_states") ? atol(r.extra[b + "_states"].c_str()) : 0) + j.slot->states);
      unlink(j.file.c_str());
    }
  }
  r.traces = leaks;  // sequences of repeated queries / object lifetimes with balanced memory
  r.comparisons = defs;  // values checked to be fully initialised
  r.extra["instrumented_builds"] = jstr("AddressSanitizer + UndefinedBehaviorSanitizer + assertions (gcc), MemorySanitizer (clang)");
  r.extra["exhaustive"] = "true";
  sample("every query of the thinned bounded input space, all methods, on both builds");
  r.assumptions = { "results between enumerated inputs are not covered" };
  return finish();
}
