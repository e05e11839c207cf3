// Driver framework: runs one property's generated cases in forked workers, detects failed expectations, sanitizer
// aborts, process exits and hangs, and writes a replay file naming the exact case (seed, iteration, inputs).
#ifndef VERIF_DRV_H
#define VERIF_DRV_H
#include "gen.h"
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <iostream>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
using gen::Rng; using ref::str;
struct Ctx {
  Rng r; uint64_t iter; FILE* early; std::vector<std::pair<str, str> > in; str why;
  Ctx(uint64_t seed, uint64_t it) : r(seed, it), iter(it), early(0) {}
  void input(const char* n, const str& v) { if (early) { fprintf(early, "%s (%zu bytes): %s\n", n, v.size(), gen::hex(v).c_str()); fflush(early); } in.push_back(std::make_pair(str(n), v)); }
  void input(const char* n, long v) { if (early) { fprintf(early, "%s: %ld\n", n, v); fflush(early); } in.push_back(std::make_pair(str(n), std::to_string(v))); }
  bool fail(const str& w) { why = w; return false; }
  bool check(bool c, const str& w) { if (!c && why.empty()) why = w; return c; }
};
#define CHECK(c, msg) do { if (!(c)) { std::ostringstream _o; _o << msg; return x.fail(_o.str()); } } while (0)
typedef bool (*PropFn)(Ctx&);
struct NullBuf : std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
struct Shared { volatile uint64_t iter; volatile uint64_t done; volatile double t; volatile int failed; char why[4096]; };
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static NullBuf g_null;
static int run_one(PropFn f, uint64_t seed, uint64_t it, FILE* early, str* why) {
  Ctx x(seed, it); x.early = early;
  bool ok = f(x);
  if (!ok && why) *why = x.why;
  return ok ? 0 : 1;
}
// usage: drv run SEED SECONDS JOBS REPLAY_PATH MAX_ITERS | drv case SEED ITER
static int drv_main(int argc, char** argv, const char* name, PropFn f) {
  std::cerr.rdbuf(&g_null); std::clog.rdbuf(&g_null);
  if (argc >= 4 && str(argv[1]) == "case") {
    str why; int rc = run_one(f, strtoull(argv[2], 0, 0), strtoull(argv[3], 0, 0), stdout, &why);
    printf(rc ? "FAIL: %s\n" : "OK %s\n", why.c_str());
    return rc ? 3 : 0;
  }
  if (argc < 7) { fprintf(stderr, "usage\n"); return 2; }
  uint64_t seed = strtoull(argv[2], 0, 0); double secs = atof(argv[3]); int jobs = atoi(argv[4]); const char* path = argv[5];
  uint64_t maxit = strtoull(argv[6], 0, 0);
  const double HANG = 30;
  Shared* sh = (Shared*)mmap(0, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(jobs); std::vector<str> logs(jobs);
  double t0 = now();
  for (int j = 0; j < jobs; ++j) {
    logs[j] = str(path) + ".log" + std::to_string(j); sh[j].t = now();
    if (!(pid[j] = fork())) {
      int fd = open(logs[j].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
      for (uint64_t i = j; i < maxit; i += jobs) {
        if (now() - t0 > secs) break;
        sh[j].iter = i; sh[j].t = now(); str why;
        if (run_one(f, seed, i, 0, &why)) { strncpy(sh[j].why, why.c_str(), 4095); sh[j].failed = 1; _exit(3); }
        ++sh[j].done;
      }
      _exit(0);
    }
  }
  int bad = -1; str kind; int left = jobs; std::vector<bool> fin(jobs, false);
  while (left && bad < 0) {
    usleep(3000);
    for (int j = 0; j < jobs && bad < 0; ++j) {
      if (fin[j]) continue;
      int st; pid_t p = waitpid(pid[j], &st, WNOHANG);
      if (p == pid[j]) {
        fin[j] = true; --left;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        bad = j; std::ostringstream o;
        if (sh[j].failed) o << "expectation failed: " << sh[j].why;
        else if (WIFEXITED(st)) o << "process exited with status " << WEXITSTATUS(st) << " inside the library (abort or sanitizer report)";
        else o << "process killed by signal " << WTERMSIG(st);
        kind = o.str();
      } else if (now() - sh[j].t > HANG) { bad = j; kind = "no termination within 30 s"; kill(pid[j], SIGKILL); }
    }
  }
  uint64_t done = 0; for (int j = 0; j < jobs; ++j) { done += sh[j].done; if (!fin[j]) { kill(pid[j], SIGKILL); waitpid(pid[j], 0, 0); } }
  if (bad < 0) { for (auto& l : logs) unlink(l.c_str()); printf("OK property=%s cases=%llu seed=%llu\n", name, (unsigned long long)done, (unsigned long long)seed); return 0; }
  FILE* o = fopen(path, "w");
  fprintf(o, "property: %s\nreplay: %s case %llu %llu\nwhat failed: %s\n", name, argv[0], (unsigned long long)seed, (unsigned long long)sh[bad].iter, kind.c_str());
  fflush(o);
  pid_t c = fork();
  if (!c) { close(2); open("/dev/null", O_WRONLY); alarm(20); run_one(f, seed, sh[bad].iter, o, 0); fflush(o); _exit(0); }
  waitpid(c, 0, 0);
  fseek(o, 0, SEEK_END);
  FILE* l = fopen(logs[bad].c_str(), "r");
  if (l) { char b[4096]; size_t n; int tot = 0; fprintf(o, "--- stderr of the failing process ---\n"); while ((n = fread(b, 1, sizeof b, l)) > 0 && tot < 20000) { fwrite(b, 1, n, o); tot += n; } fclose(l); }
  fclose(o);
  for (auto& q : logs) unlink(q.c_str());
  printf("FAIL property=%s seed=%llu iter=%llu %s\n", name, (unsigned long long)seed, (unsigned long long)sh[bad].iter, kind.c_str());
  return 3;
}
__attribute__((weak)) int known_findings();
#define DRIVER(NAME, FN) int main(int argc, char** argv) { if (argc == 2 && str(argv[1]) == "known") return known_findings ? known_findings() : 0; return drv_main(argc, argv, NAME, FN); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:exitcode=66:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=67"; }
#endif
