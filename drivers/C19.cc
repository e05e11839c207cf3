// C19 bounded stand-in / replay: encoders in several threads on one shared dictionary, under ThreadSanitizer
// SANITIZE: thread
#include "lib.h"
#include <thread>
#include <atomic>
using namespace lib;
struct Job { str target; std::vector<size_t> cuts; int flags; bool match; Out out; };
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict, first; random_inputs(x, &dict, &first, -1, 2000, 2000); bool ascii = r.chance(1, 4);
  if (ascii) for (size_t i = 0; i < dict.size(); ++i) dict[i] &= 127;
  std::vector<Job> jobs(2 + r.below(3));
  x.input("dictionary", dict);
  for (size_t k = 0; k < jobs.size(); ++k) {
    Job& j = jobs[k]; j.target = k ? gen::target_from(r, dict, gen::some_size(r, 2000), 0) : first; j.match = r.chance(1, 2);
    j.flags = (r.chance(1, 2) ? VCD_FORMAT_INTERLEAVED : 0) | (r.chance(1, 2) ? VCD_FORMAT_CHECKSUM : 0);
    if (ascii && r.chance(1, 2)) { j.flags = VCD_FORMAT_JSON; for (size_t i = 0; i < j.target.size(); ++i) j.target[i] &= 127; }
    j.cuts = gen::cuts(r, j.target.size()); if (j.cuts.size() > 20) j.cuts = whole(j.target.size());
    x.input("target", j.target); x.input("flags", j.flags); x.input("target matches", j.match);
  }
  fflush(stdout); int fds[2]; if (pipe(fds)) return true;
  pid_t c = fork();      // a fresh process, so that whatever is built on first use is built by the threads
  if (c < 0) { close(fds[0]); close(fds[1]); return true; }
  if (!c) {
    close(fds[0]); str why; const char* ok = "";
    HashedDictionary hd(dict.data(), dict.size());
    if (!hd.Init()) ok = "Init";
    std::atomic<int> go(0); std::vector<std::thread> ts; int n = (int)jobs.size();
    for (size_t k = 0; k < jobs.size(); ++k) ts.push_back(std::thread([&, k] { ++go; while (go.load() < n) ; for (int i = 0; i < 3; ++i) jobs[k].out = encode_stream(hd, jobs[k].target, jobs[k].cuts, jobs[k].flags, jobs[k].match); }));
    for (size_t k = 0; k < ts.size(); ++k) ts[k].join();
    for (size_t k = 0; k < jobs.size() && !*ok; ++k) {
      HashedDictionary own(dict.data(), dict.size()); if (!own.Init()) ok = "Init";
      Out o = encode_stream(own, jobs[k].target, jobs[k].cuts, jobs[k].flags, jobs[k].match);
      if (!o.ok || !jobs[k].out.ok) ok = "encoding failed"; else if (o.s != jobs[k].out.s) ok = "output of a thread differs from the output of the same encoder run alone";
    }
    if (*ok) { if (write(fds[1], ok, strlen(ok)) < 0) _exit(4); _exit(3); }
    _exit(0);
  }
  close(fds[1]); char b[256]; ssize_t n = read(fds[0], b, 255); close(fds[0]); int st = 0; waitpid(c, &st, 0);
  if (n > 0) return x.fail(str(b, n));
  CHECK(!WIFSIGNALED(st), "the process was ended by signal " << WTERMSIG(st));
  CHECK(WEXITSTATUS(st) != 66 && WEXITSTATUS(st) != 67, "data race between encoders that share only a dictionary (ThreadSanitizer report below)");
  CHECK(WEXITSTATUS(st) == 0, "the process exited with status " << WEXITSTATUS(st));
  return true;
}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_thread_leaks=0:atexit_sleep_ms=0"; }
DRIVER("C19", prop)
