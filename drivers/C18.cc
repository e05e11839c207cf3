// C18 bounded stand-in / replay: the vcdiff tool built from /repo/src/vcdiff_main.cc is run on files in a scratch
// directory, with and without injected read, write and close failures (drivers/C18_shim.c)
// TOOL: vcdiff_main.cc C18_shim.c fopen
#include "lib.h"
#include <sys/stat.h>
#include <limits.h>
using namespace lib;
static str tool() { static str t; if (t.empty()) { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); t = str(b, n > 0 ? n : 0) + "_tool"; } return t; }
static void put(const str& p, const str& s) { FILE* f = fopen(p.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static bool get(const str& p, str* s) { FILE* f = fopen(p.c_str(), "rb"); s->clear(); if (!f) return false; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s->append(b, n); fclose(f); return true; }
static bool exists(const str& p) { struct stat b; return !lstat(p.c_str(), &b); }
struct Dir {
  str d; Dir() { str b = tool() + "-XXXXXX"; d = mkdtemp(&b[0]) ? b : ""; }     // beside the executable: the check removes it all
  ~Dir() { if (d.empty()) return; const char* n[] = {"dict", "target", "delta", "out", "stdin", "stdout", "mark"}; for (const char* q : n) unlink((d + "/" + q).c_str()); rmdir((d + "/dir").c_str()); rmdir(d.c_str()); }
};
struct Run { std::vector<str> args; str in, out; std::vector<str> env; long fsize; bool hang; Run() : fsize(-1), hang(false) {} };
// exit status of the tool; -signal when it was ended by a signal
static int run(Run& q) {
  fflush(stdout); pid_t c = fork(); if (c < 0) return -1000;
  if (!c) {
    int i = open(q.in.empty() ? "/dev/null" : q.in.c_str(), O_RDONLY), o = open(q.out.empty() ? "/dev/null" : q.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("/dev/null", O_WRONLY);
    dup2(i, 0); dup2(o, 1); dup2(e, 2);
    if (q.fsize >= 0) { struct rlimit l = {(rlim_t)q.fsize, (rlim_t)q.fsize}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    std::vector<char*> a; str t = tool(); a.push_back(&t[0]); for (str& s : q.args) a.push_back(&s[0]); a.push_back(0);
    std::vector<char*> v; for (str& s : q.env) v.push_back(&s[0]); v.push_back(0);
    execve(t.c_str(), a.data(), v.data()); _exit(127);
  }
  double t0 = now(); int st = 0;
  for (int k = 0;; ++k) {
    pid_t p = waitpid(c, &st, WNOHANG); if (p == c) break;
    if (now() - t0 > 20) { kill(c, SIGKILL); waitpid(c, &st, 0); q.hang = true; return -9; }
    usleep(k < 20 ? 500 : 3000);
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
static const char* bad(int rc) { return rc == 66 ? " (AddressSanitizer report)" : rc == 67 ? " (UBSan report)" : rc < 0 ? " (ended by a signal)" : ""; }
#define RUN(q, rc) int rc = run(q); CHECK(!q.hang, "the tool did not end within 20 s"); if (rc == -1000 || rc == 127) return true; CHECK(rc >= 0 && rc < 66, "the tool ended with status " << rc << bad(rc))
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict, target; random_inputs(x, &dict, &target, -1, 3000, r.chance(1, 6) ? 20000 : 3000);
  if (r.chance(1, 12)) target.clear(); if (r.chance(1, 12)) dict.clear();
  Dir d; if (d.d.empty()) return true;
  str D = d.d + "/dict", T = d.d + "/target", L = d.d + "/delta", O = d.d + "/out", M = d.d + "/mark", SO = d.d + "/stdout";
  put(D, dict); put(T, target);
  bool json = r.chance(1, 12), inter = r.chance(1, 2), sum = r.chance(1, 2), match = r.chance(1, 2), stats = r.chance(1, 4);
  long bs = r.chance(1, 3) ? -1 : (long)(r.chance(1, 3) ? (target.size() + r.below(3) > 0 ? target.size() + r.below(3) : 1) : 1 + r.below(r.chance(1, 2) ? 8 : 4000));
  if (bs >= 0 && bs < 8 && target.size() > 4000) bs += 100;
  if (bs == 0) bs = 1;
  if (json) { for (char& c : dict) c &= 127; for (char& c : target) c &= 127; put(D, dict); put(T, target); }
  x.input("dictionary", dict); x.input("target", target); x.input("buffersize", bs); x.input("json", json); x.input("interleaved", inter); x.input("checksum", sum); x.input("target_matches", match); x.input("stats", stats);
  std::vector<str> fl; fl.push_back("-dictionary=" + D); if (bs >= 0) fl.push_back("-buffersize=" + std::to_string(bs)); if (stats) fl.push_back("-stats");
  std::vector<str> ef = fl; if (json) ef.push_back("-json"); if (inter) ef.push_back("-interleaved"); if (sum) ef.push_back("-checksum"); if (match) ef.push_back("-target_matches");
  int fault = r.below(10); x.input("scenario", fault);
  if (fault == 8) {                              // "test": encode, decode, compare; the target may change in between
    Run q; q.args.push_back("test"); q.args.insert(q.args.end(), ef.begin(), ef.end()); q.args.push_back("-target=" + T); q.args.push_back("-delta=" + L);
    const char* kinds[] = {"none", "flip", "more", "less", "read"}; const char* kind = kinds[r.below(5)]; if (json) return true;
    bool again = kind[0] != 'r' || r.chance(1, 2); long at = r.below(target.size() + 1); bool dl = kind[0] == 'r' && r.chance(1, 3);
    x.input("fault", str(kind)); x.input("at", at);
    if (kind[0] != 'n') { q.env = {"VF_PATH=" + (dl ? L : T), str("VF_OPEN=") + (again ? "2" : "1"), str("VF_KIND=") + kind, "VF_AT=" + std::to_string(at), "VF_MARK=" + M}; if (r.chance(1, 2)) q.env.push_back("VF_ONCE=1"); }
    RUN(q, rc); bool hit = exists(M);
    if (hit) CHECK(rc != 0, "vcdiff test reported success although " << (kind[0] == 'r' ? "a read failed" : "the target differs from the decoded delta"));
    else CHECK(rc == 0, "vcdiff test failed with status " << rc << " on files that are not changed");
    return true;
  }
  bool efault = fault == 4 || fault == 5, dfault = fault == 6 || fault == 7;
  auto inject = [&](Run& q, bool reading_target, const str& in, const str& out, size_t insz) {
    int k = r.below(4); bool named_out = false; for (const str& s : q.args) if (s.find("=" + out) != str::npos) named_out = true;
    (void)reading_target; const char* kind = k == 0 ? "read" : k == 1 ? "write" : k == 2 ? "close" : "dict"; x.input("fault", str(kind)); long at = r.chance(1, 3) ? 0 : r.below(insz + 2);
    if (kind[0] == 'd') { at = r.below(dict.size() + 1); q.env = {"VF_PATH=" + D, "VF_OPEN=1", "VF_KIND=read"}; }
    else if (kind[0] == 'r') q.env = {"VF_PATH=" + in, "VF_OPEN=1", "VF_KIND=read"};
    else if (!named_out || r.chance(1, 6)) { if (!named_out) q.out = "/dev/full"; else q.fsize = r.below(4); x.input("disk full", 1); return; }
    else q.env = {"VF_PATH=" + out, "VF_OPEN=1", str("VF_KIND=") + kind};
    x.input("at", at); q.env.push_back("VF_AT=" + std::to_string(at)); q.env.push_back("VF_MARK=" + M); if (r.chance(1, 2)) q.env.push_back("VF_ONCE=1");
  };
  // encode
  Run q; q.args.push_back(r.chance(1, 2) ? "encode" : "delta"); q.args.insert(q.args.end(), ef.begin(), ef.end());
  bool sin = r.chance(1, 3), sout = r.chance(1, 3); x.input("stdin", sin); x.input("stdout", sout);
  if (sin) q.in = T; else q.args.push_back("-target=" + T);
  if (sout) q.out = L; else q.args.push_back("-delta=" + L);
  if (fault == 3) {                              // files that cannot be opened or read
    int w = r.below(4); x.input("bad file", w); mkdir((d.d + "/dir").c_str(), 0700);
    for (str& s : q.args) {
      if (w == 0 && s == "-dictionary=" + D) s += "-missing";
      if (w == 1 && s == "-target=" + T) s += "-missing";
      if (w == 2 && s == "-delta=" + L) s = "-delta=" + d.d + "/missing/delta";
      if (w == 3 && s == "-target=" + T) s = "-target=" + d.d + "/dir";
    }
    bool applies = w == 0 || (w == 2 ? !sout : !sin);
    RUN(q, rc); if (applies) CHECK(rc != 0, "success reported although a file could not be opened or read"); else CHECK(rc == 0, "encoding failed with status " << rc);
    return true;
  }
  if (efault) inject(q, true, T, L, target.size());
  { RUN(q, rc); bool hit = exists(M); str got; bool full = efault && (q.out == "/dev/full" || q.fsize >= 0); if (q.out != "/dev/full") get(L, &got);
    if (hit) { CHECK(rc != 0, "encode reported success after a failed read, write or close"); return true; }
    if (full && rc != 0) return true;
    if (q.out == "/dev/full") { CHECK(rc != 0 || (json && target.empty()), "encode reported success although its output could not be written"); return true; }
    CHECK(rc == 0, "encode failed with status " << rc);
    if (json) { CHECK(target.empty() || !got.empty(), "no JSON output"); return true; }
    Out o = decode_stream(dict, got, whole(got.size())); CHECK(o.ok && o.s == target, "encode reported success but its output does not decode to the target"); }
  // decode, possibly of a damaged delta
  str delta; get(L, &delta); DecOpts lim;
  if (fault == 1 || fault == 2) {
    if (fault == 2) { gen::DeltaOpts o = random_delta_opts(r, r.chance(1, 2)); gen::DeltaGen g(r, o, dict); delta = g.make(); }
    if (fault == 1 || r.chance(1, 3)) { if (r.chance(1, 2)) delta.resize(r.below(delta.size() + 1)); else if (!delta.empty()) delta[r.below(delta.size())] ^= 1 << r.below(8); }
    if (known_debug_exit(delta)) return true; put(L, delta); x.input("damaged delta", delta);
    if (r.chance(1, 4)) lim.max_file = r.below(target.size() + 2); if (r.chance(1, 4)) lim.max_window = r.below(target.size() + 2); lim.allow = r.chance(2, 3);
  }
  Out want = decode_stream(dict, delta, whole(delta.size()), lim);
  Run p; p.args.push_back(r.chance(1, 2) ? "decode" : "patch"); p.args.insert(p.args.end(), fl.begin(), fl.end());
  if (lim.max_file >= 0) p.args.push_back("-max_target_file_size=" + std::to_string(lim.max_file)); if (lim.max_window >= 0) p.args.push_back("-max_target_window_size=" + std::to_string(lim.max_window)); if (!lim.allow) p.args.push_back("-allow_vcd_target=false");
  x.input("max_target_file_size", lim.max_file); x.input("max_target_window_size", lim.max_window); x.input("allow_vcd_target", lim.allow);
  sin = r.chance(1, 3); sout = r.chance(1, 3); if (sin) p.in = L; else p.args.push_back("-delta=" + L); if (sout) p.out = O; else p.args.push_back("-target=" + O);
  x.input("decode stdin", sin); x.input("decode stdout", sout);
  if (dfault) inject(p, false, L, O, r.chance(1, 2) ? target.size() : delta.size());
  RUN(p, rc); bool hit = exists(M); str got; if (p.out != "/dev/full") get(O, &got);
  if (hit) { CHECK(rc != 0, "decode reported success after a failed read, write or close"); return true; }
  if (dfault && (p.out == "/dev/full" || p.fsize >= 0)) {
    if (p.out == "/dev/full") { if (!want.s.empty()) CHECK(rc != 0, "decode reported success although its output could not be written"); return true; }
    if (rc == 0) CHECK(got == want.s, "decode reported success but the output file is not complete"); return true;
  }
  CHECK((rc == 0) == want.ok, "decode ended with status " << rc << " but the library " << (want.ok ? "accepts" : "rejects") << " this delta");
  if (rc == 0) CHECK(got == want.s, "the output of decode differs from the decoded data");
  return true;
}
DRIVER("C18", prop)
