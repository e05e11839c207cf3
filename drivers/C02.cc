// C02 bounded stand-in / replay: arbitrary and near-valid deltas under ASan/UBSan; output is append-only
#include "lib.h"
using namespace lib;
static str nested(Rng& r, int depth) {
  str s; for (int i = 0; i < depth; ++i) { s.append("\xD6\xC3\xC4", 3); s.push_back(r.chance(1, 2) ? 'S' : 0); s.push_back(2); s.push_back((char)r.below(5)); s.push_back((char)r.below(5)); }
  return s;
}
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict = random_dict(r), delta;
  switch (r.below(10)) {
    case 0: delta = gen::some_bytes(r, gen::some_size(r, 300), 0); break;
    case 1: delta = str("\xD6\xC3\xC4", 3) + (r.chance(1, 2) ? str(1, 'S') : str(1, 0)) + str(1, (char)r.below(4)) + gen::some_bytes(r, gen::some_size(r, 300), 0); break;
    case 2: delta = nested(r, x.iter % 500 == 0 ? 60000 : r.range(1, 40)) + gen::some_bytes(r, r.below(30), 0); break;
    default: { gen::DeltaGen g(r, random_delta_opts(r, true), dict); delta = g.make();
      for (int k = r.chance(1, 3) ? r.range(1, 4) : 0; k-- && !delta.empty();) delta[r.below(delta.size())] = (char)r.below(256); }
  }
  if (known_debug_exit(delta)) return true;
  std::vector<size_t> c = gen::cuts(r, delta.size()); DecOpts q; q.allow = r.chance(1, 2);
  if (r.chance(1, 5)) q.max_window = r.below(300); if (r.chance(1, 5)) q.max_file = r.below(600);
  x.input("dictionary", dict); x.input("delta", delta); x.input("chunks", (long)c.size());
  VCDiffStreamingDecoder v; setup(v, q);
  for (int round = 0; round < 2; ++round) {
    Buf d(dict); Sink s; str last; size_t p = 0; bool ok = true;
    s.s = "prefix"; last = s.s;
    v.StartDecoding(d.p, d.n);
    for (size_t i = 0; i < c.size() && ok; ++i) {
      Buf b(delta.substr(p, c[i])); p += c[i];
      ok = v.DecodeChunkToInterface(b.p, b.n, &s);
      CHECK(!s.cleared && s.s.size() >= last.size() && s.s.compare(0, last.size(), last) == 0, "output was not append-only");
      last = s.s;
    }
    v.FinishDecoding();
  }
  return true;
}
// Listed in KNOWN_FINDINGS: re-established on every run, so that the line disappears if the behaviour is ever repaired.
int known_findings() {
  static const char* D[2] = {"\xD6\xC3\xC4\x00\x02\x82\x00\x01", "\xD6\xC3\xC4\x00\x02\x81\x00\x81\x7F"};
  static const size_t N[2] = {8, 9};
  for (int i = 0; i < 2; ++i) {
    fflush(stdout); pid_t c = fork();
    if (!c) { freopen("/dev/null", "w", stderr); str out; VCDiffDecoder v; v.Decode("", 0, str(D[i], N[i]), &out); _exit(0); }
    int st = 0; waitpid(c, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      printf("KNOWN-FINDING: property=C02 a debug build exits the process on a delta file header with custom address cache sizes out of range (delta %s)\n", gen::hex(str(D[i], N[i])).c_str());
  }
  return 0;
}
DRIVER("C02", prop)
