// C05 bounded stand-in / replay: declared sizes against the configured limits
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict = random_dict(r); gen::DeltaOpts o = random_delta_opts(r, false); o.max_windows = r.range(1, 5); o.max_target = r.chance(1, 4) ? 3000 : 60; if (r.chance(3, 4)) o.custom = false;
  gen::DeltaGen g(r, o, dict); str delta = g.make(); ref::Result full = ref::decode(dict, delta);
  CHECK(full.ok, "checker inconsistency " << full.why);
  uint64_t mw = 0, tot = full.out.size(); for (size_t i = 0; i < full.windows.size(); ++i) mw = std::max<uint64_t>(mw, full.windows[i].out_end - full.windows[i].out_begin);
  DecOpts q; ref::Opts ro;
  switch (r.below(3)) { case 0: q.max_window = mw + r.below(3); if (q.max_window) q.max_window -= r.chance(1, 2); break; case 1: q.max_window = r.below(mw + 3); break; default:; }
  switch (r.below(3)) { case 0: q.max_file = tot + r.below(3); if (q.max_file) q.max_file -= r.chance(1, 2); break; case 1: q.max_file = r.below(tot + 3); break; default:; }
  if (q.max_window >= 0) ro.max_window = q.max_window; if (q.max_file >= 0) ro.max_file = q.max_file;
  q.allow = r.chance(1, 2); ro.allow_target = q.allow;
  x.input("dictionary", dict); x.input("delta", delta); x.input("window limit", q.max_window); x.input("file limit", q.max_file);
  ref::Result e = ref::decode(dict, delta, ro);
  std::vector<str> after; Out a = decode_stream(dict, delta, gen::cuts(r, delta.size()), q, &after);
  CHECK(a.ok == e.ok, "verdict " << a.ok << " with limits, expected " << e.ok << " (" << e.why << ")");
  CHECK(a.s.size() <= ro.max_file, "produced more output than the file limit");
  if (e.ok) CHECK(a.s == e.out, "wrong output");
  else CHECK(a.s.size() <= e.out.size(), "output of a window beyond the limits was produced");
  // same object, limits lowered while decoding
  if (full.windows.size() >= 2 && r.chance(1, 2)) {
    size_t k = r.range(1, full.windows.size() - 1), at = full.windows[k - 1].end; uint64_t sofar = full.windows[k - 1].out_end;
    uint64_t lim = r.below(sofar + 2), nextlen = full.windows[k].out_end - full.windows[k].out_begin;
    if (nextlen > 0) {
      VCDiffStreamingDecoder v; Buf d(dict); Sink s; v.StartDecoding(d.p, d.n);
      CHECK(v.DecodeChunkToInterface(delta.data(), at, &s), "prefix rejected");
      v.SetMaximumTargetFileSize(lim);
      bool ok = v.DecodeChunkToInterface(delta.data() + at, delta.size() - at, &s) && v.FinishDecoding();
      x.input("file limit lowered mid-stream to", (long)lim); x.input("decoded so far", (long)sofar);
      if (sofar + nextlen > lim) CHECK(!ok && s.s.size() <= sofar, "window accepted although the total exceeds the (lowered) file limit");
    }
  }
  VCDiffStreamingDecoder v2; CHECK(!v2.SetMaximumTargetWindowSize(0x80000000ul) && v2.SetMaximumTargetWindowSize(0x7fffffff), "window limit range check");
  return true;
}
DRIVER("C05", prop)
