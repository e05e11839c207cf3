// C06 bounded stand-in / replay: all truncations, behaviour after errors, reuse of a decoder
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict = random_dict(r); gen::DeltaOpts o = random_delta_opts(r, false); o.max_target = 150; if (r.chance(2, 3)) o.custom = false;
  gen::DeltaGen g(r, o, dict); str delta = g.make(); ref::Result e = ref::decode(dict, delta);
  x.input("dictionary", dict); x.input("delta", delta);
  CHECK(e.ok, "checker inconsistency " << e.why);
  size_t step = delta.size() > 500 ? delta.size() / 200 : 1;
  VCDiffStreamingDecoder used;                                     // reused for everything below
  for (size_t k = 0; k <= delta.size(); k += (delta.size() - k < 60 ? 1 : step)) {
    bool complete = k == 0; size_t out = 0;
    for (size_t i = 0; i < e.boundaries.size(); ++i) if (e.boundaries[i] == k) { complete = true; if (i) out = e.windows[i - 1].out_end; }
    str t = delta.substr(0, k);
    VCDiffStreamingDecoder fresh; DecOpts q; (void)q;
    std::vector<size_t> c = r.chance(1, 2) ? whole(k) : gen::cuts(r, k);
    Out a = decode_stream(fresh, dict, t, c);
    CHECK(a.ok == complete, "delta of " << delta.size() << " bytes truncated to " << k << ": finish reported " << a.ok << ", expected " << complete);
    if (complete) CHECK(a.s == e.out.substr(0, out), "wrong output for the complete prefix of " << k << " bytes");
    Out b = decode_stream(used, dict, t, c);
    CHECK(b.ok == a.ok && (!a.ok || b.s == a.s), "reused decoder differs from a new one on the prefix of " << k << " bytes");
  }
  // error, then refusal, then reuse with other deltas
  gen::DeltaOpts po = random_delta_opts(r, true); str other;
  { gen::DeltaGen g2(r, po, dict); other = g2.make(); }
  if (known_debug_exit(other)) other.clear();
  x.input("other delta", other);
  VCDiffStreamingDecoder v; setup(v, DecOpts());
  for (int k = 0; k < 4; ++k) {
    const str& d = k % 2 ? delta : other;
    VCDiffStreamingDecoder f; std::vector<size_t> c = gen::cuts(r, d.size());
    Out a = decode_stream(f, dict, d, c), b = decode_stream(v, dict, d, c);
    CHECK(a.ok == b.ok && a.s == b.s, "round " << k << ": a reused decoder (" << b.ok << ") differs from a new one (" << a.ok << ")");
    CHECK(!v.FinishDecoding(), "FinishDecoding without StartDecoding succeeded");
  }
  // abandoned decode followed by Finish (fails or not), then reuse
  { Buf d(dict); Sink s; v.StartDecoding(d.p, d.n); size_t k = r.below(delta.size() + 1); v.DecodeChunkToInterface(delta.data(), k, &s); v.FinishDecoding();
    Out b = decode_stream(v, dict, delta, whole(delta.size())); CHECK(b.ok && b.s == e.out, "decoder reused after abandoning a decode at byte " << k << " fails"); }
  return true;
}
DRIVER("C06", prop)
