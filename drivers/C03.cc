// C03 bounded stand-in / replay: generated valid deltas against the reference decoder
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict = random_dict(r); gen::DeltaOpts o = random_delta_opts(r, false);
  gen::DeltaGen g(r, o, dict); str delta = g.make();
  x.input("dictionary", dict); x.input("delta", delta); x.input("expected target", g.expect);
  ref::Result q = ref::decode(dict, delta);
  CHECK(q.ok && q.out == g.expect, "checker inconsistency: reference decoder disagrees with the generator: " << q.why);
  Out a = decode_once(dict, delta);
  CHECK(a.ok, "valid delta rejected");
  CHECK(a.s == g.expect, "decoded target differs from RFC semantics");
  Out b = decode_stream(dict, delta, gen::cuts(r, delta.size()));
  CHECK(b.ok && b.s == g.expect, "streaming decode of a valid delta differs from RFC semantics");
  return true;
}
DRIVER("C03", prop)
