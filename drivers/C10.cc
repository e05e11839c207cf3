// C10 bounded stand-in / replay: verdict on near-valid deltas against the reference decoder
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict = random_dict(r); gen::DeltaOpts o = random_delta_opts(r, r.chance(5, 6)); if (r.chance(2, 3)) o.custom = false; o.max_target = r.chance(1, 3) ? 20 : 200;
  gen::DeltaGen g(r, o, dict); str delta = g.make(); if (known_debug_exit(delta)) return true;
  DecOpts q; q.allow = r.chance(2, 3); ref::Opts ro; ro.allow_target = q.allow;
  x.input("dictionary", dict); x.input("delta", delta); x.input("allow target", q.allow);
  ref::Result e = ref::decode(dict, delta, ro);
  std::vector<size_t> c = r.chance(1, 2) ? whole(delta.size()) : gen::cuts(r, delta.size());
  Out a = decode_stream(dict, delta, c, q);
  CHECK(a.ok == e.ok, "verdict " << a.ok << ", expected " << e.ok << " (" << e.why << ")");
  if (e.ok) CHECK(a.s == e.out, "wrong output");
  return true;
}
DRIVER("C10", prop)
