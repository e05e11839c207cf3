// C01 bounded stand-in / replay: encode, then decode, over generated dictionaries, targets, chunkings and flags
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict, target; bool big = r.chance(1, 60);
  random_inputs(x, &dict, &target, -1, big ? 60000 : 5000, big ? 60000 : 6000);
  if (big) { target += gen::target_from(r, dict, r.range(20000, 120000), r.below(3)); }
  int flags = r.below(4); bool match = r.chance(1, 2);
  std::vector<size_t> ec = gen::cuts(r, target.size());
  if (ec.size() > 400) ec = whole(target.size());
  x.input("dictionary", dict); x.input("target", target); x.input("flags", flags); x.input("target matching", match); x.input("encode calls", (long)ec.size());
  Buf d(dict);
  HashedDictionary hd(d.p, d.n); CHECK(hd.Init(), "dictionary Init failed");
  Out e = encode_stream(hd, target, ec, flags, match);
  CHECK(e.ok, "encoding failed"); x.input("delta", e.s);
  Out o = decode_once(dict, e.s);
  CHECK(o.ok, "decoder rejects the encoder's delta");
  CHECK(o.s == target, "decoded bytes differ from the target");
  std::vector<size_t> dc = gen::cuts(r, e.s.size());
  DecOpts q; q.allow = r.chance(1, 2);
  Out o2 = decode_stream(dict, e.s, dc, q);
  CHECK(o2.ok && o2.s == target, "streaming decode differs from the target");
  if (r.chance(1, 4)) {
    VCDiffEncoder se(d.p, d.n); se.SetFormatFlags(flags); se.SetTargetMatching(match); str s1, s2;
    CHECK(se.Encode(target.data(), target.size(), &s1), "simple encode failed");
    str t2 = target.substr(0, r.below(target.size() + 1));
    CHECK(se.Encode(t2.data(), t2.size(), &s2), "second simple encode failed");
    Out a = decode_once(dict, s1), b = decode_once(dict, s2);
    CHECK(a.ok && a.s == target && b.ok && b.s == t2, "simple interface does not round-trip");
  }
  return true;
}
DRIVER("C01", prop)
