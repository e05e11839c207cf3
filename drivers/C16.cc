// C16 bounded stand-in / replay: same inputs, same bytes, whatever happened before; dictionary untouched
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict, target; random_inputs(x, &dict, &target, -1, 3000, 3000); int flags = r.chance(1, 5) ? 0 : (r.chance(1, 2) ? VCD_FORMAT_INTERLEAVED : 0) | (r.chance(1, 2) ? VCD_FORMAT_CHECKSUM : 0); bool match = r.chance(1, 2), js = false;
  if (r.chance(1, 6)) { js = true; flags = VCD_FORMAT_JSON; for (size_t i = 0; i < dict.size(); ++i) dict[i] &= 127; for (size_t i = 0; i < target.size(); ++i) target[i] &= 127; }
  std::vector<size_t> c = gen::cuts(r, target.size()); if (c.size() > 60) c = whole(target.size());
  x.input("dictionary", dict); x.input("target", target); x.input("flags", flags); x.input("target matches", match); x.input("chunks", (long)c.size());
  Buf d1(dict); HashedDictionary* a = new HashedDictionary(d1.p, d1.n); CHECK(a->Init(), "Init");
  HashedDictionary* b; { Buf d2(dict); b = new HashedDictionary(d2.p, d2.n); CHECK(b->Init(), "Init"); memset(d2.p, 0x55, d2.n); }   // the dictionary must have been copied
  Out r1 = encode_stream(*a, target, c, flags, match), r2 = encode_stream(*b, target, c, flags, match);
  CHECK(r1.ok && r2.ok && r1.s == r2.s, "two dictionaries with the same contents give different deltas");
  // same text at another place in memory with other surroundings
  { str pad = gen::some_bytes(r, 64, 0); str big = pad + target + pad; VCDiffStreamingEncoder e(a, flags, match); Sink s; size_t p = pad.size(); bool ok = e.StartEncodingToInterface(&s);
    for (size_t i = 0; i < c.size(); ++i) { ok = ok && e.EncodeChunkToInterface(big.data() + p, c[i], &s); p += c[i]; } ok = ok && e.FinishEncodingToInterface(&s); CHECK(ok && s.s == r1.s, "delta depends on memory around the target"); }
  // history: one encoder used for other targets (finished or abandoned) first
  VCDiffStreamingEncoder e(a, flags, match);
  for (int k = 0; k < 3; ++k) {
    str other = gen::target_from(r, dict, gen::some_size(r, 500), 0); if (js) for (size_t i = 0; i < other.size(); ++i) other[i] &= 127; Sink junk; e.StartEncodingToInterface(&junk); if (!other.empty()) { e.EncodeChunkToInterface(other.data(), other.size() / 2, &junk); if (r.chance(1, 2)) e.EncodeChunkToInterface(other.data() + other.size() / 2, other.size() - other.size() / 2, &junk); }
    if (r.chance(2, 3)) { CHECK(e.FinishEncodingToInterface(&junk), "Finish"); CHECK(!e.EncodeChunkToInterface("x", 1, &junk), "EncodeChunk accepted after FinishEncoding"); }
    Sink s; size_t p = 0; bool ok = e.StartEncodingToInterface(&s); for (size_t i = 0; i < c.size(); ++i) { ok = ok && e.EncodeChunkToInterface(target.data() + p, c[i], &s); p += c[i]; } ok = ok && e.FinishEncodingToInterface(&s);
    CHECK(ok && s.s == r1.s, "delta differs when the encoder was used before (round " << k << ")");
  }
  // two encoders on one dictionary, interleaved call by call
  { VCDiffStreamingEncoder e1(a, flags, match), e2(a, flags, match); Sink s1, s2; size_t p = 0; bool ok = e1.StartEncodingToInterface(&s1) && e2.StartEncodingToInterface(&s2);
    for (size_t i = 0; i < c.size(); ++i) { ok = ok && e1.EncodeChunkToInterface(target.data() + p, c[i], &s1) && e2.EncodeChunkToInterface(target.data() + p, c[i], &s2); p += c[i]; }
    ok = ok && e1.FinishEncodingToInterface(&s1) && e2.FinishEncodingToInterface(&s2); CHECK(ok && s1.s == r1.s && s2.s == r1.s, "interleaved encoders on one dictionary differ"); }
  Out r3 = encode_stream(*a, target, c, flags, match); CHECK(r3.ok && r3.s == r1.s, "the dictionary changed during encoding");
  CHECK(str(d1.p, d1.n) == dict, "caller's dictionary bytes were modified");
  { VCDiffEncoder ve(dict.data(), dict.size()); ve.SetFormatFlags(flags); ve.SetTargetMatching(match); str o1, o2, o3; CHECK(ve.Encode(target.data(), target.size(), &o1) && ve.Encode("other text, other text, other text", 34, &o3) && ve.Encode(target.data(), target.size(), &o2) && o1 == o2, "VCDiffEncoder gives different deltas for the same target"); }
  delete a; delete b;
  return true;
}
DRIVER("C16", prop)
