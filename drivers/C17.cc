// C17 bounded stand-in / replay: sliding versus direct hash
#include "lib.h"
#include "blockhash.h"
#include "rolling_hash.h"
using namespace lib;
template <int W> static bool one(Ctx& x) {
  Rng& r = x.r; RollingHash<W>::Init(); RollingHash<W> h; str s = gen::some_bytes(r, W + r.range(1, 200), r.below(3)); if (r.chance(1, 4)) s.assign(s.size(), '\xff');
  x.input("window", W); x.input("bytes", s); Buf b(s); uint32_t v = h.Hash(b.p);
  for (size_t i = 0; i + W < b.n; ++i) {
    CHECK(v < RollingHashUtil::kBase, "hash " << v << " out of range");
    uint32_t ref = 0; for (int k = 0; k < W; ++k) ref = (uint32_t)(((uint64_t)ref * 257 + (unsigned char)b.p[i + k]) % (1u << 23)); (void)ref;
    v = h.UpdateHash(v, b.p[i], b.p[i + W]); uint32_t d = h.Hash(b.p + i + 1);
    CHECK(v == d, "after sliding by " << i + 1 << " the hash is " << v << ", hash of the window is " << d);
  }
  return true;
}
static bool prop(Ctx& x) { return one<BlockHash::kBlockSize>(x) && one<2>(x) && one<3>(x) && one<7>(x) && one<64>(x); }
DRIVER("C17", prop)
