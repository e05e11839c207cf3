// C07 bounded stand-in / replay: checksum emitted and verified
#include "lib.h"
#include "checksum.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r;
  { // the checksum function itself, over long buffers with extreme bytes
    size_t n = r.chance(1, 6) ? r.range(5500, 12000) : r.chance(1, 40) ? r.range(60000, 70000) : gen::some_size(r, 20000);
    str s = r.chance(1, 3) ? str(n, '\xff') : gen::some_bytes(r, n, r.below(3));
    x.input("buffer", s);
    Buf b(s); VCDChecksum c = ComputeAdler32(b.p, b.n);
    CHECK(c == ref::adler(s), "ComputeAdler32 = " << c << ", Adler-32 (seed 0) is " << ref::adler(s) << " for " << n << " bytes");
    size_t k = r.below(n + 1); VCDChecksum c2 = UpdateAdler32(ComputeAdler32(b.p, k), b.p + k, n - k);
    CHECK(c2 == c, "UpdateAdler32 over a split at " << k << " differs");
  }
  str dict, target; random_inputs(x, &dict, &target); if (r.chance(1, 10)) target += str(r.range(5000, 8000), '\xff');
  std::vector<size_t> ec = gen::cuts(r, target.size()); if (ec.size() > 60) ec = whole(target.size());
  HashedDictionary hd(dict.data(), dict.size()); CHECK(hd.Init(), "Init");
  int flags = VCD_FORMAT_CHECKSUM | (r.chance(1, 2) ? VCD_FORMAT_INTERLEAVED : 0);
  Out e = encode_stream(hd, target, ec, flags, r.chance(1, 2)); CHECK(e.ok, "encode");
  x.input("dictionary", dict); x.input("target", target); x.input("delta", e.s);
  ref::Result p = ref::decode(dict, e.s); CHECK(p.ok && p.out == target, "encoder output not accepted by the reference decoder: " << p.why);
  for (size_t i = 0; i < p.windows.size(); ++i) {
    const ref::Window& w = p.windows[i];
    CHECK(w.has_sum && w.sum == ref::adler(p.out.substr(w.out_begin, w.out_end - w.out_begin)), "window " << i << " carries checksum " << w.sum);
  }
  // a corrupted dictionary or stored checksum must be detected
  gen::DeltaOpts o = random_delta_opts(r, false); o.ext = true; o.checksum = 1; o.custom = false; o.max_windows = 2;
  gen::DeltaGen g(r, o, dict); str delta = g.make();
  str d2 = dict; if (!d2.empty()) d2[r.below(d2.size())] ^= (char)(1 << r.below(8));
  ref::Result q = ref::decode(d2, delta); Out a = decode_once(d2, delta);
  x.input("delta 2", delta); x.input("dictionary 2", d2);
  CHECK(a.ok == q.ok && (!q.ok || a.s == q.out), "corrupted dictionary: verdict " << a.ok << ", expected " << q.ok << " " << q.why);
  o.perturb = true; gen::DeltaGen g2(r, o, dict); str delta3 = g2.make(); if (known_debug_exit(delta3)) return true; ref::Result q3 = ref::decode(dict, delta3); Out a3 = decode_once(dict, delta3);
  x.input("delta 3", delta3);
  CHECK(a3.ok == q3.ok && (!q3.ok || a3.s == q3.out), "perturbed delta: verdict " << a3.ok << ", expected " << q3.ok << " " << q3.why);
  return true;
}
DRIVER("C07", prop)
