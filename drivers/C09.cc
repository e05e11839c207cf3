// C09 bounded stand-in / replay: encoder cache, decoder cache and reference cache over long address histories
#include "lib.h"
#include "addrcache.h"
#include "varint_bigendian.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; int nn, ns;
  switch (r.below(7)) { case 0: nn = 4; ns = 3; break; case 1: nn = 0; ns = r.range(0, 6); break; case 2: nn = r.range(0, 6); ns = 0; break; case 3: nn = r.range(0, 254); ns = r.range(0, 254 - nn); break;
    case 4: nn = 254; ns = 0; break; case 5: nn = 0; ns = 254; break; default: nn = r.range(1, 6); ns = r.range(1, 6); }
  x.input("near", nn); x.input("same", ns);
  VCDiffAddressCache enc((unsigned char)nn, (unsigned char)ns), dec((unsigned char)nn, (unsigned char)ns); ref::Cache rc(nn, ns);
  CHECK(enc.Init() && dec.Init(), "Init failed");
  int64_t here = r.chance(1, 8) ? 0x7fffffff - (int64_t)r.below(100000) : r.range(1, 5000); std::vector<int64_t> hist; hist.push_back(0);
  int n = r.range(1, nn + ns > 60 ? 60 : 300), resets = r.below(3); str log;
  for (int i = 0; i < n; ++i) {
    if (resets && r.chance(1, 80)) { --resets; CHECK(enc.Init() && dec.Init(), "re-Init failed"); rc = ref::Cache(nn, ns); }
    int64_t a;
    switch (r.below(8)) { case 0: a = here - 1; break; case 1: a = hist[r.below(hist.size())]; break; case 2: a = hist.back(); break; case 3: a = hist[r.below(hist.size())] + r.below(300); break;
      case 4: a = hist[r.below(hist.size())] % (ns ? ns * 256 : 256) + 256 * (int64_t)r.below(here / 256 + 1); break; case 5: a = 0; break; case 6: a = here - 1 - (int64_t)r.below(here); break; default: a = r.below(here); }
    if (a >= here) a = here - 1; if (a < 0) a = 0;
    if (r.chance(1, 6)) {                                  // arbitrary input to the decoder: either valid and equal to the reference, or nothing changes
      int mode = r.range(0, 1 + nn + ns); str b = gen::some_bytes(r, r.range(0, 6), 0); if (r.chance(1, 3)) { b.clear(); ref::put_varint(&b, r.chance(1, 2) ? 0x7fffffff - r.below(3) : r.next() & 0xffffffff); } Buf buf(b); const char* p = buf.p;
      x.input("decode mode", mode); x.input("decode bytes", b); x.input("here", (long)here);
      int64_t want = -3, used = 0; ref::Rd rd(b, 0, b.size());
      if (mode >= 2 + nn) { int c; if (rd.byte(&c)) want = rc.same_[(mode - 2 - nn) * 256 + c]; }
      else { uint64_t v; if (rd.varint(&v, ref::I32)) want = mode == 0 ? (int64_t)v : mode == 1 ? here - (int64_t)v : rc.near_[mode - 2] + (int64_t)v; }
      bool good = want >= 0 && want < here && !rd.bad; used = good ? rd.p : 0;
      VCDAddress got = dec.DecodeAddress((VCDAddress)here, (unsigned char)mode, &p, buf.p + buf.n);
      if (good) { CHECK(got == want, "DecodeAddress returned " << got << ", RFC semantics give " << want); rc.update(want); int32_t e = 0; enc.EncodeAddress((VCDAddress)want, (VCDAddress)here, &e); }
      else CHECK(got == RESULT_ERROR || got == RESULT_END_OF_DATA, "DecodeAddress accepted an invalid address " << got << " (here " << here << ")");
      CHECK(p - buf.p == used, "DecodeAddress moved the position by " << (p - buf.p) << ", expected " << used);
    } else {
      int32_t e = -1; unsigned char mode = enc.EncodeAddress((VCDAddress)a, (VCDAddress)here, &e);
      x.input("address", (long)a); x.input("here", (long)here); x.input("mode", mode); x.input("encoded", (long)e);
      CHECK(mode <= 1 + nn + ns, "mode " << (int)mode << " out of range");
      int64_t sem = mode == 0 ? e : mode == 1 ? here - e : mode < 2 + nn ? rc.near_[mode - 2] + e : (e >= 0 && e < 256) ? rc.same_[(mode - 2 - nn) * 256 + e] : -9;
      CHECK(e >= 0 && sem == a, "encoder chose mode " << (int)mode << " value " << e << " which denotes " << sem << ", not " << a);
      str b; bool asvar = enc.WriteAddressAsVarintForMode(mode); CHECK(asvar == (mode < 2 + nn), "WriteAddressAsVarintForMode(" << (int)mode << ")");
      if (asvar) ref::put_varint(&b, e); else b.push_back((char)e);
      str b2 = b + gen::some_bytes(r, r.below(3), 0); Buf buf(b2); const char* p = buf.p;
      VCDAddress got = dec.DecodeAddress((VCDAddress)here, mode, &p, buf.p + buf.n);
      CHECK(got == a && p == buf.p + b.size(), "decoded " << got << " (used " << (p - buf.p) << " bytes), expected " << a);
      rc.update(a); hist.push_back(a);
    }
    for (int k = 0; k < 3; ++k) {
      if (nn) { int q = r.below(nn); CHECK(enc.NearAddress(q) == rc.near_[q] && dec.NearAddress(q) == rc.near_[q], "near slot " << q << " differs from the RFC cache"); }
      if (ns) { int q = r.chance(1, 2) ? (int)(hist.back() % (ns * 256)) : (int)r.below(ns * 256); CHECK(enc.SameAddress(q) == rc.same_[q] && dec.SameAddress(q) == rc.same_[q], "same slot " << q << " differs from the RFC cache"); }
    }
    here += r.below(here > 0x7ff00000 ? 20 : 3000); if (here > 0x7fffffff) here = 0x7fffffff;
  }
  return true;
}
DRIVER("C09", prop)
