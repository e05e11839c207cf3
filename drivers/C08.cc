// C08 bounded stand-in / replay: varints against independent base-128 arithmetic
#include "lib.h"
#include "varint_bigendian.h"
using namespace lib;
template <class T> static bool one(Ctx& x, uint64_t maxv, int bits) {
  Rng& r = x.r;
  uint64_t v = r.next() >> (64 - bits + (int)r.below(bits)); if (r.chance(1, 4)) { int k = r.range(0, bits - 1); v = (1ull << k) + r.below(3) - 1; } if (r.chance(1, 30)) v = maxv; v &= maxv;
  str want; ref::put_varint(&want, v); x.input("bits", bits); x.input("value", std::to_string(v));
  CHECK(VarintBE<T>::Length((T)v) == (int)want.size(), "Length(" << v << ") = " << VarintBE<T>::Length((T)v) << ", expected " << want.size());
  char* b = (char*)malloc(want.size()); int n = VarintBE<T>::Encode((T)v, b); str got(b, n); free(b);
  CHECK(got == want, "Encode(" << v << ") wrote " << gen::hex(got) << ", expected " << gen::hex(want));
  str a = "pre"; VarintBE<T>::AppendToString((T)v, &a); CHECK(a == "pre" + want, "AppendToString wrote " << gen::hex(a));
  Sink s; s.s = "p"; VarintBE<T>::AppendToOutputString((T)v, &s); CHECK(s.s == "p" + want, "AppendToOutputString wrote " << gen::hex(s.s));
  // arbitrary bytes
  str in = r.chance(1, 2) ? want : gen::some_bytes(r, r.range(0, 14), 0);
  if (r.chance(1, 4)) in.insert(0, str(r.range(1, 5), (char)0x80));
  if (r.chance(1, 3) && !in.empty()) in[r.below(in.size())] ^= (char)(1 << r.below(8));
  if (r.chance(1, 4)) for (size_t i = 0; i + 1 < in.size(); ++i) in[i] |= 0x80;
  if (r.chance(1, 3)) in.resize(r.below(in.size() + 1)); if (r.chance(1, 3)) in += gen::some_bytes(r, r.range(1, 3), 0);
  x.input("parsed bytes", in);
  // oracle: fold until terminator; error as soon as the prefix cannot fit
  int64_t expect = RESULT_END_OF_DATA; size_t used = 0; uint64_t acc = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    uint64_t d = (unsigned char)in[i] & 127;
    if (acc > (maxv - d) / 128) { expect = RESULT_ERROR; break; }
    acc = acc * 128 + d;
    if (!((unsigned char)in[i] & 128)) { expect = (int64_t)acc; used = i + 1; break; }
    if (acc > maxv / 128) { expect = -100; }                    // any continuation overflows: error or end of data both describe it
  }
  Buf buf(in); const char* p = buf.p; T res = VarintBE<T>::Parse(buf.p + buf.n, &p);
  if (expect == -100) CHECK(res == RESULT_ERROR || res == RESULT_END_OF_DATA, "Parse accepted a value that does not fit");
  else CHECK((int64_t)res == expect, "Parse returned " << (int64_t)res << ", expected " << expect);
  CHECK(p == buf.p + (res >= 0 ? used : 0), "Parse moved the position by " << (p - buf.p) << ", expected " << (res >= 0 ? used : 0));
  return true;
}
static bool prop(Ctx& x) { return one<int32_t>(x, 0x7fffffffull, 31) && one<int64_t>(x, 0x7fffffffffffffffull, 63); }
DRIVER("C08", prop)
