// C11 bounded stand-in / replay: the default table, validation of arbitrary tables, rejection of invalid custom tables
#include "lib.h"
#include "codetable.h"
#include "decodetable.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r;
  if (x.iter < 8) {
    ref::Table d = ref::default_table(); const VCDiffCodeTableData& k = VCDiffCodeTableData::kDefaultCodeTableData;
    for (int i = 0; i < 256; ++i)
      CHECK(k.inst1[i] == d.inst1[i] && k.inst2[i] == d.inst2[i] && k.size1[i] == d.size1[i] && k.size2[i] == d.size2[i] && k.mode1[i] == d.mode1[i] && k.mode2[i] == d.mode2[i], "default table differs from RFC 3284 at opcode " << i);
    CHECK(k.Validate() && k.Validate(8), "default table rejected");
  }
  int mm = r.chance(1, 2) ? 8 : r.chance(1, 4) ? r.range(0, 253) : r.range(0, 20);
  ref::Table t = r.chance(1, 3) ? ref::default_table() : gen::some_table(r, mm); if (r.chance(1, 8)) mm = (mm + 255 + r.below(3)) & 255; if (mm > 253) mm = 253;
  int hits = r.below(4);
  for (int k = 0; k < hits; ++k) {
    int p = r.below(1536); unsigned char* q = (unsigned char*)&t;
    switch (r.below(4)) { case 0: q[p] = r.below(5); break; case 1: q[p] = r.below(256); break; case 2: q[p] ^= 1 << r.below(8); break; default: q[p] = mm + r.below(3); }
  }
  str bytes((const char*)&t, sizeof t); x.input("max mode", mm); x.input("table", bytes);
  VCDiffCodeTableData k; CHECK(sizeof k == sizeof t, "table size"); memcpy(&k, &t, sizeof t);
  bool want = ref::valid_table(t, mm);
  CHECK(k.Validate((unsigned char)mm) == want, "Validate(max mode " << mm << ") = " << !want << ", expected " << want);
  VCDiffCodeTableReader rd; CHECK(rd.UseCodeTable(k, (unsigned char)mm) == want, "UseCodeTable accepted = " << !want);
  if (r.chance(1, 4)) {                                      // through a delta: an invalid table must make the decode fail
    int nn = r.range(0, mm > 1 ? mm - 1 : 0), ns = mm - 1 - nn; if (mm < 1) return true;
    str dict = random_dict(r), d("\xD6\xC3\xC4", 3); d.push_back(r.chance(1, 2) ? 'S' : 0); d.push_back(2);
    gen::DeltaOpts o; o.max_windows = 1; o.max_target = 60; gen::DeltaGen g(r, o, dict);
    ref::put_varint(&d, nn); ref::put_varint(&d, ns); d += g.table_delta(t); str out; o.ext = g.o.ext = d[3] == 'S';
    ref::Table safe = t; if (!want) { safe = ref::default_table(); for (int i = 0; i < 256; ++i) if (safe.mode1[i] > mm || safe.mode2[i] > mm) safe.inst1[i] = safe.inst2[i] = safe.mode1[i] = safe.mode2[i] = 0; }
    g.window(&d, &out, safe, nn, ns, r.range(1, 40));
    x.input("dictionary", dict); x.input("delta", d);
    std::vector<size_t> c = gen::cuts(r, d.size()); Out a = decode_stream(dict, d, c); ref::Result e = ref::decode(dict, d);
    CHECK(a.ok == e.ok && (!e.ok || a.s == e.out), "delta with a " << (want ? "valid" : "invalid") << " custom table: verdict " << a.ok << ", expected " << e.ok << " " << e.why);
  }
  return true;
}
DRIVER("C11", prop)
