// C12 bounded stand-in / replay: written instruction sequences read back, for random valid tables; opcode lookups are sound
#include "lib.h"
#include "google/encodetable.h"
#include "decodetable.h"
#include "codetable.h"
#include "instruction_map.h"
#include "addrcache.h"
using namespace lib;
static bool prop(Ctx& x) {
  Rng& r = x.r; bool def = r.chance(1, 3); int nn = 4, ns = 3;
  if (!def) switch (r.below(5)) { case 0: nn = r.range(0, 8); ns = 0; break; case 1: nn = 0; ns = r.range(0, 8); break; case 2: nn = r.range(0, 100); ns = r.range(0, 100); break; default: nn = r.range(0, 6); ns = r.range(0, 6); }
  ref::Table t = def ? ref::default_table() : gen::some_table(r, 1 + nn + ns);
  if (!def && r.chance(1, 4)) for (int i = 0; i < 256; ++i) if (r.chance(1, 2) && t.inst2[i] != 0 && !(t.inst1[i] && !t.size1[i] && t.inst2[i] == 0)) { t.inst1[i] = 0; t.size1[i] = t.mode1[i] = 0; }
  CHECK(ref::valid_table(t, 1 + nn + ns), "checker inconsistency: generated table invalid");
  VCDiffCodeTableData k; memcpy(&k, &t, sizeof t); x.input("near", nn); x.input("same", ns); x.input("table", str((char*)&t, sizeof t));
  // lookups
  VCDiffInstructionMap* map = def ? VCDiffInstructionMap::GetDefaultInstructionMap() : new VCDiffInstructionMap(k, (unsigned char)(1 + nn + ns));
  for (int q = 0; q < 60; ++q) {
    int inst = r.range(1, 3), size = r.chance(1, 2) ? r.below(20) : r.below(256), mode = inst == 3 ? r.below(2 + nn + ns) : 0;
    OpcodeOrNone o = map->LookupFirstOpcode(inst, size, mode);
    if (o != kNoOpcode) CHECK(o < 256 && ((t.inst1[o] == inst && t.size1[o] == size && t.mode1[o] == mode && t.inst2[o] == 0) || (t.inst1[o] == 0 && t.inst2[o] == inst && t.size2[o] == size && t.mode2[o] == mode)), "LookupFirstOpcode(" << inst << "," << size << "," << mode << ") = " << o << " is not such an opcode");
    else { bool any = false; for (int i = 0; i < 256; ++i) any |= t.inst1[i] == inst && t.size1[i] == size && t.mode1[i] == mode && t.inst2[i] == 0; CHECK(!any, "LookupFirstOpcode missed an opcode for " << inst << "," << size << "," << mode); }
    if (o != kNoOpcode) {
      int i2 = r.range(1, 3), s2 = r.below(20), m2 = i2 == 3 ? r.below(2 + nn + ns) : 0; OpcodeOrNone c = map->LookupSecondOpcode((unsigned char)o, i2, s2, m2);
      if (c != kNoOpcode) CHECK(c < 256 && t.inst1[c] == inst && t.size1[c] == size && t.mode1[c] == mode && t.inst2[c] == i2 && t.size2[c] == s2 && t.mode2[c] == m2, "LookupSecondOpcode(" << o << "," << i2 << "," << s2 << "," << m2 << ") = " << c << " is not that compound opcode");
    }
  }
  if (!def) delete map;
  // writer
  bool inter = r.chance(1, 2); str dict = gen::some_bytes(r, r.range(1, 3000), 0); str out("\xD6\xC3\xC4S\0", 5), T; std::vector<ref::Inst> want; Sink s; s.s = out; std::vector<size_t> counts;
  VCDiffCodeTableWriter* w = def && r.chance(1, 2) ? new VCDiffCodeTableWriter(inter) : new VCDiffCodeTableWriter(inter, (unsigned char)nn, (unsigned char)ns, k, (unsigned char)(1 + nn + ns));
  CHECK(w->Init(dict.size()), "writer Init failed"); str expect; std::vector<str> targets;
  int wins = r.range(1, 3); std::ostringstream seq;
  for (int wi = 0; wi < wins; ++wi) {
    T.clear(); size_t n0 = want.size(); int n = r.range(1, 40);
    for (int i = 0; i < n; ++i) {
      size_t sz = r.chance(1, 12) ? r.range(0, 1) : r.chance(1, 10) ? r.range(250, 260) : r.chance(1, 12) ? r.range(120, 20000) : r.range(1, 20); ref::Inst q; q.size = sz; q.mode = 0; q.addr = -1;
      switch (r.below(3)) {
        case 0: { str a = gen::some_bytes(r, sz, 0); w->Add(a.data(), sz); T += a; q.type = ref::ADD; break; }
        case 1: { char c = (char)r.below(256); w->Run(sz, (unsigned char)c); T.append(sz, c); q.type = ref::RUN; break; }
        default: { int64_t here = dict.size() + T.size(), a = r.chance(1, 3) && n0 < want.size() && want.back().addr >= 0 ? want.back().addr : (int64_t)r.below(here); w->Copy((int32_t)a, sz); q.type = ref::COPY; q.addr = a;
          for (size_t z = 0; z < sz; ++z) { uint64_t p = a + z; T.push_back(p < dict.size() ? dict[p] : T[p - dict.size()]); } }
      }
      want.push_back(q); seq << "?ARC"[q.type] << sz; if (q.addr >= 0) seq << "@" << q.addr; seq << " ";
    }
    w->Output(&s); expect += T; targets.push_back(T);
    if (T.empty()) { delete w; return true; }
  }
  delete w;
  x.input("instructions", seq.str()); x.input("dictionary", dict); x.input("stream", s.s);
  ref::Opts o; o.table = &t; o.near_n = nn; o.same_n = ns; ref::Result e = ref::decode(dict, s.s, o);
  // a trailing zero-size instruction follows the complete target; only the sequence is then compared, through the reader below
  bool tail0 = false; { size_t z = 0; for (size_t i = 0; i < targets.size(); ++i) (void)z; for (size_t i = 0; i < want.size(); ++i) tail0 |= want[i].size == 0; }
  if (!tail0) {
    CHECK(e.ok && e.out == expect, "written stream does not decode to the written instructions: " << e.why);
    std::vector<ref::Inst> got; for (size_t i = 0; i < e.windows.size(); ++i) got.insert(got.end(), e.windows[i].insts.begin(), e.windows[i].insts.end());
    CHECK(got.size() == want.size(), "wrote " << want.size() << " instructions, read back " << got.size());
    for (size_t i = 0; i < got.size(); ++i) CHECK(got[i].type == want[i].type && got[i].size == want[i].size && got[i].addr == want[i].addr, "instruction " << i << " read back differs");
  }
  if (!inter) {                                              // the library's own reader on the instruction sections
    ref::Rd h(s.s, 5, s.s.size()); size_t idx = 0;
    for (int wi = 0; wi < wins; ++wi) {
      int b; uint64_t v, al, il, cl; h.byte(&b); h.varint(&v, ref::I32); h.varint(&v, ref::I32); h.varint(&v, ref::I32); h.varint(&v, ref::I32); h.byte(&b); h.varint(&al, ref::I32); h.varint(&il, ref::I32); h.varint(&cl, ref::I32);
      CHECK(!h.bad && h.p + al + il + cl <= s.s.size(), "window layout");
      Buf I(s.s.substr(h.p + al, il)); h.p += al + il + cl; const char* p = I.p; VCDiffCodeTableReader rd; CHECK(rd.UseCodeTable(k, (unsigned char)(1 + nn + ns)), "UseCodeTable"); rd.Init(&p, I.p + I.n);
      while (true) {
        int32_t sz; unsigned char m; VCDiffInstructionType ty = rd.GetNextInstruction(&sz, &m); if (ty == VCD_INSTRUCTION_END_OF_DATA) break;
        CHECK(idx < want.size() && (int)ty == want[idx].type && (uint64_t)sz == want[idx].size, "reader returned instruction " << idx << " type " << ty << " size " << sz);
        if (r.chance(1, 5)) { const char* p1 = p; rd.UnGetInstruction(); int32_t s2; unsigned char m2; CHECK(rd.GetNextInstruction(&s2, &m2) == ty && s2 == sz && m2 == m && p == p1, "UnGetInstruction followed by GetNextInstruction differs"); }
        ++idx;
      }
    }
    CHECK(idx == want.size(), "reader returned " << idx << " of " << want.size() << " instructions");
  }
  return true;
}
DRIVER("C12", prop)
