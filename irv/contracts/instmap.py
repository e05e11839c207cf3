"""VCDiffInstructionMap (property C12; used by C14, C01).

Abstractly a map belongs to a code table and a highest COPY mode.  What the encoder relies on is stated on the table: a
lookup returns an opcode only if the table defines it for exactly that instruction, and every instruction has an opcode
whose size is carried separately."""
from .common import *
from .codetable import Tab, mk_table, NOOP, ADD, RUN, COPY, DEFAULT
MAP = "VCDiffInstructionMap"
NONE = 256

def modeof(inst, mode): return z3.If(inst == COPY, mode, 0)
def half1(t, r, inst, size, mode): return z3.And(t.inst1[r] == inst, t.size1[r] == size, t.mode1[r] == mode)
def half2(t, r, inst, size, mode): return z3.And(t.inst2[r] == inst, t.size2[r] == size, t.mode2[r] == mode)
def single(t, r, inst, size, mode):
    """opcode r stands for exactly this one instruction"""
    return z3.Or(z3.And(half1(t, r, inst, size, mode), t.inst2[r] == NOOP), z3.And(half2(t, r, inst, size, mode), t.inst1[r] == NOOP))
def the_single(t, r):
    """(type, size, mode) of a single-instruction opcode"""
    f = t.inst2[r] == NOOP
    return z3.If(f, t.inst1[r], t.inst2[r]), z3.If(f, t.size1[r], t.size2[r]), z3.If(f, t.mode1[r], t.mode2[r])
def is_single(t, r): return z3.Or(z3.And(t.inst1[r] != NOOP, t.inst2[r] == NOOP), z3.And(t.inst1[r] == NOOP, t.inst2[r] != NOOP))

_WIT = {}
def witness(t):
    """for a valid table: an opcode that carries the single instruction 'type + mode == ty' with a separate size"""
    k = t.key()
    if k not in _WIT: _WIT[k] = (z3.Function("opcode_for!%d" % len(_WIT), z3.IntSort(), z3.IntSort()), t)
    return _WIT[k][0]
def valid_table(t, mm):
    """what VCDiffCodeTableData::Validate accepts: every opcode well formed, every single instruction expressible"""
    i = z3.Int("i!q"); ty = z3.Int("ty!q"); wt = witness(t)
    w = lambda x, y, z: z3.And(x >= 0, x <= COPY, y >= 0, y <= 255, z >= 0, z <= mm, z3.Implies(x == NOOP, y == 0), z3.Implies(x != COPY, z == 0))
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), z3.And(w(t.inst1[i], t.size1[i], t.mode1[i]), w(t.inst2[i], t.size2[i], t.mode2[i]))), patterns=[t.inst1[i]]),
                  z3.ForAll([ty], z3.Implies(z3.And(ty >= 1, ty <= mm + 3), z3.And(wt(ty) >= 0, wt(ty) < 256, t.single(wt(ty), ty))), patterns=[wt(ty)]))
class AMap:
    """what a map object belongs to"""
    def __init__(self, t, mm): self.t, self.mm = t, mm
def amap(e, p):
    m = getattr(p.reg, "amap", None)
    if m is None: raise Unsupported("instruction map of unknown table")
    return m
def mk_amap(e, st, t, mm, name="instruction_map"):
    r = Region(name, 2072, "heap"); r.amap = AMap(t, mm); r.opaque = True; return PtrV(r, 0)

# ------------------------------------------------------------------ representation
FIRST, SECOND = MAP + "::FirstInstructionMap", MAP + "::SecondInstructionMap"
def pat(*p): return [z3.MultiPattern(*p)] if len(p) > 1 else list(p)
class M1:
    """a first-instruction map: row of inst+mode, then size"""
    def __init__(self, e, st, p):
        self.num, self.max = geti(e, st, p, FIRST, "num_instruction_type_modes_"), geti(e, st, p, FIRST, "max_size_1_")
        q = getv(e, st, p, FIRST, "first_opcodes_")
        if not isinstance(q, PtrV) or q.reg is None or len(q.reg.segs) != 1 or q.reg.segs[0].fam is None or not (q.off.const() and q.off.c == 0): raise Unsupported("first-instruction map has another shape")
        self.q = q; s = q.reg.segs[0]; self.fam = s.fam; self.hs = e.seg_arr(st, q.reg, s); self.F = self.fam.mem(st); self.count = Z(s.count); self.rowlen = Z(self.fam.count)
    def at(self, j, k): return self.F[self.hs[j]][k]
    def dom(self, j, k=None): return z3.And(j >= 0, j < self.num, *([k >= 0, k <= self.max] if k is not None else []))
    def inv(self):
        j, k, l = z3.Ints("j!q k!q l!q")
        return [("rows for every instruction and mode", z3.And(self.num >= 1, self.count == self.num)), ("entries for every size", z3.And(self.max >= 0, self.max <= 255, self.rowlen == self.max + 1)),
                ("no row is missing", z3.ForAll([j], z3.Implies(self.dom(j), self.hs[j] != 0), patterns=[self.hs[j]])),
                ("rows are distinct", z3.ForAll([j, l], z3.Implies(z3.And(self.dom(j), self.dom(l), j != l), self.hs[j] != self.hs[l]), patterns=pat(self.hs[j], self.hs[l]))),
                ("entries are opcodes or none", z3.ForAll([j, k], z3.Implies(self.dom(j, k), z3.And(self.at(j, k) >= 0, self.at(j, k) <= NONE)), patterns=[self.at(j, k)]))]
class M2:
    """a second-instruction map: by first opcode, then inst+mode, then size; both outer levels may be absent"""
    def __init__(self, e, st, p):
        self.num, self.max = geti(e, st, p, SECOND, "num_instruction_type_modes_"), geti(e, st, p, SECOND, "max_size_2_")
        q = fld(e, p, SECOND, "second_opcodes_")[0]; s = seg_of(e, q)
        if s.fam is None: raise Unsupported("second-instruction map has another shape")
        self.q, self.s = q, s; self.G, self.Fam = s.fam, s.fam.child; self.g = e.seg_arr(st, q.reg, s); self.GM = self.G.mem(st); self.FM = self.Fam.mem(st); self.gc, self.fc = self.G.count_of(st), self.Fam.count_of(st)
        self.n1, self.n2 = Z(self.G.count), Z(self.Fam.count)
    def h(self, f, j): return self.GM[self.g[f]][j]
    def cellv(self, f, j, k): return self.FM[self.h(f, j)][k]
    def at(self, f, j, k): return z3.If(z3.Or(self.g[f] == 0, self.h(f, j) == 0), NONE, self.cellv(f, j, k))
    def df(self, f): return z3.And(f >= 0, f < 256)
    def dj(self, j): return z3.And(j >= 0, j < self.num)
    def dk(self, k): return z3.And(k >= 0, k <= self.max)
    def inv(self):
        f, j, k, f2, j2 = z3.Ints("f!q j!q k!q f2!q j2!q"); live = lambda f, j: z3.And(self.df(f), self.dj(j), self.g[f] != 0, self.h(f, j) != 0)
        return [("rows for every instruction and mode", z3.And(self.num >= 1, self.n1 == self.num)), ("entries for every size", z3.And(self.max >= 0, self.max <= 255, self.n2 == self.max + 1)), ("counts", z3.And(self.gc >= 0, self.fc >= 0)),
                ("first-opcode rows exist", z3.ForAll([f], z3.Implies(self.df(f), z3.And(self.g[f] >= 0, self.g[f] <= self.gc)), patterns=[self.g[f]])),
                ("first-opcode rows are distinct", z3.ForAll([f, f2], z3.Implies(z3.And(self.df(f), self.df(f2), f != f2, self.g[f] != 0), self.g[f] != self.g[f2]), patterns=pat(self.g[f], self.g[f2]))),
                ("size rows exist", z3.ForAll([f, j], z3.Implies(z3.And(self.df(f), self.dj(j), self.g[f] != 0), z3.And(self.h(f, j) >= 0, self.h(f, j) <= self.fc)), patterns=[self.h(f, j)])),
                ("size rows are distinct", z3.ForAll([f, j, f2, j2], z3.Implies(z3.And(live(f, j), live(f2, j2), z3.Or(f != f2, j != j2)), self.h(f, j) != self.h(f2, j2)), patterns=pat(self.h(f, j), self.h(f2, j2)))),
                ("entries are opcodes or none", z3.ForAll([f, j, k], z3.Implies(z3.And(live(f, j), self.dk(k)), z3.And(self.cellv(f, j, k) >= 0, self.cellv(f, j, k) <= NONE)), patterns=[self.cellv(f, j, k)]))]
def im(inst, mode): return inst + mode
def rep1(m, t, n):
    """entries come from opcodes below n; each is an opcode for exactly that single instruction"""
    j, k = z3.Ints("j!q k!q"); v = m.at(j, k); ti, ts, tm = the_single(t, v)
    return z3.ForAll([j, k], z3.Implies(m.dom(j, k), z3.Or(v == NONE, z3.And(v >= 0, v < n, z3.Or(t.inst1[v] == NOOP, t.inst2[v] == NOOP), ti + tm == j, ts == k))), patterns=[m.at(j, k)])
def has0(m, t, mm, n, wit):
    ty = z3.Int("ty!q"); return z3.ForAll([ty], z3.Implies(z3.And(ty >= 1, ty <= mm + 3, wit(ty) < n), m.at(ty, 0) != NONE), patterns=[m.hs[ty]])
def rep2(m, t, n):
    f, j, k = z3.Ints("f!q j!q k!q"); v = m.cellv(f, j, k); ft, fs, fm = the_single(t, f)
    return z3.ForAll([f, j, k], z3.Implies(z3.And(m.df(f), m.dj(j), m.dk(k), m.g[f] != 0, m.h(f, j) != 0), z3.Or(v == NONE, z3.And(v >= 0, v < n, is_single(t, f), half1(t, v, ft, fs, fm), t.inst2[v] != NOOP, t.inst2[v] + t.mode2[v] == j, t.size2[v] == k))), patterns=[m.cellv(f, j, k)])
def p1(e, p): return fld(e, p, MAP, "first_instruction_map_")[0]
def p2(e, p): return fld(e, p, MAP, "second_instruction_map_")[0]
def lay_first(e, st, o, off0, num, mx):
    c = lambda f, v: setinit(e, o, off0, FIRST, f, v)
    c("num_instruction_type_modes_", IntV(num, 32, 1, 300)); c("max_size_1_", IntV(mx, 32, 0, 255)); st.assume(num >= 1, num <= 300, mx >= 0, mx <= 255)
    F = Family("first rows", 2, mx + 1); hsr = Region("first_opcodes", num * 8, "heap"); hsr.segs.append(Seg(0, 8, num, False, True, F)); hsr.isegs[0] = e.fresh_arr("first_opcodes"); c("first_opcodes_", PtrV(hsr, 0))
def lay_second(e, st, o, off0, num, mx):
    c = lambda f, v: setinit(e, o, off0, SECOND, f, v)
    c("num_instruction_type_modes_", IntV(num, 32, 1, 300)); c("max_size_2_", IntV(mx, 32, 0, 255)); st.assume(num >= 1, num <= 300, mx >= 0, mx <= 255)
    q = seg_of(e, PtrV(o, off0 + e.di.field(NS + SECOND, "second_opcodes_")[0])); q.ptr = True; q.fam = Family("second", 8, num, False, Family("second rows", 2, mx + 1))
    for f in (q.fam, q.fam.child): st.assume(f.count_of(st) >= 0)
    o.isegs[q.start] = e.fresh_arr("second_opcodes")
def mk_concrete(e, st):
    """an arbitrary map built from an arbitrary valid table"""
    o = e.object(st, "instruction_map", NS + MAP); t = mk_table(e, st, "code_table"); tab = Tab(e, st, PtrV(t, 0)); mm = e.fresh_int(st, 8, False, "max_mode").t
    lay_first(e, st, o, e.di.field(NS + MAP, "first_instruction_map_")[0], mm + 4, e.fresh("max1")); lay_second(e, st, o, e.di.field(NS + MAP, "second_instruction_map_")[0], mm + 4, e.fresh("max2"))
    o.amap = AMap(tab, mm); p = PtrV(o, 0); st.assume(B(valid_table(tab, mm)))
    for n, g in REP(e, st, p, tab, mm): st.assume(B(g))
    return p
def REP(e, st, p, t, mm):
    a, b = M1(e, st, p1(e, p)), M2(e, st, p2(e, p)); ty = z3.Int("ty!q")
    return a.inv() + b.inv() + [("sizes fit the modes", z3.And(a.num == mm + 4, b.num == mm + 4)), ("single-instruction entries are right", rep1(a, t, 256)), ("two-instruction entries are right", rep2(b, t, 256)),
            ("every instruction has an entry with its size carried separately", z3.ForAll([ty], z3.Implies(z3.And(ty >= 1, ty <= mm + 3), a.at(ty, 0) != NONE), patterns=[a.hs[ty]]))]
class FirstCtor(Contract):
    match = NS + FIRST + "::FirstInstructionMap(int, int)"; props = ("C12", "C19"); label = "FirstInstructionMap"
    def setup(self, e, st, case): return [PtrV(e.object(st, "first_map", NS + FIRST, kind="heap"), 0), e.fresh_int(st, 32, True, "num"), e.fresh_int(st, 32, True, "max")]
    def pre(self, e, st, a): return [("sizes in range", z3.And(Z(e.s(st, a[1])) >= 1, Z(e.s(st, a[1])) <= 300, Z(e.s(st, a[2])) >= 0, Z(e.s(st, a[2])) <= 255))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        m = M1(e, s1, a[0]); j, k = z3.Ints("j!q k!q")
        return [("sizes recorded", z3.And(m.num == Z(e.s(s0, a[1])), m.max == Z(e.s(s0, a[2]))))] + m.inv() + [("no instruction has an opcode yet", z3.ForAll([j, k], z3.Implies(m.dom(j, k), m.at(j, k) == NONE), patterns=[m.at(j, k)]))]
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            num, mx = Z(e.s(st, a[1])), Z(e.s(st, a[2])); F = Family("first rows", 2, mx + 1); hsr = Region("first_opcodes", num * 8, "heap"); hsr.segs.append(Seg(0, 8, num, False, True, F)); hsr.isegs[0] = e.fresh_arr("first_opcodes")
            for f, w, v in (("num_instruction_type_modes_", ir.IntTy(32), a[1]), ("max_size_1_", ir.IntTy(32), a[2]), ("first_opcodes_", ir.PTR, PtrV(hsr, 0))): e.store(st, fld(e, a[0], FIRST, f)[0], w, v)
            for n, g in self.post(e, s0, st, a, None): st.assume(B(g))
        return None
    def loop_candidates(self, e, L): return row_candidates(e, L)
def row_candidates(e, L):
    """loops that clear a row or allocate rows, by any counter"""
    out = []; j, k = z3.Ints("j!q k!q")
    for r, w in L.M:
        if w[0] != "seg": continue
        s = [x for x in r.segs if x.start == w[1]]
        if not s: continue
        s = s[0]
        for (rc, o, v) in L.ptrs:
            def xp(st, rc=rc, o=o, r=r, s=s):
                y = e.cellval(st, rc, o)
                if not isinstance(y, PtrV) or y.reg is not r: raise Unsupported("ptr")
                return Z(idx_of(y, s))
            if s.es == 2: out.append(("!cleared", lambda st, r=r, s=s, x=xp: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x(st)), e.seg_arr(st, r, s)[j] == NONE), patterns=[e.seg_arr(st, r, s)[j]])))
        for (rc, o, v) in L.ints:
            if rc.kind != "stack": continue
            def x(st, rc=rc, o=o):
                y = e.cellval(st, rc, o)
                if not isinstance(y, IntV): raise Unsupported("int")
                return Z(e.s(st, y))
            if s.es == 2:
                out.append(("!cleared", lambda st, r=r, s=s, x=x: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x(st)), e.seg_arr(st, r, s)[j] == NONE), patterns=[e.seg_arr(st, r, s)[j]])))
            if s.es == 8 and s.fam is not None:
                hs = lambda st, r=r, s=s: e.seg_arr(st, r, s); c0 = s.fam.count_of(L.entry); F = lambda st, s=s: s.fam.mem(st); fam = s.fam
                out.append(("!handles", lambda st, x=x, hs=hs, c0=c0: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x(st)), hs(st)[j] == c0 + 1 + j), patterns=[hs(st)[j]])))
                out.append(("!count", lambda st, x=x, fam=fam, c0=c0: fam.count_of(st) == c0 + x(st)))
                if fam.count is not None: out.append(("!rows cleared", lambda st, x=x, hs=hs, F=F, fam=fam: z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < x(st), k >= 0, k < Z(fam.count)), F(st)[hs(st)[j]][k] == NONE), patterns=[F(st)[hs(st)[j]][k]])))
    return out
class FirstAdd(Contract):
    match = NS + FIRST + "::Add"; props = ("C12", "C19"); label = "FirstInstructionMap::Add"
    def setup(self, e, st, case):
        o = e.object(st, "first_map", NS + FIRST); lay_first(e, st, o, 0, e.fresh("num"), e.fresh("max")); return [PtrV(o, 0)] + [e.fresh_int(st, 8, False, n) for n in ("inst", "size", "mode", "opcode")]
    def pre(self, e, st, a):
        m = M1(e, st, a[0]); i, s, mo = [Z(e.u(st, x)) for x in a[1:4]]; return m.inv() + [("instruction and mode in range", i + mo < m.num), ("size in range", s <= m.max)]
    def modifies(self, e, st, a): return [(M1(e, st, a[0]).fam.reg, ("seg", 0))]
    def post(self, e, s0, s1, a, ret):
        m0, m1 = M1(e, s0, a[0]), M1(e, s1, a[0]); i, s, mo, op = [Z(e.u(s0, x)) for x in a[1:5]]; j, k = z3.Ints("j!q k!q")
        return [("the entry is set if it was free, and nothing else changes", z3.ForAll([j, k], z3.Implies(m0.dom(j, k), m1.at(j, k) == z3.If(z3.And(j == i + mo, k == s, m0.at(j, k) == NONE), op, m0.at(j, k))), patterns=[m1.at(j, k)]))] + m1.inv()
class SecondCtor(Contract):
    match = NS + SECOND + "::SecondInstructionMap(int, int)"; props = ("C12", "C19"); label = "SecondInstructionMap"
    def setup(self, e, st, case):
        o = e.object(st, "second_map", NS + SECOND); self.lay(e, st, PtrV(o, 0)); return [PtrV(o, 0), e.fresh_int(st, 32, True, "num"), e.fresh_int(st, 32, True, "max")]
    def lay(self, e, st, p, num=None, mx=None):
        q = seg_of(e, fld(e, p, SECOND, "second_opcodes_")[0]); q.ptr = True
        if q.fam is None:
            q.fam = Family("second", 8, num, False, Family("second rows", 2, None if mx is None else mx + 1))
            for f in (q.fam, q.fam.child): st.assume(f.count_of(st) >= 0)
        return q
    def pre(self, e, st, a): return [("sizes in range", z3.And(Z(e.s(st, a[1])) >= 1, Z(e.s(st, a[1])) <= 300, Z(e.s(st, a[2])) >= 0, Z(e.s(st, a[2])) <= 255))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        q = seg_of(e, fld(e, a[0], SECOND, "second_opcodes_")[0])
        if q.fam.count is None: q.fam.count = Z(e.s(s0, a[1])); q.fam.child.count = Z(e.s(s0, a[2])) + 1
        m = M2(e, s1, a[0]); f = z3.Int("f!q")
        return [("sizes recorded", z3.And(m.num == Z(e.s(s0, a[1])), m.max == Z(e.s(s0, a[2])))), ("no first opcode has entries yet", z3.ForAll([f], z3.Implies(m.df(f), m.g[f] == 0), patterns=[m.g[f]]))] + m.inv()
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            num, mx = Z(e.s(st, a[1])), Z(e.s(st, a[2])); q = self.lay(e, st, a[0], num, mx)
            for f, v in (("num_instruction_type_modes_", a[1]), ("max_size_2_", a[2])): e.store(st, fld(e, a[0], SECOND, f)[0], ir.IntTy(32), v)
            st.wrc(a[0].reg).segs[q.start] = e.fresh_arr("second_opcodes"); e.note_write(st, a[0].reg, ("seg", q.start))
            for n, g in self.post(e, s0, st, a, None): st.assume(B(g))
        return None
class SecondAdd(Contract):
    match = NS + SECOND + "::Add"; props = ("C12", "C19"); label = "SecondInstructionMap::Add"
    def setup(self, e, st, case):
        o = e.object(st, "second_map", NS + SECOND); lay_second(e, st, o, 0, e.fresh("num"), e.fresh("max")); return [PtrV(o, 0)] + [e.fresh_int(st, 8, False, n) for n in ("first_opcode", "inst", "size", "mode", "second_opcode")]
    def pre(self, e, st, a):
        m = M2(e, st, a[0]); i, s, mo = [Z(e.u(st, x)) for x in a[2:5]]; return m.inv() + [("instruction and mode in range", i + mo < m.num), ("size in range", s <= m.max)]
    def modifies(self, e, st, a):
        m = M2(e, st, a[0]); return [(m.q.reg, ("seg", m.s.start))] + [(f.reg, ("seg", 0)) for f in (m.G, m.Fam)] + [(f.cnt, ("cell", 0, 8)) for f in (m.G, m.Fam)]
    def post(self, e, s0, s1, a, ret):
        m0, m1 = M2(e, s0, a[0]), M2(e, s1, a[0]); f, i, s, mo, op = [Z(e.u(s0, x)) for x in a[1:6]]; F, j, k = z3.Ints("f!q j!q k!q")
        return [("the entry is set if it was free, and nothing else changes", z3.ForAll([F, j, k], z3.Implies(z3.And(m0.df(F), m0.dj(j), m0.dk(k)), m1.at(F, j, k) == z3.If(z3.And(F == f, j == i + mo, k == s, m0.at(F, j, k) == NONE), op, m0.at(F, j, k))), patterns=[m1.cellv(F, j, k)]))] + m1.inv()
    def loop_candidates(self, e, L): return row_candidates(e, L)
class MapCtor(Contract):
    match = NS + MAP + "::VCDiffInstructionMap(open_vcdiff::VCDiffCodeTableData const&, unsigned char)"; props = ("C12", "C19"); label = "VCDiffInstructionMap"
    inline_contracts = (NS + MAP + "::LookupFirstOpcode",)
    cost = 5
    def setup(self, e, st, case):
        o = e.object(st, "instruction_map", NS + MAP); t = mk_table(e, st, "code_table"); SecondCtor().lay(e, st, p2(e, PtrV(o, 0)))
        mm = e.fresh_int(st, 8, False, "max_mode"); tab = Tab(e, st, PtrV(t, 0)); self.t, self.mm = tab, mm.t; self.wit = witness(tab); return [PtrV(o, 0), PtrV(t, 0), mm]
    def pre(self, e, st, a): return [("the table is valid", valid_table(Tab(e, st, a[1]), Z(e.u(st, a[2]))))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret): return REP(e, s1, a[0], Tab(e, s0, a[1]), Z(e.u(s0, a[2])))
    def apply(self, e, st, a):
        t = Tab(e, st, a[1]); mm = Z(e.u(st, a[2])); e.oblige(st, valid_table(t, mm), "pre", "the map is built from a valid table"); a[0].reg.amap = AMap(t, mm); return None
    def loop_candidates(self, e, L):
        out = []; t, mm, wit = self.t, self.mm, self.wit; p = e.entry_args[0]; j = z3.Int("j!q")
        nested = [r for r, w in L.M if getattr(r, "nested", False)]; first = second = False
        if nested:
            with Spec(e): first = M1(e, L.entry, p1(e, p)).fam.reg in nested; second = M2(e, L.entry, p2(e, p)).Fam.reg in nested
        for (rc, o, v) in L.ints:
            if rc.kind != "stack": continue
            def x(st, rc=rc, o=o):
                y = e.cellval(st, rc, o)
                if not isinstance(y, IntV): raise Unsupported("int")
                return Z(e.s(st, y)) if y.w > 8 else Z(e.u(st, y))
            def spec(fn):
                def g(st):
                    with Spec(e): return fn(st)
                return g
            out.append(("!index in range", lambda st, x=x: z3.And(x(st) >= 0, x(st) <= 256)))
            if first: out.append(("!single entries", spec(lambda st, x=x: rep1(M1(e, st, p1(e, p)), t, x(st)))))
            if first: out.append(("!size-0 entries", spec(lambda st, x=x: has0(M1(e, st, p1(e, p)), t, mm, x(st), wit))))
            if second: out.append(("!two-instruction entries", spec(lambda st, x=x: rep2(M2(e, st, p2(e, p)), t, x(st)))))
            # running maximum of a size array
            for arr in (t.size1, t.size2) if not nested else ():
                for (rc2, o2, v2) in L.ints:
                    if rc2 is rc: continue
                    def y(st, rc2=rc2, o2=o2):
                        z = e.cellval(st, rc2, o2)
                        if not isinstance(z, IntV): raise Unsupported("int")
                        return Z(e.u(st, z)) if z.w == 8 else Z(e.s(st, z))
                    out.append(("!maximum", lambda st, x=x, y=y, arr=arr: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x(st)), arr[j] <= y(st)), patterns=[arr[j]])))
        for k in range(len(M1x) if first else 0): out.append(("!first map %d" % k, (lambda st, k=k: M1x[k](e, st, p))))
        for k in range(len(M2x) if second else 0): out.append(("!second map %d" % k, (lambda st, k=k: M2x[k](e, st, p))))
        return out
def _ix(cls, sel, k):
    def g(e, st, p):
        with Spec(e): return cls(e, st, sel(e, p)).inv()[k][1]
    return g
M1x = [_ix(M1, p1, k) for k in range(5)]; M2x = [_ix(M2, p2, k) for k in range(8)]

class LookupFirst(Contract):
    match = NS + MAP + "::LookupFirstOpcode"
    props = ("C12", "C14", "C19")
    ret_signed = False
    def pre(self, e, st, a):
        m = amap(e, a[0]); inst, mode = Z(e.u(st, a[1])), Z(e.u(st, a[3]))
        return [("an ADD, RUN or COPY", z3.And(inst >= ADD, inst <= COPY)), ("a mode of the table", z3.Implies(inst == COPY, mode <= m.mm))]
    def post(self, e, s0, s1, a, ret):
        m = amap(e, a[0]); t = m.t; inst, size, mode = [Z(e.u(s0, x)) for x in a[1:4]]; r = Z(e.u(s1, ret))
        return [("an opcode or none", z3.And(r >= 0, r <= NONE)),
                ("an opcode that the table defines for exactly this instruction", z3.Implies(r != NONE, single(t, r, inst, size, modeof(inst, mode)))),
                ("every instruction has an opcode with its size carried separately", z3.Implies(size == 0, r != NONE))]
    def setup(self, e, st, case): return [mk_concrete(e, st)] + [e.fresh_int(st, 8, False, n) for n in ("inst", "size", "mode")]
class LookupSecond(Contract):
    match = NS + MAP + "::LookupSecondOpcode"
    props = ("C12", "C14", "C19")
    ret_signed = False
    def pre(self, e, st, a):
        m = amap(e, a[0]); inst, mode = Z(e.u(st, a[2])), Z(e.u(st, a[4]))
        return [("an ADD, RUN or COPY", z3.And(inst >= ADD, inst <= COPY)), ("a mode of the table", z3.Implies(inst == COPY, mode <= m.mm))]
    def post(self, e, s0, s1, a, ret):
        m = amap(e, a[0]); t = m.t; f, inst, size, mode = [Z(e.u(s0, x)) for x in a[1:5]]; r = Z(e.u(s1, ret))
        ft, fs, fm = the_single(t, f)
        return [("an opcode or none", z3.And(r >= 0, r <= NONE)),
                ("an opcode that the table defines for the first opcode's instruction followed by exactly this one",
                 z3.Implies(r != NONE, z3.And(is_single(t, f), ft != NOOP, half1(t, r, ft, fs, fm), inst != NOOP, half2(t, r, inst, size, modeof(inst, mode)))))]
    def setup(self, e, st, case): return [mk_concrete(e, st)] + [e.fresh_int(st, 8, False, n) for n in ("first_opcode", "inst", "size", "mode")]
class DefaultMap(Contract):
    """the shared map of the default code table, built on first use"""
    match = NS + MAP + "::GetDefaultInstructionMap"; props = ("C12", "C14", "C19"); label = "GetDefaultInstructionMap"
    cases = ("first use", "later")
    def statics(self, e):
        """the static variables that can hold the map: pointers, and guard variables of local statics"""
        ptrs, guards = [], []
        for n in sorted(e.mod.globals):
            if MAP not in n or n.startswith(("_ZTV", "_ZTI", "_ZTS")): continue
            g = e.mod.glob(n)
            if g is None or g.const: continue
            if n.startswith("_ZGV"): guards.append(n)
            elif e.mod.resolve(g.ty).k == "ptr": ptrs.append(n)
            else: raise Unsupported("static variable " + n)
        return ptrs, guards
    def setup(self, e, st, case):
        t = Tab(e, st, PtrV(e.global_region(st, DEFAULT), 0)); ptrs, guards = self.statics(e)
        if len(ptrs) != 1: raise Unsupported("how the default map is kept")
        for n in ptrs: g = e.global_region(st, n); g.icells[0] = (8, NULLP if case == "first use" else mk_amap(e, st, t, z3.IntVal(8))); g.opaque = False
        for n in guards: g = e.global_region(st, n); g.icells[0] = (1, IntV(0 if case == "first use" else 1, 8)); g.opaque = False
        st.assume(B(valid_table(t, z3.IntVal(8)))); return []
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        if not isinstance(ret, PtrV) or ret.reg is None: return [("returns a map", False)]
        m = amap(e, ret); t = Tab(e, s0, PtrV(e.globals_r[DEFAULT], 0)); ptrs, guards = self.statics(e)
        kept = all(isinstance(v, PtrV) and v.reg is ret.reg for v in (e.load(s1, PtrV(e.globals_r[n], 0), ir.PTR) for n in ptrs)) and all(e.load(s1, PtrV(e.globals_r[n], 0), ir.IntTy(8)).t == 1 for n in guards)
        return [("the map of the default table and its eight modes", z3.And(m.t.key() == t.key(), m.mm == 8)), ("the same map is kept for later calls", kept)]
    def apply(self, e, st, a):
        t = e.global_region(st, DEFAULT); return mk_amap(e, st, Tab(e, st, PtrV(t, 0)), z3.IntVal(8))
class DefaultValid(Contract):
    """obligation on static data: the default table satisfies what a map is built from"""
    match = NS + "VCDiffCodeTableData::kDefaultCodeTableData "; props = ("C12", "C14", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11"); data = True; trusted = False; cost = 1; label = "kDefaultCodeTableData is valid"
    def check(self, mod, di):
        from ..engine import Engine, State, Oblig
        e = Engine(mod, di); st = State(e); e.global_region(st, DEFAULT); p = PtrV(e.globals_r[DEFAULT], 0); e.spec = True; T = {}; out = []
        for n in ("inst1", "size1", "mode1", "inst2", "size2", "mode2"):
            q = fld(e, p, "VCDiffCodeTableData", n)[0]; T[n] = [e.load(st, PtrV(q.reg, q.off.add(i), None), ir.IntTy(8)).t for i in range(256)]
        def ob(name, ok):
            o = Oblig(name, "data", self.label, None); o.status = "proved" if ok else "failed"; o.backend = "evaluation"; out.append(o)
        w = lambda x, y, z: x <= COPY and z <= 8 and (x != NOOP or y == 0) and (x == COPY or z == 0)
        for i in range(256): ob("opcode %d is well formed" % i, w(T["inst1"][i], T["size1"][i], T["mode1"][i]) and w(T["inst2"][i], T["size2"][i], T["mode2"][i]))
        for ty in range(1, 12): ob("instruction type %d has an opcode with separate size" % ty, any(T["size1"][i] == 0 and T["inst2"][i] == NOOP and T["inst1"][i] + T["mode1"][i] == ty for i in range(256)))
        return out
CONTRACTS = [DefaultValid(), LookupFirst(), LookupSecond(), DefaultMap(), FirstCtor(), FirstAdd(), SecondCtor(), SecondAdd(), MapCtor()]
