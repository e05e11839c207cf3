"""VCDiffCodeTableWriter (properties C12, C14, C07, C01)."""
from .common import *
from .instmap import *
from . import addrcache
from .addrcache import mk_cache, View as CacheView, CacheContract, CLS as CACHE
from .varint import enc_len, val, cont
from .window import Out, OView
WR = "VCDiffCodeTableWriter"
STRS = ("instructions_and_sizes_", "separate_data_for_add_and_run_", "separate_addresses_for_copy_")
U8 = (0, 255)

def digits(arr, p, v, nb):
    """the bytes arr[p, p + enc_len(v)) are the base-128 form of v"""
    n = enc_len(v, nb)
    return z3.And(*[z3.Implies(n > k, arr[p + n - 1 - k] == (v / z3.IntVal(1 << (7 * k))) % 128 + (128 if k else 0)) for k in range(nb)])

def soff(e, f): return e.di.field(NS + WR, f)[0]
def mk_writer(e, st, interleaved, default=False, empty=False, initialised=True):
    o = e.object(st, "writer", NS + WR); d = dict(o=o, p=PtrV(o, 0)); o.icells[0] = (8, real_vtable(e, "_ZTVN11open_vcdiff21VCDiffCodeTableWriterE"))
    for f in STRS:
        b, ln = str_init(e, st, o, soff(e, f), f); d[f] = (b, ln)
        if empty: st.assume(ln == 0)
    d["data"] = PtrV(o, soff(e, STRS[0] if interleaved else STRS[1])); d["addr"] = PtrV(o, soff(e, STRS[0] if interleaved else STRS[2]))
    setinit(e, o, 0, WR, "data_for_add_and_run_", d["data"]); setinit(e, o, 0, WR, "addresses_for_copy_", d["addr"])
    if interleaved: st.assume(d[STRS[1]][1] == 0, d[STRS[2]][1] == 0)
    mk_cache(e, st, o, e.di.field(NS + WR, "address_cache_")[0])
    for f in ("dictionary_size_", "target_length_", "checksum_"): setinit(e, o, 0, WR, f, e.fresh_int(st, 64, False, f))
    mm = e.fresh_int(st, 8, False, "max_mode"); setinit(e, o, 0, WR, "max_mode_", mm)
    t = e.global_region(st, DEFAULT) if default else mk_table(e, st, "code_table")
    setinit(e, o, 0, WR, "code_table_data_", PtrV(t, 0))
    tab = Tab(e, st, PtrV(t, 0)); d["t"] = tab; d["mm"] = mm.t
    if initialised: setinit(e, o, 0, WR, "instruction_map_", mk_amap(e, st, tab, mm.t))
    else: setinit(e, o, 0, WR, "instruction_map_", NULLP)
    li = e.fresh_int(st, 32, True, "last_opcode_index"); setinit(e, o, 0, WR, "last_opcode_index_", li)
    b = z3.Bool("add_checksum!%d" % next(e.fresh_n)); setinit(e, o, 0, WR, "add_checksum_", IntV(z3.If(b, 1, 0), 8, 0, 1, b))
    return d

class WV:
    """writer state at st"""
    def __init__(self, e, st, p):
        self.e, self.p = e, p
        def s(f):
            q = fld(e, p, WR, f)[0] if f in STRS else e.load(st, fld(e, p, WR, f)[0], ir.PTR)
            b = s_ptr(e, st, q); return (Z(s_len(e, st, q)), e.seg_arr(st, b.reg, b.reg.segs[0]), q)
        self.il, self.ia, self.ip = s(STRS[0]); self.sd, self.sda, _ = s(STRS[1]); self.sa, self.saa, _ = s(STRS[2])
        self.dl, self.da, self.dp = s("data_for_add_and_run_"); self.al, self.aa, self.ap = s("addresses_for_copy_")
        self.interleaved = self.dp.off.c == self.ip.off.c
        self.last = geti(e, st, p, WR, "last_opcode_index_"); self.tl = geti(e, st, p, WR, "target_length_"); self.ds = geti(e, st, p, WR, "dictionary_size_")
        self.mm = geti(e, st, p, WR, "max_mode_"); self.hc = geti(e, st, p, WR, "add_checksum_"); self.ck = geti(e, st, p, WR, "checksum_")
        self.map = e.load(st, fld(e, p, WR, "instruction_map_")[0], ir.PTR)
        self.tp = e.load(st, fld(e, p, WR, "code_table_data_")[0], ir.PTR)
        self.cachep = fld(e, p, WR, "address_cache_")[0]
    def inv(self, st):
        e = self.e
        if self.map.reg is None: return [("Init was called", False)]
        m = amap(e, self.map); t = m.t; i = z3.Int("i!q")
        sane = z3.And(self.dp.reg is self.p.reg, self.ap.reg is self.p.reg) if False else True
        cv = CacheView(e, st, self.cachep)
        return [("the map belongs to the table and modes of the caches", z3.And(m.mm == self.mm, self.mm == cv.near + cv.same + 1)),
                ("sections are separate or all one", (self.dp.off.c, self.ap.off.c) in ((soff(e, STRS[0]),) * 2, (soff(e, STRS[1]), soff(e, STRS[2])))),
                ("the last opcode lies in the instruction stream", z3.And(self.last >= -1, self.last < self.il)),
                ("the last opcode stands for one instruction", z3.Implies(self.last >= 0, z3.And(is_single(t, self.ia[self.last]), self.ia[self.last] >= 0, self.ia[self.last] <= 255)))] + cv.inv() + CacheContract().nonneg(e, st, self.cachep)

def written(t, B0, l0, last0, B1, l1, last1, inst, size, mode):
    """how the instruction stream changes when an instruction is written: list of (case, formula)"""
    i = z3.Int("i!q"); m = modeof(inst, mode)
    def tail(at, s): return z3.And(s >= 0, s <= 255, z3.If(s == 0, z3.And(l1 == at + enc_len(size, 5), digits(B1, at, size, 5)), z3.And(s == size, l1 == at)))
    op0, op = B0[last0], B1[last0]; ft, fs, fm = the_single(t, op0)
    merged = z3.And(last0 >= 0, last1 == -1, op >= 0, op <= 255, is_single(t, op0), half1(t, op, ft, fs, fm), t.inst2[op] == inst, t.mode2[op] == m, tail(l0, t.size2[op]))
    nop = B1[l0]; nt, ns, nm = the_single(t, nop)
    appended = z3.And(last1 == l0, nop >= 0, nop <= 255, is_single(t, nop), nt == inst, nm == m, tail(l0 + 1, ns))
    kept = lambda ex: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l0, *ex(i)), B1[i] == B0[i]), patterns=[B1[i]])
    return [("the instruction is appended, or merged into the last opcode", z3.Or(merged, appended)),
            ("earlier bytes are kept, except the opcode a merge replaces", kept(lambda i: [i != last0])), ("an append keeps the last opcode too", z3.Implies(last1 != -1, z3.Implies(last0 >= 0, B1[last0] == B0[last0])))]

class EncodeInstruction(Contract):
    match = NS + WR + "::EncodeInstruction(open_vcdiff::VCDiffInstructionType, unsigned long, unsigned char)"
    props = ("C12", "C14", "C01", "C19")
    label = "EncodeInstruction"
    def setup(self, e, st, case):
        d = mk_writer(e, st, False); return [d["p"], e.fresh_int(st, 32, False, "inst"), e.fresh_int(st, 64, False, "size"), e.fresh_int(st, 8, False, "mode")]
    def pre(self, e, st, a):
        v = WV(e, st, a[0]); inst, size, mode = [Z(e.u(st, x)) for x in a[1:4]]
        return v.inv(st) + [("an ADD, RUN or COPY", z3.And(inst >= ADD, inst <= COPY)), ("a mode of the table", z3.Implies(inst == COPY, mode <= v.mm)), ("size is an int", size <= INT_MAX),
                            ("the instruction stream is shorter than INT_MAX", v.il <= INT_MAX - 16)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WV(e, s0, a[0]), WV(e, s1, a[0]); t = amap(e, v0.map).t; inst, size, mode = [Z(e.u(s0, x)) for x in a[1:4]]
        out = written(t, v0.ia, v0.il, v0.last, v1.ia, v1.il, v1.last, inst, size, mode) + same_writer(e, s0, s1, v0, v1)
        return out + v1.inv(s1)[:4]
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            v0 = WV(e, st, a[0]); p = v0.ip
            n = e.fresh("ilen"); st.assume(n >= v0.il, n <= v0.il + 6)
            buf = str_grow(e, st, p, n)
            if ("moved" and buf.reg is s_ptr(e, s0, p).reg): pass
            st.wrc(buf.reg).segs[0] = e.fresh_arr("inst"); e.note_write(st, buf.reg, ("seg", 0))
            e.store(st, e_ptr(p, 8), I64, IntV(n, 64, 0, MAXSTR))
            e.store(st, fld(e, a[0], WR, "last_opcode_index_")[0], ir.IntTy(32), e.fresh_int(st, 32, True, "last"))
            for nm, g in self.post(e, s0, st, a, None): st.assume(B(g))
        return None
def same_writer(e, s0, s1, v0, v1, but=()):
    """the other sections and fields are unchanged"""
    out = []
    for f in ("dictionary_size_", "target_length_", "checksum_", "max_mode_", "add_checksum_"):
        if f not in but: out.append((f + " unchanged", geti(e, s1, v0.p, WR, f) == geti(e, s0, v0.p, WR, f)))
    out.append(("the map and table are unchanged", v1.map.reg is v0.map.reg and v1.tp.reg is v0.tp.reg and v1.tp.off.c == v0.tp.off.c))
    out.append(("the section pointers are unchanged", v1.dp.reg is v0.dp.reg and v1.dp.off.c == v0.dp.off.c and v1.ap.reg is v0.ap.reg and v1.ap.off.c == v0.ap.off.c))
    i = z3.Int("i!q")
    for n, (l0, a0, l1, a1) in (("separate data", (v0.sd, v0.sda, v1.sd, v1.sda)), ("separate addresses", (v0.sa, v0.saa, v1.sa, v1.saa))):
        if n not in but: out.append((n + " unchanged", l1 == l0 if a0.eq(a1) else z3.And(l1 == l0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l0), a1[i] == a0[i]), patterns=[a1[i]]))))
    if "cache" not in but:
        c0, c1 = CacheView(e, s0, v0.cachep), CacheView(e, s1, v0.cachep)
        out.append(("the address cache is unchanged", c0.equal(c1)))
    return out

def bytesval(arr, P, n, nb=5):
    """the base-128 value of the n bytes at P, and that they are one complete varint"""
    return (z3.Sum([z3.If(n > k, (arr[P + n - 1 - k] - (128 if k else 0)) * (1 << (7 * k)), 0) for k in range(nb)]),
            z3.And(n >= 1, n <= nb, *[z3.Implies(n > k, (arr[P + n - 1 - k] >= 128) if k else arr[P + n - 1] < 128) for k in range(nb)]))

class WriterOp(Contract):
    """Add, Copy or Run: one instruction, its operand, and nothing else"""
    props = ("C12", "C14", "C01", "C19")
    cases = ("separate sections", "interleaved")
    inst = None
    def modifies(self, e, st, a): return None
    def size(self, e, st, a): return Z(e.u(st, a[2]))
    def common_pre(self, e, st, a, v):
        size = self.size(e, st, a)
        return v.inv(st) + [("size is an int", size <= INT_MAX), ("dictionary and target fit an int", z3.And(v.ds + v.tl + size <= INT_MAX)), ("the instruction stream is shorter than INT_MAX", v.il <= INT_MAX - 16)]
    def operand(self, e, s0, a, v0, v1, op_len, at, arr, m): raise NotImplementedError
    def oplen(self, e, s0, a, v0, v1): raise NotImplementedError
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WV(e, s0, a[0]), WV(e, s1, a[0]); t = amap(e, v0.map).t; size = self.size(e, s0, a); i = z3.Int("i!q")
        copy = self.inst == COPY
        sl0, sa0, sl1, sa1 = (v0.al, v0.aa, v1.al, v1.aa) if copy else (v0.dl, v0.da, v1.dl, v1.da)
        m = z3.If(v1.last == -1, t.mode2[v1.ia[v0.last]], the_single(t, v1.ia[v0.il])[2]) if copy else z3.IntVal(0)
        n = self.oplen(e, s0, a, v0, v1, m, s1)
        lmid = v1.il - n if v0.interleaved else v1.il
        at = lmid if v0.interleaved else sl0
        out = [("the operand is appended to its section", sl1 == at + n)]
        if not v0.interleaved: out.append(("earlier operands are kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sl0), sa1[i] == sa0[i]), patterns=[sa1[i]])))
        out += written(t, v0.ia, v0.il, v0.last, v1.ia, lmid, v1.last, z3.IntVal(self.inst), size, m)
        out += self.operand(e, s0, s1, a, v0, v1, n, at, sa1, m)
        out.append(("the target length grows by the size", v1.tl == v0.tl + size))
        but = ["target_length_"] + (["cache"] if copy else []) + ([] if v0.interleaved else ["separate addresses" if copy else "separate data"])
        return out + same_writer(e, s0, s1, v0, v1, but) + v1.inv(s1)[:4]
class WAdd(WriterOp):
    match = NS + WR + "::Add"; inst = ADD; label = "VCDiffCodeTableWriter::Add"
    def setup(self, e, st, case):
        d = mk_writer(e, st, case == "interleaved"); n = e.fresh_int(st, 64, False, "size"); b = e.buffer(st, "data", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + n.t <= b.size)
        return [d["p"], PtrV(b, P, b.segs[0]), n]
    def pre(self, e, st, a): return self.common_pre(e, st, a, WV(e, st, a[0]))
    def oplen(self, e, s0, a, v0, v1, m, s1): return self.size(e, s0, a)
    def operand(self, e, s0, s1, a, v0, v1, n, at, arr, m):
        src = arr_of(e, s0, a[1]); P = Z(a[1].off.z()); k = z3.Int("k!q")
        return [("the data bytes are the source bytes, in order", z3.ForAll([k], z3.Implies(z3.And(k >= at, k < at + n), arr[k] == src[P + k - at]), patterns=[arr[k]]))]
class WRun(WriterOp):
    match = NS + WR + "::Run"; inst = RUN; label = "VCDiffCodeTableWriter::Run"
    def size(self, e, st, a): return Z(e.u(st, a[1]))
    def setup(self, e, st, case):
        d = mk_writer(e, st, case == "interleaved"); return [d["p"], e.fresh_int(st, 64, False, "size"), e.fresh_int(st, 8, False, "byte")]
    def pre(self, e, st, a): return self.common_pre(e, st, a, WV(e, st, a[0]))
    def oplen(self, e, s0, a, v0, v1, m, s1): return z3.IntVal(1)
    def operand(self, e, s0, s1, a, v0, v1, n, at, arr, m): return [("the data byte is the repeated byte", arr[at] == Z(e.u(s0, a[2])))]
class WCopy(WriterOp):
    match = NS + WR + "::Copy"; inst = COPY; label = "VCDiffCodeTableWriter::Copy"
    def setup(self, e, st, case):
        d = mk_writer(e, st, case == "interleaved"); return [d["p"], e.fresh_int(st, 32, True, "offset"), e.fresh_int(st, 64, False, "size")]
    def pre(self, e, st, a):
        v = WV(e, st, a[0]); o = Z(e.s(st, a[1])); return self.common_pre(e, st, a, v) + [("the address is before the current position", z3.And(o >= 0, o < v.ds + v.tl))]
    def oplen(self, e, s0, a, v0, v1, m, s1):
        if not v0.interleaved: return v1.al - v0.al
        # bytes after the opcode and its size
        t = amap(e, v0.map).t; size = self.size(e, s0, a)
        s = z3.If(v1.last == -1, t.size2[v1.ia[v0.last]], the_single(t, v1.ia[v0.il])[1])
        return v1.il - (v0.il + z3.If(v1.last == -1, 0, 1) + z3.If(s == 0, enc_len(size, 5), 0))
    def operand(self, e, s0, s1, a, v0, v1, n, at, arr, m):
        c0, c1 = CacheView(e, s0, v0.cachep), CacheView(e, s1, v0.cachep); here = v0.ds + v0.tl; o = Z(e.s(s0, a[1]))
        val_, ok = bytesval(arr, at, n); same = m >= 2 + c0.near
        return [("the mode is one of the caches' modes", z3.And(m >= 0, m <= v0.mm)),
                ("a same-cache mode writes one byte that denotes the address", z3.Implies(same, z3.And(n == 1, c0.decode(m, arr[at], here) == o))),
                ("another mode writes one varint that denotes the address", z3.Implies(z3.Not(same), z3.And(ok, val_ <= INT_MAX, c0.decode(m, val_, here) == o))),
                ] + c0.updated(o, c1, s1) + c1.inv() + CacheContract().nonneg(e, s1, v0.cachep)

# ------------------------------------------------------------------ life of a writer
def empty_sections(v): return z3.And(v.il == 0, v.sd == 0, v.sa == 0)
def sections_kept(e, s0, s1, v0, v1):
    i = z3.Int("i!q"); out = []
    for n, (l0, a0, l1, a1) in (("instructions", (v0.il, v0.ia, v1.il, v1.ia)), ("separate data", (v0.sd, v0.sda, v1.sd, v1.sda)), ("separate addresses", (v0.sa, v0.saa, v1.sa, v1.saa))):
        out.append((n + " unchanged", l1 == l0 if a0.eq(a1) else z3.And(l1 == l0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l0), a1[i] == a0[i]), patterns=[a1[i]]))))
    return out
def fresh_cache(e, st, p):
    c = CacheView(e, st, p); i = z3.Int("i!q"); out = [("next slot restarts at 0", c.next == 0), ("cache sizes hold", z3.And(c.ncount == c.near, c.scount == c.same * 256))]
    for n, arr, cnt in (("near", c.na, c.near), ("same", c.sa, c.same * 256)):
        out.append((n + " cache is all zero", (cnt == 0) if arr is None else z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt), arr[i] == 0), patterns=[arr[i]])))
    return out
class WInit(Contract):
    match = NS + WR + "::Init"; label = "VCDiffCodeTableWriter::Init"; props = ("C12", "C14", "C16", "C19")
    cases = ("first use, default table", "first use, other table", "again")
    def setup(self, e, st, case):
        d = mk_writer(e, st, False, default="default" in case, initialised=case == "again")
        if "first" in case:
            off0 = e.di.field(NS + WR, "address_cache_")[0]; setinit(e, d["o"], off0, CACHE, "next_slot_", IntV(0, 32))
            for f in ("near_addresses_", "same_addresses_"):
                o = e.di.field(NS + CACHE, f)[0]
                for k in (0, 8, 16): d["o"].icells[off0 + o + k] = (8, NULLP)
        return [d["p"], e.fresh_int(st, 64, False, "dictionary_size")]
    def pre(self, e, st, a):
        v = WV(e, st, a[0]); near, same = [geti(e, st, v.cachep, CACHE, f) for f in ("near_cache_size_", "same_cache_size_")]
        out = [("the modes fit a byte", near + same <= 254), ("the highest mode is that of the caches", v.mm == near + same + 1)]
        if v.tp.reg is e.globals_r.get(DEFAULT): out.append(("the default table goes with the default modes", v.mm == 8))
        if v.map.reg is not None: out.append(("the map belongs to the table", z3.And(amap(e, v.map).mm == v.mm, amap(e, v.map).t.key() == Tab(e, st, v.tp).key())))
        else: out.append(("the table is valid", valid_table(Tab(e, st, v.tp), v.mm)))
        return out
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WV(e, s0, a[0]), WV(e, s1, a[0])
        if v1.map.reg is None: return [("there is a map", False)]
        m = amap(e, v1.map)
        return [("succeeds", B(ret.b)), ("dictionary size recorded", v1.ds == Z(e.u(s0, a[1]))), ("no target yet", v1.tl == 0), ("no opcode to merge with", v1.last == -1),
                ("the map belongs to the table and highest mode", z3.And(m.mm == v1.mm, m.t.key() == Tab(e, s0, v0.tp).key())),
                ("the table, checksum and modes are unchanged", z3.And(v1.tp.reg is v0.tp.reg, v1.mm == v0.mm, v1.hc == v0.hc, v1.ck == v0.ck))] + sections_kept(e, s0, s1, v0, v1) + fresh_cache(e, s1, v1.cachep)
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a)); v = WV(e, st, a[0])
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        if v.map.reg is None: raise Unsupported("first Init at a call site")
        with Spec(e):
            st_ = lambda f, w, x: e.store(st, fld(e, a[0], WR, f)[0], ir.IntTy(w), x)
            st_("dictionary_size_", 64, a[1]); st_("target_length_", 64, IntV(0, 64)); st_("last_opcode_index_", 32, IntV(-1, 32))
            return addrcache.Init().apply(e, st, [v.cachep])

def at_digits(arr, P, v, nb=5): return (digits(arr, P, v, nb), P + enc_len(v, nb))
class Layout:
    """the window that Output must produce at position P of arr: (name, formula) parts, and where it ends"""
    def __init__(self, v, arr, P, hc):
        L5 = lambda x: enc_len(x, 5); i = z3.Int("i!q")
        self.dlen = L5(v.tl) + 1 + L5(v.sd) + L5(v.il) + L5(v.sa) + z3.If(hc, enc_len(v.ck, 9), 0) + v.sd + v.il + v.sa
        out = [("window indicator", arr[P] == 1 + z3.If(hc, 4, 0))]; n = P + 1
        for name, x in (("source segment size is the dictionary size", v.ds), ("source segment position is 0", z3.IntVal(0)), ("length of the delta encoding", self.dlen)):
            f, n = at_digits(arr, n, x); out.append((name, f))
        self.dstart = n
        f, n = at_digits(arr, n, v.tl); out.append(("target window length", f))
        out.append(("delta indicator", arr[n] == 0)); n = n + 1
        for name, x in (("data section length", v.sd), ("instruction section length", v.il), ("address section length", v.sa)):
            f, n = at_digits(arr, n, x); out.append((name, f))
        f, m = at_digits(arr, n, v.ck, 9); out.append(("checksum", z3.Implies(hc, f))); n = z3.If(hc, m, n); self.body = n
        for name, (sl, sa) in (("data section", (v.sd, v.sda)), ("instruction section", (v.il, v.ia)), ("address section", (v.sa, v.saa))):
            k = z3.Int("k!q"); out.append((name + " bytes", z3.ForAll([k], z3.Implies(z3.And(k >= n, k < n + sl), arr[k] == sa[k - n]), patterns=[arr[k]]))); n = n + sl
        self.parts = out; self.end = n
class CalcLength(Contract):
    match = NS + WR + "::CalculateLengthOfTheDeltaEncoding"; props = ("C14", "C19"); label = "CalculateLengthOfTheDeltaEncoding"
    def setup(self, e, st, case): return [mk_writer(e, st, False)["p"]]
    def pre(self, e, st, a):
        v = WV(e, st, a[0]); return [("lengths are ints", z3.And(*[x <= INT_MAX for x in (v.tl, v.sd, v.il, v.sa)])), ("the checksum is 32 bits", v.ck <= 0xffffffff)]
    def post(self, e, s0, s1, a, ret):
        v = WV(e, s0, a[0]); L = Layout(v, v.ia, z3.IntVal(0), v.hc); return [("the length of everything after the length field", Z(e.u(s1, ret)) == L.dlen)]
class WOutput(Contract):
    match = NS + WR + "::Output"; label = "VCDiffCodeTableWriter::Output"; props = ("C14", "C12", "C16", "C19", "C07", "C01")
    cases = ("separate sections", "interleaved")
    def setup(self, e, st, case):
        d = mk_writer(e, st, case == "interleaved"); self.out = Out(e, st); return [d["p"], self.out.p]
    def pre(self, e, st, a):
        v = WV(e, st, a[0]); total = v.sd + v.il + v.sa + 64
        return v.inv(st) + WInit().pre(e, st, [a[0], None]) + [("lengths are ints", z3.And(v.tl <= INT_MAX, v.ds <= INT_MAX, total <= INT_MAX)), ("the checksum is 32 bits", v.ck <= 0xffffffff)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WV(e, s0, a[0]), WV(e, s1, a[0]); o0, o1 = OView(e, s0, a[1]), OView(e, s1, a[1]); i = z3.Int("i!q"); L = Layout(v0, o1.arr, o0.len, v0.hc); some = v0.il > 0
        out = [("nothing is written for an empty window", z3.Implies(z3.Not(some), o1.len == o0.len)), ("earlier output is kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o0.len), o1.arr[i] == o0.arr[i]), patterns=[o1.arr[i]])),
               ("the window ends where its last section ends", z3.Implies(some, o1.len == L.end)), ("the delta encoding has the length it declares", z3.Implies(some, L.end - L.dstart == L.dlen))]
        out += [("window: " + n, z3.Implies(some, f)) for n, f in L.parts]
        out += [("the sections are empty for the next window", z3.Implies(some, empty_sections(v1))), ("the next window starts afresh", z3.And(v1.tl == 0, v1.last == -1, v1.ds == v0.ds)),
                ("map, table and modes are unchanged", z3.And(v1.map.reg is v0.map.reg, v1.tp.reg is v0.tp.reg, v1.mm == v0.mm))]
        return out + fresh_cache(e, s1, v1.cachep)
class WHeader(Contract):
    match = NS + WR + "::WriteHeader"; label = "VCDiffCodeTableWriter::WriteHeader"; props = ("C14", "C16", "C19")
    def setup(self, e, st, case):
        d = mk_writer(e, st, False); self.out = Out(e, st); return [d["p"], self.out.p, e.fresh_int(st, 32, False, "format_extensions")]
    def modifies(self, e, st, a): return OView(e, st, a[1]).mods()
    def post(self, e, s0, s1, a, ret):
        o0, o1 = OView(e, s0, a[1]), OView(e, s1, a[1]); hdr = (0xD6, 0xC3, 0xC4, None, 0); i = z3.Int("i!q"); fe = Z(e.u(s0, a[2]))
        return [("five bytes are written", o1.len == o0.len + 5), ("earlier output is kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o0.len), o1.arr[i] == o0.arr[i]), patterns=[o1.arr[i]])),
                ("the header is that of the format in use", z3.And(*[o1.arr[o0.len + k] == (b if b is not None else z3.If(fe == 0, 0, ord("S"))) for k, b in enumerate(hdr)]))]
class WChecksum(Contract):
    match = NS + WR + "::AddChecksum"; label = "VCDiffCodeTableWriter::AddChecksum"; props = ("C07", "C14", "C19")
    def setup(self, e, st, case): return [mk_writer(e, st, False)["p"], e.fresh_int(st, 64, False, "checksum")]
    def modifies(self, e, st, a): return [cell(e, a[0], WR, "add_checksum_"), cell(e, a[0], WR, "checksum_")]
    def post(self, e, s0, s1, a, ret):
        v = WV(e, s1, a[0]); return [("the checksum will be written", z3.And(v.hc, v.ck == Z(e.u(s0, a[1]))))]
CONTRACTS = [WInit(), CalcLength(), WOutput(), WHeader(), WChecksum(), EncodeInstruction(), WAdd(), WRun(), WCopy()]
