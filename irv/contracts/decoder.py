"""VCDiffStreamingDecoderImpl and VCDiffDeltaFileWindow (properties C02-C07, C10)."""
from .common import *
from .addrcache import mk_cache, View as CacheView, CLS as CACHE
from . import addrcache
from .headerparser import mk_chunk, CView, CH, SUCCESS, ERROR, END
from .decodetable import mk_reader, RView, NONE, CLS as READER
from .codetable import Tab, mk_table, ADD, RUN, COPY, NOOP
from .adler import ADLER
IMPL = "VCDiffStreamingDecoderImpl"; WIN = "VCDiffDeltaFileWindow"
UNLIM = (1 << 64) - 3
U64 = (1 << 64) - 1

def sub(cls, path): return cls, path
class Obj:
    """field access relative to the decoder object (or to the window inside it)"""
    def __init__(self, e, p, cls): self.e, self.p, self.cls = e, p, cls
    def ptr(self, path): return fld(self.e, self.p, self.cls, path)[0]
    def get(self, st, path): return getv(self.e, st, self.p, self.cls, path)
    def int(self, st, path): return geti(self.e, st, self.p, self.cls, path)
    def cell(self, path): return cell(self.e, self.p, self.cls, path)
    def set(self, path, v): setinit(self.e, self.p.reg, self.p.off.c, self.cls, path, v)
    def store(self, st, path, ty, v): self.e.store(st, self.ptr(path), ty, v)

def bool_cell(e, name):
    b = z3.Bool("%s!%d" % (name, next(e.fresh_n))); return IntV(z3.If(b, 1, 0), 8, 0, 1, b)
def const_bool(b): return IntV(1 if b else 0, 8, 0, 1, b)

def win_off(e): return e.di.field(NS + IMPL, "delta_window_")[0]
def off(e, path, cls=IMPL): return e.di.field(NS + cls, path)[0]

def mk_impl(e, st, window="idle", source=None, header="default", called=True, stale=False):
    """an arbitrary decoder object satisfying the representation invariant.
    window: 'idle' (no window header read), 'sections', 'interleaved' (header read);
    source: 'dictionary', 'target', 'none' for the source segment of a window whose header was read;
    header: 'none' (file header not read), 'default' (read, default table), 'pending' (custom table being decoded), 'custom';
    stale: the window is interrupted between two DecodeChunk calls, so its section pointers refer to input that is gone"""
    o = e.object(st, "decoder", NS + IMPL); P = PtrV(o, 0); I = Obj(e, P, IMPL); W = Obj(e, PtrV(o, win_off(e)), WIN)
    d = dict(o=o, I=I, W=W, p=P, w=W.p)
    D = e.buffer(st, "dictionary", ro=True); d["D"] = D
    I.set("dictionary_ptr_", PtrV(D, 0, D.segs[0])); I.set("dictionary_size_", IntV(Z(D.size), 64, 0, U64))
    ub, ulen = str_init(e, st, o, off(e, "unparsed_bytes_"), "unparsed"); d["ub"] = ub; d["ulen"] = ulen
    tb, tlen = str_init(e, st, o, off(e, "decoded_target_"), "target"); d["T"] = tb; d["tlen"] = tlen
    str_init(e, st, o, off(e, "custom_code_table_string_"), "table_string")
    I.set("vcdiff_version_code_", e.fresh_int(st, 8, False, "version"))
    for f in ("planned_target_file_size_", "maximum_target_file_size_", "maximum_target_window_size_", "total_of_target_window_sizes_", "decoded_target_output_position_"):
        I.set(f, e.fresh_int(st, 64, False, f))
    st.assume(I.int(st, "decoded_target_output_position_") <= tlen)
    st.assume(z3.Or(I.int(st, "planned_target_file_size_") == UNLIM, I.int(st, "total_of_target_window_sizes_") <= I.int(st, "planned_target_file_size_")))
    I.set("start_decoding_was_called_", const_bool(called) if called is not None else bool_cell(e, "started"))
    I.set("allow_vcd_target_", bool_cell(e, "allow_vcd_target"))
    ptrs = {"addr_cache_": NULLP, "custom_code_table_": NULLP, "custom_code_table_decoder_": NULLP}
    if header != "none":
        c = e.object(st, "cache", NS + CACHE, kind="heap"); mk_cache(e, st, c, 0); ptrs["addr_cache_"] = PtrV(c, 0); d["cache"] = PtrV(c, 0)
    if header in ("custom", "pending"):
        t = mk_table(e, st, "custom_table"); t.kind = "heap"; ptrs["custom_code_table_"] = PtrV(t, 0); d["table"] = t
    for f, v in ptrs.items(): o.icells[off(e, f)] = (8, v)
    # the window
    W.set("parent_", P)
    idle = window == "idle"
    W.set("found_header_", const_bool(not idle))
    tw, ts = e.fresh_int(st, 64, False, "window_length"), e.fresh_int(st, 64, False, "window_start")
    W.set("target_window_length_", tw); W.set("target_window_start_pos_", ts)
    W.set("interleaved_bytes_expected_", e.fresh_int(st, 32, True, "expected"))
    W.set("has_checksum_", bool_cell(e, "has_checksum")); W.set("expected_checksum_", e.fresh_int(st, 64, False, "checksum"))
    sl = e.fresh_int(st, 64, False, "segment_length"); W.set("source_segment_length_", sl)
    d.update(tw=tw.t, ts=ts.t, sl=sl.t)
    st.assume(tw.t <= INT_MAX, sl.t <= INT_MAX)
    d["chunks"] = {}
    names = ("instructions_and_sizes_", "data_for_add_and_run_", "addresses_for_copy_")
    if idle:
        # lengths left over from a header that was cut short are possible; see WView.idle_inv
        st.assume(ts.t == tlen)
        W.set("source_segment_ptr_", NULLP)
        own = bool_cell(e, "owned")     # left over from the previous window
        for n in names:
            W.set(n + ".parseable_chunk_", NULLP); W.set(n + ".owned_", const_bool(True) if n == names[0] else own)
        W.set("interleaved_bytes_expected_", IntV(0, 32))
    else:
        S = e.buffer(st, "delta", ro=True); d["S"] = S
        st.assume(ts.t <= tlen, tlen - ts.t <= tw.t, ts.t + tw.t + 1 <= Z(tb.size))
        if source == "none":
            W.set("source_segment_ptr_", NULLP); W.set("source_segment_length_", IntV(0, 64)); d["sl"] = z3.IntVal(0)
        else:
            b = D if source == "dictionary" else tb
            q = e.fresh("segment_pos"); st.assume(q >= 0, q + sl.t <= (Z(D.size) if source == "dictionary" else ts.t))
            W.set("source_segment_ptr_", PtrV(b, q, b.segs[0]))
        first = None
        for n in names:
            if first is None or window == "sections":
                c = e.object(st, n, NS + CH, kind="heap"); mk_chunk(e, st, c, 0, S, n)
                if stale:
                    for f in ("start_", "position_", "end_"): setinit(e, c, 0, CH, f, OpaqueV("pointer into input that is gone"))
                first = first or c; W.set(n + ".owned_", const_bool(True))
            else: c = first; W.set(n + ".owned_", const_bool(False))
            W.set(n + ".parseable_chunk_", PtrV(c, 0)); d["chunks"][n] = c
    # the reader
    roff = off(e, "delta_window_.reader_")
    nd = NULLP
    tab = mk_table(e, st, "reader.table")
    if header == "custom": tab.kind = "heap"; nd = PtrV(tab, 0)
    d["reader_table"] = tab
    if not idle and not stale:
        mk_reader(e, st, o, roff, S, pos=fld(e, PtrV(d["chunks"]["instructions_and_sizes_"], 0), CH, "position_")[0], table=PtrV(tab, 0))
        W.set("reader_.instructions_and_sizes_end_", CView(e, st, PtrV(d["chunks"]["instructions_and_sizes_"], 0)).end)
        W.set("reader_.last_instruction_start_", OpaqueV("rewind point of an earlier instruction"))
    else:
        W.set("reader_.code_table_data_", PtrV(tab, 0))
        for f in ("instructions_and_sizes_", "instructions_and_sizes_end_", "last_instruction_start_"): W.set("reader_." + f, OpaqueV("stale reader pointer"))
        for f in ("pending_second_instruction_", "last_pending_second_instruction_"): W.set("reader_." + f, e.fresh_int(st, 16, False, f))
    o.icells[off(e, "delta_window_.reader_.non_default_code_table_data_")] = (8, nd)
    return d

class WView:
    """window state at st"""
    def __init__(self, e, st, w):
        W = Obj(e, w, WIN); self.W = W; self.e = e
        self.I = Obj(e, W.get(st, "parent_"), IMPL)
        tp = self.I.ptr("decoded_target_"); self.tp = tp
        self.tbuf = s_ptr(e, st, tp); self.tlen = Z(s_len(e, st, tp))
        self.T = e.seg_arr(st, self.tbuf.reg, self.tbuf.reg.segs[0])
        self.tw, self.ts = W.int(st, "target_window_length_"), W.int(st, "target_window_start_pos_")
        self.decoded = self.tlen - self.ts
        self.sptr = W.get(st, "source_segment_ptr_"); self.sl = W.int(st, "source_segment_length_")
        self.src = e.seg_arr(st, self.sptr.reg, seg_of(e, self.sptr)) if self.sptr.reg is not None else None
        self.inst, self.data, self.addr = [W.get(st, n + ".parseable_chunk_") for n in ("instructions_and_sizes_", "data_for_add_and_run_", "addresses_for_copy_")]
        self.interleaved = self.addr.reg is self.inst.reg
        self.expected = W.int(st, "interleaved_bytes_expected_")
    def chunk(self, st, which): return CView(self.e, st, getattr(self, which))
    def cache(self, st): return self.I.get(st, "addr_cache_") if False else self.e.load(st, fld(self.e, self.I.p, IMPL, "addr_cache_")[0], ir.PTR)
    def inv(self, st):
        """the part of the representation invariant that concerns the decoded target and the source segment"""
        out = [("decoded bytes lie within the window", z3.And(self.ts <= self.tlen, self.decoded <= self.tw, self.tw <= INT_MAX)),
               ("the whole window fits in the reserved buffer", self.ts + self.tw + 1 <= Z(self.tbuf.reg.size)),
               ("segment length is an int", self.sl <= INT_MAX)]
        if self.sptr.reg is None: out.append(("no source segment", self.sl == 0))
        elif self.sptr.reg is self.tbuf.reg: out.append(("source segment in the target before the window", z3.And(Z(self.sptr.off.z()) >= 0, Z(self.sptr.off.z()) + self.sl <= self.ts)))
        else: out.append(("source segment within the dictionary", z3.And(Z(self.sptr.off.z()) >= 0, Z(self.sptr.off.z()) + self.sl <= Z(self.sptr.reg.size))))
        return out
    def cells(self):
        return [(self.tp.reg, ("cell", self.tp.off.c + 8, 8)), (self.tbuf.reg, ("seg", 0))]
    def stable(self, s1, w1, n):
        """the target keeps its contents and grows by n"""
        i = z3.Int("i!q")
        if w1.tbuf.reg is not self.tbuf.reg: return [("the target buffer is not moved", False)]
        return [("the target grows by exactly the size", w1.tlen == self.tlen + n),
                ("bytes already decoded are kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.tlen), w1.T[i] == self.T[i]), patterns=[w1.T[i]]))]
    def unchanged(self, w1):
        i = z3.Int("i!q")
        if w1.T.eq(self.T): return w1.tlen == self.tlen
        return z3.And(w1.tlen == self.tlen, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.tlen), w1.T[i] == self.T[i]), patterns=[w1.T[i]]))

SHAPES = [(w, s) for w in ("sections", "interleaved") for s in ("dictionary", "target", "none")]
def case_names(): return ["%s, source %s" % x for x in SHAPES]
def case_shape(c): return SHAPES[case_names().index(c)]

class Exec(Contract):
    """shared by DecodeAdd/Run/Copy: executes one instruction of the given type"""
    kind = None
    def ghost_pre(self, e, st, a, size, mode=None):
        g = getattr(e.cur, "trace", None)
        if g is None: return []
        out = [("an instruction was read and not yet executed", gget(e, st, g["read"]) == gget(e, st, g["done"]) + 1),
               ("it is executed as the type that was read", gget(e, st, g["type"]) == self.kind), ("with the size that was read", gget(e, st, g["size"]) == size)]
        if mode is not None: out.append(("with the mode that was read", gget(e, st, g["mode"]) == mode))
        return out
    def apply(self, e, st, a):
        ret = Contract.apply(self, e, st, a)
        g = getattr(e.cur, "trace", None)
        if g is not None:
            d = e.fresh("done"); st.assume(d == gget(e, st, g["done"]) + z3.If(Z(e.s(st, ret)) == SUCCESS, 1, 0)); gset(e, st, g["done"], d)
        return ret
    def room(self, e, st, a, size):
        v = WView(e, st, a[0]); return v.inv(st) + [("the instruction fits in the window", v.decoded + size <= v.tw)]

class DecodeAdd(Exec):
    match = NS + WIN + "::DecodeAdd"; kind = ADD
    props = ("C03", "C02", "C04")
    cases = ("sections", "interleaved")
    def setup(self, e, st, case):
        d = mk_impl(e, st, case, "dictionary"); return [d["w"], e.fresh_int(st, 64, False, "size")]
    def pre(self, e, st, a):
        v = WView(e, st, a[0]); size = Z(e.u(st, a[1]))
        return self.room(e, st, a, size) + v.chunk(st, "data").inv() + [("data is not in the target buffer", v.chunk(st, "data").pos.reg is not v.tbuf.reg)] + self.ghost_pre(e, st, a, size)
    def modifies(self, e, st, a):
        v = WView(e, st, a[0]); return v.cells() + [cell(e, v.data, CH, "position_")]
    def consumed(self, size): return size
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WView(e, s0, a[0]), WView(e, s1, a[0]); r = Z(e.s(s1, ret)); size = Z(e.u(s0, a[1]))
        c0, c1 = v0.chunk(s0, "data"), v1.chunk(s1, "data")
        if c1.pos.reg is not c0.pos.reg: return [("position stays in the data", False)]
        arr = arr_of(e, s0, c0.pos); i = z3.Int("i!q"); n = self.consumed(size)
        byte = arr[c0.P + i - v0.tlen] if self.kind == ADD else arr[c0.P]
        return [("success or end of data", z3.Or(r == SUCCESS, r == END)),
                ("end of data exactly when the data section holds too little", (r == END) == (n > c0.L - c0.P)),
                ("end of data changes nothing", z3.Implies(r == END, z3.And(c1.P == c0.P, v0.unchanged(v1)))),
                ("success consumes exactly the data", z3.Implies(r == SUCCESS, c1.P == c0.P + n)),
                ("the bytes appended are those the RFC defines", z3.Implies(r == SUCCESS, z3.ForAll([i], z3.Implies(z3.And(i >= v0.tlen, i < v0.tlen + size), v1.T[i] == byte), patterns=[v1.T[i]])))] + \
               [(nm, z3.Implies(r == SUCCESS, g)) for nm, g in v0.stable(s1, v1, size)] + c1.inv()
class DecodeRun(DecodeAdd):
    match = NS + WIN + "::DecodeRun"; kind = RUN
    def consumed(self, size): return z3.IntVal(1)

class DecodeCopy(Exec):
    match = NS + WIN + "::DecodeCopy"; kind = COPY
    props = ("C03", "C02", "C04", "C09")
    cases = tuple(case_names())
    def setup(self, e, st, case):
        d = mk_impl(e, st, *case_shape(case)); return [d["w"], e.fresh_int(st, 64, False, "size"), e.fresh_int(st, 8, False, "mode")]
    def pre(self, e, st, a):
        v = WView(e, st, a[0]); size = Z(e.u(st, a[1])); mode = Z(e.u(st, a[2])); c = v.cache(st)
        if not isinstance(c, PtrV) or c.reg is None: return [("the address cache exists", False)]
        cv = CacheView(e, st, c)
        return self.room(e, st, a, size) + v.chunk(st, "addr").inv() + cv.inv() + addrcache.CacheContract().nonneg(e, st, c) + \
            [("the mode is defined for these cache sizes", mode < 2 + cv.near + cv.same)] + self.ghost_pre(e, st, a, size, mode)
    def modifies(self, e, st, a):
        v = WView(e, st, a[0]); return v.cells() + [cell(e, v.addr, CH, "position_")] + addrcache.CacheContract().mods(e, st, v.cache(st))
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WView(e, s0, a[0]), WView(e, s1, a[0]); r = Z(e.s(s1, ret)); size = Z(e.u(s0, a[1])); mode = Z(e.u(s0, a[2]))
        c0, c1 = v0.chunk(s0, "addr"), v1.chunk(s1, "addr")
        if c1.pos.reg is not c0.pos.reg: return [("position stays in the addresses", False)]
        here = v0.sl + v0.decoded; i = z3.Int("i!q")
        adr = s1.ghost.get("copy_address")
        if adr is None: adr = e.fresh("address"); s1.ghost["copy_address"] = adr
        arr = arr_of(e, s0, c0.pos); cv0, cv1 = CacheView(e, s0, v0.cache(s0)), CacheView(e, s1, v1.cache(s1))
        # U = source segment followed by the target window; the copy reads bytes it has itself just written
        k = i - v0.tlen
        srcb = v0.src[Z(v0.sptr.off.z()) + adr + k] if v0.src is not None else z3.IntVal(0)
        if v0.sptr.reg is v0.tbuf.reg: srcb = v0.T[Z(v0.sptr.off.z()) + adr + k]
        U = z3.If(adr + k < v0.sl, srcb, v1.T[v0.ts + adr + k - v0.sl])
        same = mode >= 2 + cv0.near
        from .varint import val, cont
        out = [("success, error or end of data", z3.And(r <= 0, r >= -2)),
               ("failure changes nothing but the result", z3.Implies(r != SUCCESS, v0.unchanged(v1))),
               ("end of data leaves the address position", z3.Implies(r == END, c1.P == c0.P)),
               ("end of data leaves the cache", z3.Implies(r == END, cv0.equal(cv1))),
               ("the address is before the current position", z3.Implies(r == SUCCESS, z3.And(adr >= 0, adr < here))),
               ("the address is the one the mode and stream denote", z3.Implies(r == SUCCESS, z3.If(same, z3.And(c1.P == c0.P + 1, adr == cv0.decode(mode, arr[c0.P], here)),
                                                                              z3.And(cont(arr, c0.P, c1.P - 1), arr[c1.P - 1] < 128, adr == cv0.decode(mode, val(arr, c0.P, c1.P), here))))),
               ("the address stream never moves back", c1.P >= c0.P),
               ("end of data only if the addresses hold no complete value", z3.Implies(r == END, z3.Or(c0.P >= c0.L, z3.And(z3.Not(same), cont(arr, c0.P, c0.L))))),
               ("the bytes appended are those the RFC defines", z3.Implies(r == SUCCESS, z3.ForAll([i], z3.Implies(z3.And(i >= v0.tlen, i < v0.tlen + size), v1.T[i] == U), patterns=[v1.T[i]])))]
        return out + [(nm, z3.Implies(r == SUCCESS, g)) for nm, g in v0.stable(s1, v1, size)] + c1.inv() + cv1.inv() + addrcache.CacheContract().nonneg(e, s1, v1.cache(s1)) + \
            [(n, z3.Implies(r == SUCCESS, g)) for n, g in cv0.updated(adr, cv1, s1)]
    def apply(self, e, st, a):
        st.ghost["copy_address"] = e.fresh("address")
        return Exec.apply(self, e, st, a)
    def loop_candidates(self, e, L):
        a = e.entry_args; s0 = e.entry; v0 = WView(e, s0, a[0]); i = z3.Int("i!q")
        adr = L.entry.ghost.get("copy_address")
        if adr is None: return []
        def v(st): 
            w = WView(e, st, a[0])
            if w.tbuf.reg is not v0.tbuf.reg: raise Unsupported("target moved")
            return w
        k = i - v0.tlen
        def U(T):
            srcb = v0.src[Z(v0.sptr.off.z()) + adr + k] if v0.src is not None else z3.IntVal(0)
            return z3.If(adr + k < v0.sl, srcb, T[v0.ts + adr + k - v0.sl])
        return [("!kept", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0.tlen), v(st).T[i] == v0.T[i]), patterns=[v(st).T[i]])),
                ("!copied so far", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= v0.tlen, i < v(st).tlen), v(st).T[i] == U(v(st).T)), patterns=[v(st).T[i]])),
                ("!target within window", lambda st: z3.And(v(st).tlen >= v0.tlen, v(st).decoded <= v0.tw))] + \
               [("!in step with the target", lambda st, r=r, o=o, x=x: Z(e.u(st, e.cellval(st, r, o))) - Z(e.u(L.entry, x)) == v(st).tlen - v(L.entry).tlen) for r, o, x in L.ints if x.w == 64] + \
               [("!against the target", lambda st, r=r, o=o, x=x: Z(e.u(st, e.cellval(st, r, o))) - Z(e.u(L.entry, x)) == v(L.entry).tlen - v(st).tlen) for r, o, x in L.ints if x.w == 64]


ADLER_SEED = 0   # vcdiff's checksum starts from 0, not from RFC 1950's 1 (see README)
class DecodeBody(Contract):
    """executes the instructions of one window; 'trace' is a ghost record of instructions read and executed"""
    match = NS + WIN + "::DecodeBody"
    props = ("C03", "C02", "C04", "C05", "C07", "C10")
    cases = tuple(case_names())
    cost = 9
    def setup(self, e, st, case):
        d = mk_impl(e, st, *case_shape(case))
        # instructions read so far, instructions executed so far, and the instruction read last
        self.trace = {k: ghost_cell(e, "instructions_" + k, 0) for k in ("read", "done")}
        for k in ("type", "size", "mode"): self.trace[k] = ghost_cell(e, "last_" + k, e.fresh_int(st, 64, True, "last_" + k))
        pc = e.object(st, "parseable_chunk", NS + CH); mk_chunk(e, st, pc, 0, d["S"], "input")
        self.d = d
        return [d["w"], PtrV(pc, 0)]
    def reader(self, e, w): return fld(e, w, WIN, "reader_")[0]
    def pre(self, e, st, a):
        v = WView(e, st, a[0]); pc = CView(e, st, a[1]); ic = v.chunk(st, "inst")
        rv = RView(e, st, self.reader(e, a[0])); c = v.cache(st); cv = CacheView(e, st, c)
        out = v.inv(st) + pc.inv() + cv.inv() + addrcache.CacheContract().nonneg(e, st, c) + rv.inv()
        for n in ("inst", "data", "addr"):
            if n == "inst" or not v.interleaved: out += v.chunk(st, n).inv() + [("the sections lie in the input", v.chunk(st, n).pos.reg is pc.pos.reg)]
        out += [("input is not the target buffer", pc.pos.reg is not v.tbuf.reg),
                ("the reader reads the instruction section", rv.pp.reg is v.inst.reg and rv.end.reg is ic.end.reg and teq(rv.end.off.z(), ic.end.off.z())),
                ("the code table is valid for the cache sizes", rv.wf(cv.near + cv.same + 1))]
        if getattr(e.cur, "first_chunk_of_window", False) and e.cur is not self:
            k = z3.Int("k!q")
            out.append(("a new window starts with an empty address cache", z3.And(cv.next == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cv.near), cv.na[k] == 0), patterns=[cv.na[k]]),
                                                                                    z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cv.same * 256), cv.sa[k] == 0), patterns=[cv.sa[k]]))))
        if v.interleaved:
            out += [("the instruction section starts at the input position", z3.And(ic.P == pc.P, ic.S == pc.P, ic.L <= pc.L)),
                    ("no more than the expected bytes are visible", z3.And(v.expected >= 0, ic.L - ic.S <= v.expected))]
        else:
            ac, dc = v.chunk(st, "addr"), v.chunk(st, "data")
            out += [("the sections follow each other in the input", z3.And(pc.P <= dc.S, dc.L == ic.S, ic.L == ac.S, ac.L <= pc.L)),
                    ("nothing of the sections is consumed yet", z3.And(dc.P == dc.S, ic.P == ic.S, ac.P == ac.S)), ("nothing pending", rv.pend == NONE)]
        return out
    def modifies(self, e, st, a):
        v = WView(e, st, a[0]); r = self.reader(e, a[0])
        cells = v.cells() + addrcache.CacheContract().mods(e, st, v.cache(st)) + [cell(e, a[1], CH, "position_"), cell(e, a[0], WIN, "interleaved_bytes_expected_")]
        for n in ("inst", "data", "addr"):
            x = cell(e, getattr(v, n), CH, "position_")
            if x not in cells: cells.append(x)
        cells += [cell(e, r, READER, f) for f in ("pending_second_instruction_", "last_pending_second_instruction_", "last_instruction_start_")]
        return cells + [(g, ("cell", 0, 8)) for g in getattr(e.cur, "trace", {}).values()]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = WView(e, s0, a[0]), WView(e, s1, a[0]); r = Z(e.s(s1, ret)); i = z3.Int("i!q")
        p0, p1 = CView(e, s0, a[1]), CView(e, s1, a[1]); ic0, ic1 = v0.chunk(s0, "inst"), v1.chunk(s1, "inst")
        if v1.tbuf.reg is not v0.tbuf.reg: return [("the target buffer is not moved", False)]
        if p1.pos.reg is not p0.pos.reg or ic1.pos.reg is not p0.pos.reg: return [("positions stay in the input", False)]
        rv1 = RView(e, s1, self.reader(e, a[0]))
        hc = v0.W.int(s0, "has_checksum_"); want = v0.W.int(s0, "expected_checksum_")
        out = [("success, error or end of data", z3.And(r <= 0, r >= -2)),
               ("the window never grows past its declared length", z3.And(v1.tlen >= v0.tlen, v1.decoded <= v0.tw)),
               ("bytes decoded earlier are never changed", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0.tlen), v1.T[i] == v0.T[i]), patterns=[v1.T[i]])),
               ("success means exactly the declared number of bytes", z3.Implies(r == SUCCESS, v1.decoded == v0.tw)),
               ("success means the checksum, if any, matches the decoded window", z3.Implies(z3.And(r == SUCCESS, hc), ADLER(z3.IntVal(ADLER_SEED), v1.T, v0.ts, v0.tw) == want)),
               ("success means every instruction was consumed", z3.Implies(r == SUCCESS, z3.And(ic1.P == ic1.L, rv1.pend == NONE))),
               ("the input position never moves back nor passes the end", z3.And(p1.P >= p0.P, p1.P <= p0.L)),
               ] + p1.inv() + ic1.inv() + rv1.inv()
        if not v0.interleaved:
            for n in ("data", "addr"):
                c0, c1 = v0.chunk(s0, n), v1.chunk(s1, n)
                if c1.pos.reg is not p0.pos.reg: return [("positions stay in the input", False)]
                out.append(("success means the %s section was consumed" % n, z3.Implies(r == SUCCESS, c1.P == c0.L)))
            out += [("on success the input continues after the last section", z3.Implies(r == SUCCESS, p1.P == v0.chunk(s0, "addr").L)),
                    ("end of data leaves the input position", z3.Implies(r == END, p1.P == p0.P))]
        else:
            out += [("the input continues after the last complete instruction", z3.Implies(r != ERROR, z3.And(p1.P == ic1.P, v1.expected == v0.expected - (ic1.P - ic0.P)))),
                    ("success means no more bytes are expected", z3.Implies(r == SUCCESS, v1.expected == 0)),
                    ("end of data means the window is incomplete", z3.Implies(r == END, v1.decoded < v0.tw)),
                    ("the remaining count stays non-negative", v1.expected >= 0)]
        c = v1.cache(s1); cv0, cv1 = CacheView(e, s0, v0.cache(s0)), CacheView(e, s1, c)
        out += cv1.inv() + addrcache.CacheContract().nonneg(e, s1, c)
        g = getattr(e.cur, "trace", None)
        if g is not None and e.cur is self:
            out += [("every instruction read was executed exactly once, in order", z3.Implies(r != ERROR, gget(e, s1, g["read"]) == gget(e, s1, g["done"])))]
        return out
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            mods = self.modifies(e, st, a); ls = fld(e, self.reader(e, a[0]), READER, "last_instruction_start_")[0]
            for r, w in mods: e.note_write(st, r, w)
            st.wrc(ls.reg).cells[ls.off.c] = (8, OpaqueV("rewind point of an earlier instruction"))
            e.havoc(st, mods, "c")
            ret = self.result(e, st, a)
            for n, g in self.post(e, s0, st, a, ret): st.assume(B(g))
        return ret
    def loop_candidates(self, e, L):
        a = e.entry_args; s0 = e.entry; v0 = WView(e, s0, a[0]); i = z3.Int("i!q"); cc = addrcache.CacheContract(); g = self.trace
        def v(st):
            w = WView(e, st, a[0])
            if w.tbuf.reg is not v0.tbuf.reg: raise Unsupported("target moved")
            return w
        def conj(l): return z3.And(*[B(x) for _, x in l])
        def quants(l): return [x for _, x in l]
        out = [("!kept", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0.tlen), v(st).T[i] == v0.T[i]), patterns=[v(st).T[i]])),
               ("!window", lambda st: z3.And(v(st).tlen >= v0.tlen, v(st).decoded <= v0.tw)),
               ("!cache", lambda st: conj(CacheView(e, st, v(st).cache(st)).inv())),
               ("!near", lambda st: cc.nonneg(e, st, v(st).cache(st))[0][1]), ("!same", lambda st: cc.nonneg(e, st, v(st).cache(st))[1][1]),
               ("!pending", lambda st: RView(e, st, self.reader(e, a[0])).inv()[0][1]),
               ("!trace", lambda st: gget(e, st, g["read"]) == gget(e, st, g["done"]))]
        for n in ("inst", "data", "addr"):
            out.append(("!chunk " + n, lambda st, n=n: conj(v(st).chunk(st, n).inv())))
        return out
    def variant(self, e, s0, s1, fn, header):
        # NOOPs and zero-size instructions consume input; every instruction read moves the instruction position or clears the pending half
        if not fn.endswith("DecodeBody"): return None
        a = e.entry_args
        def m(st):
            w = WView(e, st, a[0]); rv = RView(e, st, self.reader(e, a[0]))
            return 2 * w.chunk(st, "inst").P + z3.If(rv.pend == NONE, 1, 0)
        return m(s1) > m(s0)

CONTRACTS = [DecodeAdd(), DecodeRun(), DecodeCopy(), DecodeBody()]
