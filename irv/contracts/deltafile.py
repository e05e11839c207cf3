"""The delta file: header, custom code table, chunks (properties C02-C06, C10, C11)."""
from .common import *
from .window import *
from .decoder import off, win_off
from .headerparser import CH, CView
from .varint import VR, VN
from .addrcache import CLS as CACHE
from .codetable import DEFAULT, Tab, mk_table
from .addrcache import mk_cache
TABLE = "VCDiffCodeTableData"
MAXDEF = 67108864

def isnull(q): return isinstance(q, PtrV) and q.reg is None
def owned(e, st, p, f): return e.load(st, fld(e, p, IMPL, f)[0], ir.PTR)
class Sizes:
    """the two cache sizes at position P of arr (limit L)"""
    def __init__(self, arr, P, L):
        self.near, n1 = VR[32](arr, P, L), VN[32](arr, P, L); self.same, self.next = VR[32](arr, n1, L), VN[32](arr, n1, L)
        self.parsed = z3.And(self.near >= 0, self.same >= 0); self.fail = z3.If(self.near < 0, self.near, self.same)
        self.fits = z3.And(self.near <= 255, self.same <= 255, self.near + self.same <= 254)
def zeroed(e, st, q):
    """every byte of the code table at q is 0"""
    i = z3.Int("i!q"); return [("the table starts out all zero", z3.And(*[z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), z3.Select(e.seg_arr(st, q.reg, s), i) == 0)) for s in q.reg.segs]))]
def nested_ok(e, st, q):
    """a decoder ready to decode an embedded code table"""
    I = Obj(e, q, IMPL); dp = I.get(st, "dictionary_ptr_"); W = Obj(e, PtrV(q.reg, win_off(e)), WIN); par = W.get(st, "parent_")
    skip = ("not started", "no dictionary", "dictionary size 0", "no planned size")
    return [("nested decoder: " + n, g) for n, g in [x for x in fresh_state(e, st, q) if x[0] not in skip] + [
        ("started", I.int(st, "start_decoding_was_called_")), ("decodes against the default code table", isinstance(dp, PtrV) and dp.reg is e.globals_r.get(DEFAULT) and dp.off.const() and dp.off.c == 0),
        ("dictionary of 1536 bytes", I.int(st, "dictionary_size_") == 1536), ("expects exactly one table", I.int(st, "planned_target_file_size_") == 1536),
        ("default limits", z3.And(I.int(st, "maximum_target_file_size_") == MAXDEF, I.int(st, "maximum_target_window_size_") == MAXDEF)), ("the target may be used as a source", I.int(st, "allow_vcd_target_")),
        ("no input and no target", z3.And(Z(s_len(e, st, I.ptr("unparsed_bytes_"))) == 0, Z(s_len(e, st, I.ptr("decoded_target_"))) == 0)), ("its window belongs to it", isinstance(par, PtrV) and par.reg is q.reg)]]
PTRS = ("addr_cache_", "custom_code_table_", "custom_code_table_decoder_")
def custom_ready(e, st, p, sz):
    """after the sizes of a custom code table were read"""
    c, t, n = [owned(e, st, p, f) for f in PTRS]
    if isnull(c) or isnull(t) or isnull(n): return [("cache, table and nested decoder are created", False)]
    I = Obj(e, p, IMPL)
    return [("the cache sizes are the ones read", z3.And(geti(e, st, c, CACHE, "near_cache_size_") == sz.near, geti(e, st, c, CACHE, "same_cache_size_") == sz.same)), ("they fit", sz.fits),
            ("no table bytes yet", Z(s_len(e, st, I.ptr("custom_code_table_string_"))) == 0)] + zeroed(e, st, t) + nested_ok(e, st, n)
def untouched(e, s0, s1, p, but=()):
    I = Obj(e, p, IMPL)
    fs = [f for f in ("dictionary_size_", "planned_target_file_size_", "maximum_target_file_size_", "maximum_target_window_size_", "total_of_target_window_sizes_", "decoded_target_output_position_", "start_decoding_was_called_", "allow_vcd_target_", "vcdiff_version_code_") if f not in but]
    return [("the decoder's other state is kept", z3.And(*[I.int(s1, f) == I.int(s0, f) for f in fs]))]

class InitCustom(Contract):
    match = NS + IMPL + "::InitCustomCodeTable"; props = ("C10", "C11", "C02", "C04")
    def setup(self, e, st, case):
        d = mk_impl(e, st, "idle", header="none"); S = e.buffer(st, "delta", ro=True); p, l = e.fresh("sizes.pos"), e.fresh("sizes.end"); st.assume(p >= 0, p <= l, l <= Z(S.size))
        return [d["p"], PtrV(S, p, S.segs[0]), PtrV(S, l, S.segs[0])]
    def pre(self, e, st, a):
        if a[1].reg is not a[2].reg: return [("one buffer", False)]
        return [("a range of the input of at most INT_MAX bytes", z3.And(Z(a[1].off.z()) <= Z(a[2].off.z()), Z(a[2].off.z()) - Z(a[1].off.z()) <= INT_MAX)), ("no header yet", all(isnull(owned(e, st, a[0], f)) for f in PTRS))]
    def sz(self, e, st, a): return Sizes(arr_of(e, st, a[1]), Z(a[1].off.z()), Z(a[2].off.z()))
    def may_abort(self, e, st):
        """a debug build exits on sizes that do not fit (recorded finding, pinned by the repository's death tests)"""
        z = self.sz(e, e.entry, e.entry_args); return z3.And(z.parsed, z3.Not(z.fits))
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        r = Z(e.s(s1, ret)); z = self.sz(e, s0, a); P = Z(a[1].off.z())
        out = untouched(e, s0, s1, a[0]) + [("the result is the number of bytes of the two sizes, or why they cannot be read", r == z3.If(z.parsed, z3.If(z.fits, z.next - P, ERROR), z.fail)),
                                               ("the sizes lie within the input", z3.Implies(r >= 0, z3.And(P + r <= Z(a[2].off.z())))), ("success, error or end of data", r >= END)]
        if all(isnull(owned(e, s1, a[0], f)) for f in PTRS): return out + [("nothing is created on failure", r < 0)]
        return out + [("created only on success", r >= 0)] + [(n, z3.Implies(r >= 0, B(g))) for n, g in custom_ready(e, s1, a[0], z)]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        with Spec(e): z = self.sz(e, st, a)
        P = Z(a[1].off.z()); out = []
        # sizes that do not fit are an error (a debug build exits instead: recorded finding)
        bad = st.copy(); bad.assume(z3.Not(z3.And(z.parsed, z.fits)), z.fail >= END, z.fail <= ERROR); r = e.fresh_int(bad, 32, True, "ret"); bad.assume(r.t == z3.If(z.parsed, ERROR, z.fail))
        if e.feasible(bad): out.append((bad, r))
        st.assume(z.parsed, z.fits)
        if e.feasible(st):
            with Spec(e): mk_custom(e, st, a[0], z)
            r = e.fresh_int(st, 32, True, "ret"); st.assume(r.t == z.next - P, r.t >= 0, z.next <= Z(a[2].off.z())); out.append((st, r))
        return out

def mk_nested(e, st):
    """an arbitrary decoder for an embedded code table that nothing was fed to yet (the state nested_ok describes)"""
    d = mk_impl(e, st, "idle", header="none"); o, I, W = d["o"], d["I"], d["W"]; o.kind = "heap"; o.name = "nested_decoder"; g = e.global_region(st, DEFAULT)
    I.set("dictionary_ptr_", PtrV(g, 0)); I.set("dictionary_size_", IntV(1536, 64)); I.set("planned_target_file_size_", IntV(1536, 64)); I.set("vcdiff_version_code_", IntV(0, 8))
    for f in ("maximum_target_file_size_", "maximum_target_window_size_"): I.set(f, IntV(MAXDEF, 64))
    for f in ("total_of_target_window_sizes_", "decoded_target_output_position_"): I.set(f, IntV(0, 64))
    I.set("allow_vcd_target_", const_bool(True))
    for f in ("unparsed_bytes_", "decoded_target_"): o.icells[off(e, f) + 8] = (8, IntV(0, 64))
    for f in ("target_window_length_", "source_segment_length_", "expected_checksum_", "target_window_start_pos_"): W.set(f, IntV(0, 64))
    W.set("has_checksum_", const_bool(False)); W.set("reader_.code_table_data_", PtrV(g, 0)); o.icells[off(e, "delta_window_.reader_.non_default_code_table_data_")] = (8, NULLP)
    return d
def mk_fresh_cache(e, st, near, same):
    """a cache object whose Init was not called yet"""
    c = e.object(st, "cache", NS + CACHE, kind="heap"); mk_cache(e, st, c, 0); q = PtrV(c, 0)
    for f in ("near_addresses_", "same_addresses_"):
        o, _ = e.di.field(NS + CACHE, f)
        for k in (0, 8, 16): c.icells[o + k] = (8, OpaqueV("vector of a cache that was not initialised"))
    with Spec(e): st.assume(geti(e, st, q, CACHE, "near_cache_size_") == near, geti(e, st, q, CACHE, "same_cache_size_") == same)
    return q
def mk_custom(e, st, p, z):
    """the call-site form of custom_ready"""
    t = mk_table(e, st, "custom_table"); t.kind = "heap"; I = Obj(e, p, IMPL)
    for n, g in zeroed(e, st, PtrV(t, 0)): st.assume(g)
    for f, v in zip(PTRS, (mk_fresh_cache(e, st, z.near, z.same), PtrV(t, 0), mk_nested(e, st)["p"])): e.store(st, fld(e, p, IMPL, f)[0], ir.PTR, v)
    e.store(st, e_ptr(I.ptr("custom_code_table_string_"), 8), I64, IntV(0, 64))

class FileHeader:
    """the delta file header at P (limit L): RFC 3284 section 4.1, version 0 or 'S'"""
    def __init__(self, I, st, arr, P, L):
        b = lambda k: z3.Select(arr, P + k); d = L - P; self.version = b(3); self.d = d
        bad = z3.Or(z3.And(d >= 4, b(3) != 0, b(3) != ord("S")), z3.And(d >= 1, b(0) != 0xD6), z3.And(d >= 2, b(1) != 0xC3), z3.And(d >= 3, b(2) != 0xC4))
        self.custom = (b(4) / 2) % 2 == 1; self.sz = z = Sizes(arr, P + 5, L); nested = I.int(st, "planned_target_file_size_") != UNLIM
        self.result = z3.If(bad, ERROR, z3.If(d < 5, END, z3.If(b(4) % 2 == 1, ERROR, z3.If(z3.Not(self.custom), SUCCESS, z3.If(nested, ERROR, z3.If(z.parsed, z3.If(z.fits, SUCCESS, ERROR), z.fail))))))
        self.next = z3.If(self.custom, z.next, P + 5)
def default_ready(e, st, p):
    c, t, n = [owned(e, st, p, f) for f in PTRS]
    if isnull(c): return [("the address cache is created", False)]
    return [("the default cache sizes", z3.And(geti(e, st, c, CACHE, "near_cache_size_") == 4, geti(e, st, c, CACHE, "same_cache_size_") == 3)), ("no custom code table", isnull(t) and isnull(n))]
class ReadFileHeader(Contract):
    match = NS + IMPL + "::ReadDeltaFileHeader"; props = ("C10", "C11", "C02", "C04", "C03", "C06")
    cases = ("first", "already read", "already read, custom table pending", "already read, custom table in use")
    def setup(self, e, st, case):
        if "pending" in case: d = mk_life(e, st, "custom table pending", called=True)
        else: d = mk_impl(e, st, "idle", header="none" if case == "first" else "custom" if "use" in case else "default")
        return [d["p"], mk_input(e, st)]
    def pre(self, e, st, a):
        c = CView(e, st, a[1])
        return c.inv() + ([("at most INT_MAX bytes of input", c.L - c.P <= INT_MAX)] if c.same_buffer() else [])
    def modifies(self, e, st, a):
        return None if isnull(owned(e, st, a[0], "addr_cache_")) else []
    def post(self, e, s0, s1, a, ret):
        I = Obj(e, a[0], IMPL); r = Z(e.s(s1, ret)); p0, p1 = CView(e, s0, a[1]), CView(e, s1, a[1])
        if not isnull(owned(e, s0, a[0], "addr_cache_")): return [("a header that was read is not read again", r == SUCCESS), ("nothing is consumed", p1.P == p0.P if p1.pos.reg is p0.pos.reg else False)]
        if not p1.same_buffer() or p1.pos.reg is not p0.pos.reg: return [("position stays in the input", False)]
        h = FileHeader(I, s0, arr_of(e, s0, p0.pos), p0.P, p0.L)
        none = all(isnull(owned(e, s1, a[0], f)) for f in PTRS)
        v0, v1 = I.int(s0, "vcdiff_version_code_"), I.int(s1, "vcdiff_version_code_")
        out = untouched(e, s0, s1, a[0], but=("vcdiff_version_code_",)) + [("the header is accepted, refused or incomplete exactly as its bytes define", r == h.result),
               ("the input continues after the header", p1.P == z3.If(r == SUCCESS, h.next, p0.P)), ("the end of the input is kept", z3.And(p1.L == p0.L, p1.S == p0.S)),
               ("the header lies within the input", z3.Implies(r == SUCCESS, z3.And(p1.P >= p0.P + 5, p1.P <= p0.L))), ("success, error or end of data", z3.And(r >= END, r <= SUCCESS)),
               ("the format version is the one in the header", z3.Implies(r == SUCCESS, v1 == h.version)), ("no version is taken from too few bytes", z3.Implies(z3.And(r == END, h.d < 4), v1 == v0))]
        if none: return out + [("a header that was read creates the cache", r != SUCCESS)]
        out.append(("an unread header creates nothing", r == SUCCESS))
        if isnull(owned(e, s1, a[0], "custom_code_table_")): return out + [("a custom table is not ignored", z3.Implies(r == SUCCESS, z3.Not(h.custom)))] + [(n, z3.Implies(r == SUCCESS, B(g))) for n, g in default_ready(e, s1, a[0])]
        return out + [("a custom table is not invented", z3.Implies(r == SUCCESS, h.custom))] + [(n, z3.Implies(r == SUCCESS, B(g))) for n, g in custom_ready(e, s1, a[0], h.sz)]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        if not isnull(owned(e, st, a[0], "addr_cache_")): return IntV(SUCCESS, 32)
        stream_pre(e, st, a[1], self.label); s0 = st.snap(); out = []
        with Spec(e):
            I = Obj(e, a[0], IMPL); p0 = CView(e, st, a[1]); h = FileHeader(I, st, arr_of(e, st, p0.pos), p0.P, p0.L); v0 = I.int(st, "vcdiff_version_code_")
            v = e.fresh_int(st, 8, False, "version")
            for want in ("fail", "default", "custom"):
                s = st.copy()
                s.ghost["file_header"] = h.result; s.ghost["header_result"] = END if want == "fail" else SUCCESS
                s.assume({"fail": h.result != SUCCESS, "default": z3.And(h.result == SUCCESS, z3.Not(h.custom)), "custom": z3.And(h.result == SUCCESS, h.custom)}[want], p0.L >= p0.P)
                if not e.feasible(s): continue
                e.store(s, I.ptr("vcdiff_version_code_"), ir.IntTy(8), v)
                if want == "fail":
                    r = e.fresh_int(s, 32, True, "ret"); s.assume(r.t == h.result, z3.Implies(z3.And(r.t == END, h.d < 4), v.t == v0), r.t >= END, r.t <= ERROR)
                    out.append((s, r)); continue
                s.assume(v.t == h.version, h.next >= p0.P + 5, h.next <= p0.L)
                q = fld(e, a[1], CH, "position_")[0]; e.store(s, q, ir.PTR, PtrV(p0.pos.reg, h.next, p0.pos.seg))
                if want == "default": e.store(s, fld(e, a[0], IMPL, "addr_cache_")[0], ir.PTR, mk_fresh_cache(e, s, 4, 3))
                else: mk_custom(e, s, a[0], h.sz)
                stream_post(e, s0, s, a[1]); out.append((s, IntV(SUCCESS, 32)))
        return out

# ------------------------------------------------------------------ the representation invariant of a started decoder between two calls
DW = DecodeWindow()
def dec_shape(e, st, p):
    c, t, n = [owned(e, st, p, f) for f in PTRS]
    if isnull(c): return "new"
    if not isnull(n): return "pending"
    return "between" if idle_shape(e, st, Obj(e, PtrV(p.reg, p.off.c + win_off(e)), WIN)) else "inside"
def remaining(e, st, p):
    """target bytes of the window in progress that are not decoded yet"""
    if dec_shape(e, st, p) != "inside": return z3.IntVal(0)
    I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, p.off.c + win_off(e)), WIN); b, tl, T = target_of(e, st, I)
    return W.int(st, "target_window_length_") - (tl - W.int(st, "target_window_start_pos_"))
def counted(e, st, p):
    """number of target bytes decoded since StartDecoding"""
    return Obj(e, p, IMPL).int(st, "total_of_target_window_sizes_") - remaining(e, st, p)
def unparsed(e, st, p):
    q = Obj(e, p, IMPL).ptr("unparsed_bytes_"); b = s_ptr(e, st, q); return Z(s_len(e, st, q)), e.seg_arr(st, b.reg, b.reg.segs[0])
def default_table(e, st, p):
    tp = e.load(st, fld(e, p, IMPL, "delta_window_.reader_.code_table_data_")[0], ir.PTR); nd = e.load(st, fld(e, p, IMPL, "delta_window_.reader_.non_default_code_table_data_")[0], ir.PTR)
    return isinstance(tp, PtrV) and tp.reg is e.globals_r.get(DEFAULT) and tp.off.const() and tp.off.c == 0 and isnull(nd)
def pending_inv(e, st, p):
    I = Obj(e, p, IMPL); n = owned(e, st, p, "custom_code_table_decoder_"); t = owned(e, st, p, "custom_code_table_"); N = Obj(e, n, IMPL); c = owned(e, st, p, "addr_cache_"); sl = Z(s_len(e, st, I.ptr("custom_code_table_string_")))
    out = [("the table is alive", not isnull(t)), ("cache sizes leave room for the modes", geti(e, st, c, CACHE, "near_cache_size_") + geti(e, st, c, CACHE, "same_cache_size_") <= 254), ("only the outer file has a custom table", I.int(st, "planned_target_file_size_") == UNLIM),
           ("the nested decoder is not the outer one", n.reg is not p.reg),
           ("the table received so far is what the nested decoder decoded", z3.And(sl == counted(e, st, n), sl < 1536, N.int(st, "planned_target_file_size_") == 1536, N.int(st, "start_decoding_was_called_"))),
           ("no table within a table", dec_shape(e, st, n) != "pending")]
    return out + ([("nested decoder: " + x, g) for x, g in dec_inv(e, st, n)] if dec_shape(e, st, n) != "pending" else [])
def dec_inv(e, st, p):
    I = Obj(e, p, IMPL); w = PtrV(p.reg, p.off.c + win_off(e)); W = Obj(e, w, WIN); b, tl, T = target_of(e, st, I); sh = dec_shape(e, st, p); ul, U = unparsed(e, st, p)
    plan, tot = I.int(st, "planned_target_file_size_"), I.int(st, "total_of_target_window_sizes_"); dp = I.get(st, "dictionary_ptr_"); ds = I.int(st, "dictionary_size_")
    par = W.get(st, "parent_")
    out = [("windows so far are within the plan", z3.Or(plan == UNLIM, tot <= plan)), ("everything decoded was output", I.int(st, "decoded_target_output_position_") == tl), ("the window belongs to its decoder", isinstance(par, PtrV) and par.reg is p.reg),
           ("the dictionary is the one given", isinstance(dp, PtrV) and dp.reg is not None and z3.And(Z(dp.off.z()) == 0, ds == Z(dp.reg.size))), ("the target fits in its buffer", tl + 1 <= Z(b.reg.size))]
    if sh in ("new", "pending"):
        out += idle_inv(e, st, W, tl) + [("nothing decoded yet", z3.And(tl == 0, tot == 0, W.int(st, "source_segment_length_") == 0, W.int(st, "target_window_length_") == 0)), ("the default code table is in use", default_table(e, st, p))]
    if sh == "pending": out += pending_inv(e, st, p) + [("all input went to the nested decoder", ul == 0)]
    if sh == "between": out += idle_inv(e, st, W, tl) + DW.common(e, st, W, I, True) + [("a left-over segment length belongs to the window that was cut short", z3.Or(W.int(st, "source_segment_length_") == 0, z3.And(ul > 0, U[0] % 4 != 0)))]
    if sh == "inside": out += DW.win_inv(e, st, w, b) + DW.common(e, st, W, I, False)
    return out
def abstract_default(e, st):
    """the default code table as an arbitrary valid table; that kDefaultCodeTableData is valid is checked by its data contract"""
    g = e.global_region(st, DEFAULT); q = PtrV(g, 0)
    for s in g.segs: g.isegs[s.start] = e.fresh_arr("default_table")
    t = Tab(e, st, q); i = z3.Int("i!q")
    for a, b in ((t.inst1, t.wf1), (t.inst2, t.wf2)):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), b(i, 8)), patterns=[a[i]]))
        st.assume(z3.ForAll([i], z3.And(a[i] >= 0, a[i] <= COPY), patterns=[a[i]]))
def mk_decoder(e, st, case, called=None, nested=False):
    """a decoder in one of the shapes of dec_inv (which the precondition then assumes)"""
    g = e.global_region(st, DEFAULT)
    kw = dict(new=dict(window="idle", header="none"), pending=dict(window="idle", header="pending"), between=dict(window="idle", header="default"), custom=dict(window="idle", header="custom"))
    sh = case.split()[0]; d = mk_impl(e, st, called=called, **kw[sh]) if sh in kw else mk_impl(e, st, "interleaved", case.split()[-1], stale=True, called=called)
    o, I, W = d["o"], d["I"], d["W"]
    if sh in ("new", "pending"): W.set("reader_.code_table_data_", PtrV(g, 0)); o.icells[off(e, "delta_window_.reader_.non_default_code_table_data_")] = (8, NULLP)
    # the target grows in a loop
    src = W.get(st, "source_segment_ptr_") if sh == "inside" else None; old = d["T"]
    d["T"], d["tlen"] = str_init(e, st, o, off(e, "decoded_target_"), "target", unbounded=True)
    if src is not None and src.reg is old: W.set("source_segment_ptr_", PtrV(d["T"], src.off, d["T"].segs[0]))
    if sh in ("pending", "between", "custom"): o.icells[off(e, "addr_cache_")] = (8, mk_fresh_cache(e, st, e.fresh("near"), e.fresh("same")))
    if sh == "pending":
        str_init(e, st, o, off(e, "custom_code_table_string_"), "table_string", unbounded=True)
        n = mk_decoder(e, st, case.split(" ", 1)[1], called=True); n["o"].kind = "heap"; n["o"].name = "nested_decoder"; d["nested"] = n
        o.icells[off(e, "custom_code_table_decoder_")] = (8, n["p"])
    return d
class Stream:
    """the input of one call: bytes left over from earlier calls, then the new bytes"""
    def __init__(self, e, st, p, data, n):
        self.ul, self.U = unparsed(e, st, p); self.data, self.n = arr_of(e, st, data), n; self.total = self.ul + n
        self.cursor = ghost_cell(e, "stream.cursor", 0)
    def at(self, j): return z3.If(j < self.ul, self.U[j], self.data[j - self.ul])
class Bytes:
    def __init__(self, e, name):
        self.len = ghost_cell(e, name + ".length", 0); self.buf = Region(name, 1 << 62, "heap"); self.buf.segs.append(Seg(0, 1, 1 << 62)); self.buf.isegs[0] = e.fresh_arr(name)
class SView:
    """the same view of an OutputString<std::string>: the string it appends to"""
    def __init__(self, e, st, p):
        q = e.load(st, e_ptr(p, 8), ir.PTR); self.q = q; b = s_ptr(e, st, q); self.len = Z(s_len(e, st, q)); self.arr = e.seg_arr(st, b.reg, b.reg.segs[0]); self.b = b
def oview(e, st, p): return OView(e, st, p) if hasattr(p.reg, "gout") else SView(e, st, p)
def out_grow(e, st, p):
    """call-site effect on the output: arbitrary contents of arbitrary length"""
    n = e.fresh("output.len"); st.assume(n >= 0, n <= 1 << 61)
    if hasattr(p.reg, "gout"): g = p.reg.gout; gset(e, st, g.len, n); e.set_seg(st, g.buf, 0, e.fresh_arr("output")); return
    v = SView(e, st, p)
    if not getattr(v.b.reg, "unbounded", False): raise Unsupported("output string of bounded capacity")
    arr = e.fresh_arr("output"); i = z3.Int("i!q"); st.assume(z3.ForAll([i], z3.And(arr[i] >= 0, arr[i] <= 255), patterns=[arr[i]]))      # memory holds bytes
    e.set_seg(st, v.b.reg, v.b.reg.segs[0].start, arr); e.store(st, e_ptr(v.q, 8), I64, IntV(n, 64, 0, MAXSTR))
def reshape(e, st, p, case):
    """call-site effect on the decoder: any state of the given shape; what never changes is kept by the caller's equations"""
    I = Obj(e, p, IMPL); keep = {f: I.get(st, f) for f in ("dictionary_ptr_", "dictionary_size_", "planned_target_file_size_", "maximum_target_file_size_", "maximum_target_window_size_", "allow_vcd_target_")}
    sh0 = dec_shape(e, st, p); ptrs = {f: owned(e, st, p, f) for f in PTRS + ("delta_window_.reader_.non_default_code_table_data_", "delta_window_.reader_.code_table_data_")}
    ts = {f: e.load(st, I.ptr(f), ir.PTR) for f in ("unparsed_bytes_", "decoded_target_", "custom_code_table_string_")}
    d = mk_decoder(e, st, case, called=True); c = st.wrc(p.reg)
    for o, x in list(d["o"].icells.items()): c.cells[o] = x
    e.note_write(st, p.reg, ("all",))
    def put(f, v): e.store(st, fld(e, p, IMPL, f)[0], fty(e, fld(e, p, IMPL, f)[1]) or ir.PTR, v)
    put("delta_window_.parent_", p)
    for f, v in keep.items(): put(f, v)
    if sh0 in ("between", "inside"):
        for f, v in ptrs.items(): e.store(st, fld(e, p, IMPL, f)[0], ir.PTR, v)
        q = ptrs["addr_cache_"]
        for f, k in (("near_addresses_", geti(e, st, q, CACHE, "near_cache_size_")), ("same_addresses_", geti(e, st, q, CACHE, "same_cache_size_") * 256)):
            v = fld(e, q, CACHE, f)[0]; vec_kill(e, st, v); vec_set(e, st, v, k, e.fresh_arr("addresses"))
        put("delta_window_.reader_.code_table_data_", ptrs["delta_window_.reader_.code_table_data_"])
    else:
        # the tables of the template belong to it
        pass
    sp = d["W"].get(st, "source_segment_ptr_")
    if isinstance(sp, PtrV) and sp.reg is d["D"]: put("delta_window_.source_segment_ptr_", PtrV(keep["dictionary_ptr_"].reg, sp.off, None if len(keep["dictionary_ptr_"].reg.segs) != 1 else keep["dictionary_ptr_"].reg.segs[0]))
    return d
class DecodeChunk(Contract):
    match = NS + IMPL + "::DecodeChunk"; props = ("C04", "C02", "C03", "C05", "C06", "C10", "C07")
    cases = ("new", "pending new", "between windows", "custom table in use", "inside a window with source dictionary", "inside a window with source target", "inside a window with source none")
    cost = 9
    def setup(self, e, st, case):
        abstract_default(e, st)
        d = mk_decoder(e, st, case, called=None); D = e.buffer(st, "data", ro=True); self.out = Out(e, st); self.d = d
        data = PtrV(D, 0, D.segs[0]); self.stream = Stream(e, st, d["p"], data, Z(D.size)); self.decoded = Bytes(e, "decoded"); self.out0 = gget(e, st, self.out.len)
        return [d["p"], data, IntV(Z(D.size), 64, 0, U64), self.out.p]
    def may_abort(self, e, st):
        """a debug build exits when StartDecoding was not called"""
        return z3.Not(Obj(e, e.entry_args[0], IMPL).int(e.entry, "start_decoding_was_called_"))
    def pre(self, e, st, a):
        ul, U = unparsed(e, st, a[0]); I = Obj(e, a[0], IMPL)
        if dec_shape(e, st, a[0]) == "pending": ul = ul + unparsed(e, st, owned(e, st, a[0], "custom_code_table_decoder_"))[0]
        return [("at most INT_MAX bytes of input at a time", ul + Z(e.u(st, a[2])) <= INT_MAX)] + [(n, z3.Implies(I.int(st, "start_decoding_was_called_"), B(g))) for n, g in dec_inv(e, st, a[0])]
    def modifies(self, e, st, a): return None
    def peel(self, e, st): return not idle_shape(e, st, Obj(e, PtrV(e.entry_args[0].reg, win_off(e)), WIN))
    def unroll(self, e, st, f, label):
        # a window in progress is resumed in the first iteration; every later iteration starts between windows
        return 2 if e.entry_args and self.peel(e, st) else 0
    def loop_candidates(self, e, L):
        a = e.entry_args; p = a[0]; I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, win_off(e)), WIN); G, S = self.decoded, self.stream; i = z3.Int("i!q")
        o0 = OView(e, e.entry, a[3])
        def tl(st):
            b, n, T = target_of(e, st, I); return n, T
        out = []
        for k in range(6): out.append(("!idle %d" % k, lambda st, k=k: idle_inv(e, st, W, tl(st)[0])[k][1]))
        def opos(st): return I.int(st, "decoded_target_output_position_")
        def ol(st): return OView(e, st, a[3]).len
        c0 = counted(e, e.entry, p)
        out += [("!plan", lambda st: z3.Or(I.int(st, "planned_target_file_size_") == UNLIM, I.int(st, "total_of_target_window_sizes_") <= I.int(st, "planned_target_file_size_"))),
                ("!segment length", lambda st: W.int(st, "source_segment_length_") == 0),
                ("!output position", lambda st: z3.And(opos(st) <= tl(st)[0], tl(st)[0] + 1 <= 2 * MAXSTR)),
                ("!output only grows", lambda st: ol(st) >= o0.len),
                ("!earlier output kept", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o0.len), OView(e, st, a[3]).arr[i] == o0.arr[i]), patterns=[OView(e, st, a[3]).arr[i]])),
                ("!decoded so far", lambda st: gget(e, st, G.len) == ol(st) - o0.len + tl(st)[0] - opos(st)),
                ("!counted", lambda st: gget(e, st, G.len) == I.int(st, "total_of_target_window_sizes_") - c0),
                ("!output is what was decoded", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= o0.len, i < ol(st)), OView(e, st, a[3]).arr[i] == e.seg_arr(st, G.buf, G.buf.segs[0])[i - o0.len]), patterns=[OView(e, st, a[3]).arr[i]])),
                ("!the target holds the rest", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= opos(st), i < tl(st)[0]), tl(st)[1][i] == e.seg_arr(st, G.buf, G.buf.segs[0])[i - opos(st) + ol(st) - o0.len]), patterns=[tl(st)[1][i]]))]
        for r in L.locals:
            for o, (sz, v) in L.entry.rc(r).cells.items():
                if isinstance(v, PtrV) and v.reg is not None and v.reg.segs and (r, ("cell", o, 8)) in L.M:
                    def pos(st, r=r, o=o, v=v):
                        x = e.cellval(st, r, o)
                        if not isinstance(x, PtrV) or x.reg is not v.reg: raise Unsupported("position")
                        return Z(x.off.z())
                    def left(st, r=r):
                        c = CView(e, st, PtrV(r, 0))
                        if not c.same_buffer(): raise Unsupported("position")
                        return stale_ok(st, W, arr_of(e, st, c.pos), c.P, c.L)
                    if o == fld(e, PtrV(r, 0), CH, "position_")[0].off.c: out.append(("!segment length of this window", left))
                    out.append(("!cursor", lambda st, pos=pos: pos(st) - gget(e, st, S.cursor) == pos(L.entry) - gget(e, L.entry, S.cursor)))
        return out
    def post(self, e, s0, s1, a, ret): return self.ensures(e, s0, s1, a, ret, self.stream, self.decoded, False)
    def ensures(self, e, s0, s1, a, ret, S, G, site):
        p = a[0]; I = Obj(e, p, IMPL); b = B(ret.b); o0, o1 = oview(e, s0, a[3]), oview(e, s1, a[3]); i = z3.Int("i!q")
        ul, U = unparsed(e, s1, p); g = e.seg_arr(s1, G.buf, G.buf.segs[0]); gl = gget(e, s1, G.len); started = I.int(s0, "start_decoding_was_called_")
        out = [("earlier output is kept", z3.And(o1.len >= o0.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o0.len), o1.arr[i] == o0.arr[i]), patterns=[o1.arr[i]]))),
               ("what is output is what the windows decoded, in order and nothing else", z3.And(o1.len - o0.len <= gl, z3.ForAll([i], z3.Implies(z3.And(i >= o0.len, i < o1.len), o1.arr[i] == g[i - o0.len]), patterns=[o1.arr[i]])))]
        out += [("without StartDecoding nothing is decoded", z3.Implies(z3.Not(started), z3.Not(b)))] + kept(e, s0, s1, p)
        fresh = fresh_state(e, s1, p)
        if all(B(x).eq(z3.BoolVal(True)) for n, x in fresh if isinstance(x, bool)): out += [("a failure ends the session: " + n, z3.Implies(z3.Not(b), B(x))) for n, x in fresh]
        else: out.append(("a failure ends the session", b))
        sh0, sh1 = dec_shape(e, s0, p), dec_shape(e, s1, p)
        ok = [(n, g_) for n, g_ in dec_inv(e, s1, p)]
        ok += [("still started", I.int(s1, "start_decoding_was_called_")), ("the plan is kept", I.int(s1, "planned_target_file_size_") == I.int(s0, "planned_target_file_size_")),
               ("everything decoded is output", o1.len - o0.len == gl), ("as many bytes are output as windows were decoded", o1.len - o0.len == counted(e, s1, p) - counted(e, s0, p)),
               ("exactly the unconsumed bytes are kept for the next call", z3.And(ul == S.total - gget(e, s1, S.cursor), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ul), U[i] == S.at(S.total - ul + i)), patterns=[U[i]]))),
               ("decoding stops only where more input is needed or the plan is met", site or z3.Or(ul == 0, s1.ghost.get("window_result") == END, s1.ghost.get("header_result") == END, z3.And(I.int(s1, "planned_target_file_size_") != UNLIM, I.int(s1, "total_of_target_window_sizes_") == I.int(s1, "planned_target_file_size_"))))]
        dp0, dp1 = I.get(s0, "dictionary_ptr_"), I.get(s1, "dictionary_ptr_")
        ok.append(("the dictionary is kept", isinstance(dp1, PtrV) and dp1.reg is dp0.reg and dp0.reg is not None and I.int(s1, "dictionary_size_") == I.int(s0, "dictionary_size_")))
        if sh0 == "new":
            h = s1.ghost.get("file_header")
            if site: pass
            elif h is None: ok.append(("the header is examined first", False))
            else: ok += [("only a valid header is accepted", h != ERROR), ("an incomplete header is waited for", z3.Implies(h == END, z3.And(ul == S.total, gl == 0))), ("a header is read exactly when it is complete", (h == SUCCESS) == z3.BoolVal(sh1 != "new"))]
        elif sh1 == "new" or (sh1 == "pending" and sh0 != "pending"): ok.append(("a header that was read stays read", False))
        return out + [(n, z3.Implies(b, B(x))) for n, x in ok]
    def shapes(self, e, st, p):
        """shapes a successful call can leave; a decoder of an embedded table (one with a planned size) never has a table of its own"""
        inside = ["inside " + x for x in ("dictionary", "target", "none")]
        sh = dec_shape(e, st, p)
        if sh in ("between", "inside"): return ["between"] + inside
        if sh == "pending": raise Unsupported("DecodeChunk applied to a decoder with a pending table")
        plan = Obj(e, p, IMPL).int(st, "planned_target_file_size_")
        return ["new", "between"] + inside + ([] if e.quick(st, plan != UNLIM) else ["custom", "pending new", "pending between"] + ["pending " + x for x in inside])
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a) + [("started", Obj(e, a[0], IMPL).int(st, "start_decoding_was_called_"))]
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        with Spec(e):
            s0 = st.snap(); S = Stream(e, st, a[0], a[1], Z(e.u(st, a[2]))); out = []
            for case in [None] + self.shapes(e, st, a[0]):
                s = st.copy(); out_grow(e, s, a[3]); G = Bytes(e, "decoded"); gset(e, s, G.len, e.fresh("decoded.len")); cur = e.fresh("consumed"); gset(e, s, S.cursor, cur); s.assume(gget(e, s, G.len) >= 0, cur >= 0, cur <= S.total)
                if case is None:
                    ul = e.fresh("unparsed.len"); s.assume(ul >= 0, ul <= MAXSTR); tl = e.fresh("target.len"); s.assume(tl >= 0, tl <= MAXSTR); I = Obj(e, a[0], IMPL)
                    e.store(s, e_ptr(I.ptr("unparsed_bytes_"), 8), I64, IntV(ul, 64, 0, MAXSTR)); e.store(s, e_ptr(I.ptr("decoded_target_"), 8), I64, IntV(tl, 64, 0, MAXSTR)); reset_effect(e, s, a[0])
                else: reshape(e, s, a[0], case)
                ret = BoolV(case is not None)
                for n, g in self.ensures(e, s0, s, a, ret, S, G, True): s.assume(B(g))
                s.ghost["nested_decoded"] = (S, G)
                if case is not None:
                    s.assume(z3.Implies(gget(e, s, G.len) > 0, S.total - cur <= S.n)); e.assumed.add("unchecked: a DecodeChunk call that decodes at least one byte consumes all bytes left over from earlier calls")
                if e.feasible(s): out.append((s, ret))
        return out
class ReadCustom(Contract):
    match = NS + IMPL + "::ReadCustomCodeTable"; props = ("C11", "C04", "C02", "C03", "C06", "C10")
    cases = ("between windows", "custom table in use") + tuple("pending " + x for x in ("new", "between", "inside dictionary", "inside target", "inside none"))
    inline_contracts = (NS + "VCDiffCodeTableReader::UseCodeTable",)
    cost = 4
    def setup(self, e, st, case):
        abstract_default(e, st); d = mk_decoder(e, st, case, called=True); return [d["p"], mk_input(e, st)]
    def pre(self, e, st, a):
        c = CView(e, st, a[1]); I = Obj(e, a[0], IMPL)
        if not c.same_buffer(): return c.inv()
        if dec_shape(e, st, a[0]) != "pending": return c.inv()
        n = owned(e, st, a[0], "custom_code_table_decoder_")
        return c.inv() + pending_inv(e, st, a[0]) + [("at most INT_MAX bytes of input at a time", c.L - c.P + unparsed(e, st, n)[0] <= INT_MAX), ("the default code table is in use", default_table(e, st, a[0]))]
    def modifies(self, e, st, a): return None if dec_shape(e, st, a[0]) == "pending" else []
    def post(self, e, s0, s1, a, ret):
        p = a[0]; I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, p.off.c + win_off(e)), WIN); r = Z(e.s(s1, ret)); c0, c1 = CView(e, s0, a[1]), CView(e, s1, a[1]); i = z3.Int("i!q")
        if dec_shape(e, s0, p) != "pending": return [("nothing to read without a pending table", r == SUCCESS)]
        if not c1.same_buffer() or c1.pos.reg is not c0.pos.reg: return [("position stays in the input", False)]
        out = untouched(e, s0, s1, p) + [("success, error or end of data", z3.And(r >= END, r <= SUCCESS)), ("the position only moves forward", z3.And(c1.P >= c0.P, c1.P <= c0.L, c1.L == c0.L, c1.S == c0.S)),
               ("an incomplete table takes all input", z3.Implies(r == END, c1.P == c0.L)), ("the cache is kept", owned(e, s0, p, "addr_cache_").reg is owned(e, s1, p, "addr_cache_").reg)]
        sh = dec_shape(e, s1, p)
        if sh == "pending":
            out.append(("a table that was read is in use", r != SUCCESS))
            t0, n0 = owned(e, s0, p, "custom_code_table_"), owned(e, s0, p, "custom_code_table_decoder_")
            return out + [(n, z3.Implies(r == END, B(g))) for n, g in pending_inv(e, s1, p) + [("the default code table is still in use", default_table(e, s1, p))]]
        out.append(("the nested decoder is dropped only when the table is complete", r != END))
        ok = DW.common(e, s1, W, I, True)
        t = Tab(e, s1, DW.table(e, s1, W)); b = s_ptr(e, s1, I.ptr("custom_code_table_string_")); S = e.seg_arr(s1, b.reg, b.reg.segs[0])
        for k, n in enumerate(("inst1", "inst2", "size1", "size2", "mode1", "mode2")):
            o, _ = e.di.field(NS + TABLE, n); x = getattr(t, n)
            ok.append(("the table in use is the decoded one: " + n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), x[i] == S[o + i]), patterns=[x[i]])))
        g = s1.ghost.get("nested_decoded")
        if g is None: ok.append(("the table is decoded", False))
        else:
            left = g[0].total - gget(e, s1, g[0].cursor); ok.append(("the input continues where the table ends", c1.P == c0.L - left))
        return out + [(n, z3.Implies(r == SUCCESS, B(g))) for n, g in ok]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        if dec_shape(e, st, a[0]) != "pending": return IntV(SUCCESS, 32)
        stream_pre(e, st, a[1], self.label); s0 = st.snap(); out = []; p = a[0]
        with Spec(e):
            I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, p.off.c + win_off(e)), WIN); n0 = owned(e, st, p, "custom_code_table_decoder_"); c0 = CView(e, st, a[1])
            for want in ("error", "used") + tuple("pending " + x for x in ("new", "between", "inside dictionary", "inside target", "inside none")):
                s = st.copy(); x = e.fresh("input.pos"); s.assume(x >= c0.P, x <= c0.L); e.store(s, fld(e, a[1], CH, "position_")[0], ir.PTR, PtrV(c0.pos.reg, x, c0.pos.reg.segs[0])); s.dead = s.dead | {n0.reg.id}
                n = e.fresh("table_string.len"); s.assume(n >= 0, n <= MAXSTR); e.store(s, e_ptr(I.ptr("custom_code_table_string_"), 8), I64, IntV(n, 64, 0, MAXSTR))
                if want in ("error", "used"):
                    e.store(s, fld(e, p, IMPL, "custom_code_table_decoder_")[0], ir.PTR, NULLP)
                    if want == "used":
                        t = mk_table(e, s, "reader.table"); t.kind = "heap"; e.store(s, W.ptr("reader_.code_table_data_"), ir.PTR, PtrV(t, 0)); e.store(s, fld(e, p, IMPL, "delta_window_.reader_.non_default_code_table_data_")[0], ir.PTR, PtrV(t, 0))
                        s.ghost["nested_decoded"] = (Stream(e, st, n0, c0.pos, c0.L - c0.P), None)
                else:
                    d = mk_decoder(e, s, want.split(" ", 1)[1], called=True); d["o"].kind = "heap"; d["o"].name = "nested_decoder"; e.store(s, fld(e, p, IMPL, "custom_code_table_decoder_")[0], ir.PTR, d["p"])
                ret = IntV({"error": ERROR, "used": SUCCESS}.get(want, END), 32)
                for nm, g in self.post(e, s0, s, a, ret):
                    if not nm.startswith(("the table in use is the decoded one", "the input continues where")): s.assume(B(g))
                if not e.feasible(s): continue
                s.ghost["header_result"] = ret.t
                if want != "error": stream_post(e, s0, s, a[1])
                out.append((s, ret))
        return out
class OneShot(Contract):
    """the one-shot interface: any previous use left the decoder as good as new"""
    match = NS + "VCDiffDecoder::DecodeToInterface"; props = ("C02", "C03", "C04", "C06")
    def setup(self, e, st, case):
        abstract_default(e, st); d = mk_decoder(e, st, "new", called=False); self.d = d; d["o"].icells[off(e, "dictionary_ptr_")] = (8, NULLP)
        o = e.object(st, "oneshot", NS + "VCDiffDecoder"); q = fld(e, PtrV(o, 0), "VCDiffDecoder", "decoder_.impl_")[0]; o.icells[q.off.c] = (8, d["p"])
        D = e.buffer(st, "new_dictionary", ro=True); s = Region("encoding", 32, "stack"); str_init(e, st, s, 0, "encoding", unbounded=True); s.ro = True
        self.out = Out(e, st); self.out.may_clear = True
        return [PtrV(o, 0), PtrV(D, 0, D.segs[0]), IntV(Z(D.size), 64, 0, U64), PtrV(s, 0), self.out.p]
    def impl(self, e, st, a): return e.load(st, fld(e, a[0], "VCDiffDecoder", "decoder_.impl_")[0], ir.PTR)
    def pre(self, e, st, a): return [("decoder: " + n, g) for n, g in fresh_state(e, st, self.impl(e, st, a))] + [("at most INT_MAX bytes of input", Z(s_len(e, st, a[3])) <= INT_MAX)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        p = self.impl(e, s1, a); b = B(ret.b); o1 = OView(e, s1, a[4]); i = z3.Int("i!q"); n = s1.ghost.get("nested_decoded")
        if p.reg is not self.impl(e, s0, a).reg: return [("the decoder is kept", False)]
        if n is None: return [("the encoding is decoded", False)]
        S, G = n; g = e.seg_arr(s1, G.buf, G.buf.segs[0]); gl = gget(e, s1, G.len); enc = s_ptr(e, s0, a[3])
        return [("the target holds only what the windows decode to, nothing from before", z3.And(o1.len >= 0, o1.len <= gl, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o1.len), o1.arr[i] == g[i]), patterns=[o1.arr[i]]))),
                ("on success all of it", z3.Implies(b, o1.len == gl)), ("success means all input was consumed", z3.Implies(b, z3.And(S.total == Z(s_len(e, s0, a[3])), gget(e, s1, S.cursor) == S.total))),
                ("what is decoded is the encoding", z3.And(S.ul == 0, S.data.eq(e.seg_arr(s0, enc.reg, enc.reg.segs[0]))))] + [("as good as new afterwards: " + n_, g_) for n_, g_ in fresh_state(e, s1, p)] + kept(e, s0, s1, p)
CONTRACTS = [OneShot(), InitCustom(), ReadFileHeader(), ReadCustom(), DecodeChunk()]
