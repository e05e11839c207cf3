"""Decoder life cycle, limits, output, window header and window decoding (properties C02-C06, C10)."""
from .common import *
from .decoder import *
from .decoder import off, win_off
from . import addrcache, decodetable
from .codetable import DEFAULT
from .headerparser import seg_chain, PView
from .varint import VR, VN
SECTIONS = ("instructions_and_sizes_", "data_for_add_and_run_", "addresses_for_copy_")
OUTVT = "_ZTVN11open_vcdiff12OutputStringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEE"
I64 = ir.IntTy(64)

# ------------------------------------------------------------------ limits (C05)
def exceeds(I, st, w):
    """a window of w target bytes breaks one of the three limits"""
    plan, tot = I.int(st, "planned_target_file_size_"), I.int(st, "total_of_target_window_sizes_")
    return z3.Or(w > I.int(st, "maximum_target_window_size_"), z3.And(plan != UNLIM, w + tot > plan), z3.And(w + tot > I.int(st, "maximum_target_file_size_"), w > 0))
class WouldExceed(Contract):
    match = NS + IMPL + "::TargetWindowWouldExceedSizeLimits"
    props = ("C05", "C10")
    def setup(self, e, st, case):
        d = mk_impl(e, st, called=None); return [d["p"], e.fresh_int(st, 64, False, "window_size")]
    def pre(self, e, st, a):
        I = Obj(e, a[0], IMPL)
        return [("windows so far are within the plan", z3.Or(I.int(st, "planned_target_file_size_") == UNLIM, I.int(st, "total_of_target_window_sizes_") <= I.int(st, "planned_target_file_size_")))]
    def post(self, e, s0, s1, a, ret):
        return [("true exactly when the window size or the total would exceed a limit", B(ret.b) == exceeds(Obj(e, a[0], IMPL), s0, Z(e.u(s0, a[1]))))]

DEC = "VCDiffStreamingDecoder"
def mk_public(e, st, **kw):
    d = mk_impl(e, st, **kw); o = e.object(st, "streaming_decoder", NS + DEC); setinit(e, o, 0, DEC, "impl_", d["p"]); d["pub"] = PtrV(o, 0); return d
class SetMaxWindow(Contract):
    match = NS + DEC + "::SetMaximumTargetWindowSize"; props = ("C05",); field = "maximum_target_window_size_"; limit = INT_MAX
    def setup(self, e, st, case):
        d = mk_public(e, st, called=None); return [d["pub"], e.fresh_int(st, 64, False, "new_maximum")]
    def modifies(self, e, st, a): return [cell(e, getv(e, st, a[0], DEC, "impl_"), IMPL, self.field)]
    def post(self, e, s0, s1, a, ret):
        I = Obj(e, getv(e, s0, a[0], DEC, "impl_"), IMPL); n = Z(e.u(s0, a[1])); b = B(ret.b)
        out = [("an accepted limit is in force", z3.Implies(b, I.int(s1, self.field) == n)), ("a refused limit changes nothing", z3.Implies(z3.Not(b), I.int(s1, self.field) == I.int(s0, self.field)))]
        return out + [("accepted exactly up to the documented bound", b == (n <= self.limit))]
class SetMaxFile(SetMaxWindow):
    match = NS + DEC + "::SetMaximumTargetFileSize"; field = "maximum_target_file_size_"; limit = U64

# ------------------------------------------------------------------ output (C04, C05)
class Out:
    """the caller's output behind OutputStringInterface: what was appended so far is the ghost sequence buf[0, len)"""
    def __init__(self, e, st):
        self.len = ghost_cell(e, "output.length", e.fresh_int(st, 64, True, "output.length"))
        st.assume(gget(e, st, self.len) >= 0, gget(e, st, self.len) <= 1 << 61)
        self.buf = Region("output", 1 << 62, "heap"); self.buf.segs.append(Seg(0, 1, 1 << 62)); self.buf.isegs[0] = e.fresh_arr("output")
        self.p = mk_iface(e, st, "output_string", OUTVT, {"append": self.append, "ReserveAdditionalBytes": self.reserve, "clear": self.clear, "size": self.size, "push_back": self.push})
        self.p.reg.gout = self
    def append(self, e, st, a):
        n = Z(e.u(st, a[2])); check_range(e, st, a[1], n, "read (output append source)")
        l = gget(e, st, self.len); st.assume(l + n <= 1 << 61)
        if isinstance(a[1], PtrV) and a[1].reg is not None: copy_into(e, st, PtrV(self.buf, l, self.buf.segs[0]), a[1], n)
        gset(e, st, self.len, l + n); return a[0]
    def push(self, e, st, a):
        l = gget(e, st, self.len); st.assume(l + 1 <= 1 << 61)
        e.store(st, PtrV(self.buf, l, self.buf.segs[0]), ir.IntTy(8), a[1]); gset(e, st, self.len, l + 1); return None
    def reserve(self, e, st, a):
        # std::string::reserve throws on absurd sizes
        e.oblige(st, Z(e.u(st, a[1])) <= MAXSTR + (1 << 32), "pre", "ReserveAdditionalBytes asks for a possible size"); return None
    def clear(self, e, st, a):
        if not getattr(self, "may_clear", False): e.oblige(st, False, "pre", "the decoder never clears the caller's output")
        gset(e, st, self.len, 0); return None
    def size(self, e, st, a): return IntV(gget(e, st, self.len), 64, 0, (1 << 63) - 1)
class OView:
    def __init__(self, e, st, p):
        g = p.reg.gout; self.len = gget(e, st, g.len); self.arr = e.seg_arr(st, g.buf, g.buf.segs[0]); self.g = g
    def mods(self): return [(self.g.len, ("cell", 0, 8)), (self.g.buf, ("seg", 0))]
    def extended(self, o1, n, byte):
        """o1 is this output followed by n bytes, the k-th being byte(k)"""
        i = z3.Int("i!q"); k = z3.Int("k!q")
        return [("the output grows by exactly the bytes decoded", o1.len == self.len + n),
                ("earlier output is kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.len), o1.arr[i] == self.arr[i]), patterns=[o1.arr[i]])),
                ("the bytes appended are the decoded ones, in order", z3.ForAll([k], z3.Implies(z3.And(k >= self.len, k < self.len + n), o1.arr[k] == byte(k - self.len)), patterns=[o1.arr[k]]))]

class AppendNew(Contract):
    match = NS + IMPL + "::AppendNewOutputText"; props = ("C04", "C02", "C05")
    cases = ("between windows", "inside a window")
    def setup(self, e, st, case):
        d = mk_impl(e, st, "idle") if case == "between windows" else mk_impl(e, st, "interleaved", "dictionary", stale=True)
        self.out = Out(e, st); return [d["p"], self.out.p]
    def parts(self, e, st, a):
        I = Obj(e, a[0], IMPL); W = Obj(e, PtrV(a[0].reg, a[0].off.c + win_off(e)), WIN); tp = I.ptr("decoded_target_")
        return I, W, s_ptr(e, st, tp), Z(s_len(e, st, tp)), I.int(st, "decoded_target_output_position_")
    def pre(self, e, st, a):
        I, W, b, n, pos = self.parts(e, st, a)
        ts, tw = W.int(st, "target_window_start_pos_"), W.int(st, "target_window_length_")
        return [("output position within the decoded target", pos <= n), ("the target fits in its buffer", n + 1 <= Z(b.reg.size)),
                ("the window in progress is within its length", z3.And(ts <= n, tw <= INT_MAX, z3.Or(tw == 0, n - ts <= tw)))]
    def modifies(self, e, st, a): return OView(e, st, a[1]).mods() + [cell(e, a[0], IMPL, "decoded_target_output_position_")]
    def post(self, e, s0, s1, a, ret):
        I, W, b, n, pos = self.parts(e, s0, a); T = e.seg_arr(s0, b.reg, b.reg.segs[0])
        return OView(e, s0, a[1]).extended(OView(e, s1, a[1]), n - pos, lambda k: T[pos + k]) + [("everything decoded so far has been output", I.int(s1, "decoded_target_output_position_") == n)]
class Flush(AppendNew):
    match = NS + IMPL + "::FlushDecodedTarget"; cases = ("between windows",)
    def modifies(self, e, st, a):
        tp = Obj(e, a[0], IMPL).ptr("decoded_target_"); w = PtrV(a[0].reg, a[0].off.c + win_off(e))
        return AppendNew.modifies(self, e, st, a) + [(tp.reg, ("cell", tp.off.c + 8, 8)), cell(e, w, WIN, "target_window_start_pos_")]
    def post(self, e, s0, s1, a, ret):
        I, W, b, n, pos = self.parts(e, s0, a); T = e.seg_arr(s0, b.reg, b.reg.segs[0])
        return OView(e, s0, a[1]).extended(OView(e, s1, a[1]), n - pos, lambda k: T[pos + k]) + \
            [("the target is empty and the next window starts at 0", z3.And(Z(s_len(e, s1, I.ptr("decoded_target_"))) == 0, I.int(s1, "decoded_target_output_position_") == 0, W.int(s1, "target_window_start_pos_") == 0))]

# ------------------------------------------------------------------ life cycle (C06)
def owned_regions(e, st, p):
    """heap objects the decoder object at p owns, other than string buffers"""
    I = Obj(e, p, IMPL); out = []
    for f in ("addr_cache_", "custom_code_table_", "custom_code_table_decoder_", "delta_window_.reader_.non_default_code_table_data_"):
        q = e.load(st, fld(e, p, IMPL, f)[0], ir.PTR)
        if isinstance(q, PtrV) and q.reg is not None: out.append((f, q))
    return out
def fresh_state(e, st, p, keep_target=True):
    """the state a decoder has before StartDecoding: list of (name, formula)"""
    I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, p.off.add(win_off(e)), None), WIN)
    def isnull(q): return isinstance(q, PtrV) and q.reg is None
    tl = Z(s_len(e, st, I.ptr("decoded_target_")))
    tp = e.load(st, W.ptr("reader_.code_table_data_"), ir.PTR)
    out = [("not started", z3.Not(I.int(st, "start_decoding_was_called_"))), ("no dictionary", isnull(I.get(st, "dictionary_ptr_"))), ("dictionary size 0", I.int(st, "dictionary_size_") == 0),
           ("no version", I.int(st, "vcdiff_version_code_") == 0), ("no planned size", I.int(st, "planned_target_file_size_") == UNLIM), ("no windows counted", I.int(st, "total_of_target_window_sizes_") == 0),
           ("nothing output", I.int(st, "decoded_target_output_position_") == 0),
           ("no window in progress", z3.And(z3.Not(W.int(st, "found_header_")), W.int(st, "target_window_length_") == 0, W.int(st, "source_segment_length_") == 0, W.int(st, "interleaved_bytes_expected_") == 0,
                                            z3.Not(W.int(st, "has_checksum_")), W.int(st, "expected_checksum_") == 0, W.int(st, "target_window_start_pos_") == tl)),
           ("no source segment", isnull(W.get(st, "source_segment_ptr_"))), ("no sections", all(isnull(W.get(st, n + ".parseable_chunk_")) for n in SECTIONS)),
           ("no owned objects", not owned_regions(e, st, p)),
           ("the default code table is in use", isinstance(tp, PtrV) and tp.reg is e.globals_r.get(DEFAULT) and tp.off.const() and tp.off.c == 0)]
    return out
def kept(e, s0, s1, p, fields=("maximum_target_file_size_", "maximum_target_window_size_", "allow_vcd_target_")):
    I = Obj(e, p, IMPL); return [("%s is kept" % f, I.int(s1, f) == I.int(s0, f)) for f in fields]
LIFE = {"new": dict(window="idle", header="none"), "header read": dict(window="idle", header="default"), "custom table read": dict(window="idle", header="custom"),
        "inside a window": dict(window="interleaved", source="dictionary", header="default", stale=True),
        "failed inside a window": dict(window="sections", source="target", header="custom", stale=True),
        "custom table pending": dict(window="idle", header="pending"), "custom table pending, inside its window": dict(window="idle", header="pending")}
def mk_life(e, st, case, called=None):
    kw = dict(LIFE[case]); d = mk_impl(e, st, called=called, **kw)
    if kw["header"] == "pending":
        n = mk_impl(e, st, "idle", header="default") if "inside" not in case else mk_impl(e, st, "interleaved", "dictionary", stale=True); n["o"].kind = "heap"; n["o"].name = "nested_decoder"
        d["o"].icells[off(e, "custom_code_table_decoder_")] = (8, n["p"]); d["nested"] = n
    return d
def reset_effect(e, st, p):
    """the call-site form of Reset: frees what the decoder owns and assigns the initial values"""
    I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, p.off.add(win_off(e)), None), WIN)
    for f, q in owned_regions(e, st, p): st.dead = st.dead | {q.reg.id}
    for f in ("addr_cache_", "custom_code_table_", "custom_code_table_decoder_", "delta_window_.reader_.non_default_code_table_data_"): e.store(st, fld(e, p, IMPL, f)[0], ir.PTR, NULLP)
    tl = s_len(e, st, I.ptr("decoded_target_"))
    def put(O, path, v):
        ty = fld(e, O.p, O.cls, path)[1]; e.store(st, O.ptr(path), fty(e, ty), v)
    for f, v in (("start_decoding_was_called_", const_bool(False)), ("dictionary_ptr_", NULLP), ("dictionary_size_", IntV(0, 64)), ("vcdiff_version_code_", IntV(0, 8)), ("planned_target_file_size_", IntV(UNLIM, 64)),
                 ("total_of_target_window_sizes_", IntV(0, 64)), ("decoded_target_output_position_", IntV(0, 64))): put(I, f, v)
    for n in SECTIONS:
        q = W.get(st, n + ".parseable_chunk_")
        if isinstance(q, PtrV) and q.reg is not None: st.dead = st.dead | {q.reg.id}
        put(W, n + ".parseable_chunk_", NULLP)
    for f, v in (("found_header_", const_bool(False)), ("target_window_length_", IntV(0, 64)), ("source_segment_ptr_", NULLP), ("source_segment_length_", IntV(0, 64)), ("interleaved_bytes_expected_", IntV(0, 32)),
                 ("has_checksum_", const_bool(False)), ("expected_checksum_", IntV(0, 64)), ("target_window_start_pos_", IntV(tl, 64, 0, MAXSTR)),
                 ("reader_.code_table_data_", PtrV(e.global_region(st, DEFAULT), 0))): put(W, f, v)
class Reset(Contract):
    match = NS + IMPL + "::Reset"; props = ("C06", "C02")
    cases = tuple(LIFE)
    def setup(self, e, st, case): d = mk_life(e, st, case); return [d["p"]]
    def modifies(self, e, st, a): return None
    def frame(self, e, s0, s1, a):
        I = Obj(e, a[0], IMPL)
        out = kept(e, s0, s1, a[0])
        for f in ("unparsed_bytes_", "decoded_target_"):
            q = I.ptr(f); out.append((f + " is kept", s_ptr(e, s0, q).reg is s_ptr(e, s1, q).reg and teq(s_len(e, s0, q), s_len(e, s1, q))))
        return out
    def post(self, e, s0, s1, a, ret):
        freed = [q.reg for f, q in owned_regions(e, s0, a[0])]
        W = Obj(e, PtrV(a[0].reg, a[0].off.add(win_off(e)), None), WIN)
        for n in SECTIONS:
            q = W.get(s0, n + ".parseable_chunk_")
            if q.reg is not None: freed.append(q.reg)
        return fresh_state(e, s1, a[0]) + self.frame(e, s0, s1, a) + [("everything owned is freed", all(r.id in s1.dead for r in freed))]
    def apply(self, e, st, a):
        with Spec(e): reset_effect(e, st, a[0])
        return None
class Start(Contract):
    match = NS + IMPL + "::StartDecoding"; props = ("C06", "C03")
    cases = tuple(LIFE)
    def setup(self, e, st, case):
        d = mk_life(e, st, case, called=False); D = e.buffer(st, "new_dictionary", ro=True); return [d["p"], PtrV(D, 0, D.segs[0]), IntV(Z(D.size), 64, 0, U64)]
    def pre(self, e, st, a): return [("not started", z3.Not(Obj(e, a[0], IMPL).int(st, "start_decoding_was_called_")))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        I = Obj(e, a[0], IMPL); dp = I.get(s1, "dictionary_ptr_")
        skip = ("not started", "no dictionary", "dictionary size 0")
        return [x for x in fresh_state(e, s1, a[0]) if x[0] not in skip] + kept(e, s0, s1, a[0]) + \
            [("started", I.int(s1, "start_decoding_was_called_")), ("the dictionary is the one given", isinstance(dp, PtrV) and dp.reg is a[1].reg and dp.off.const() and dp.off.c == 0),
             ("with its size", I.int(s1, "dictionary_size_") == Z(e.u(s0, a[2]))),
             ("no input is left over", Z(s_len(e, s1, I.ptr("unparsed_bytes_"))) == 0), ("no target is left over", Z(s_len(e, s1, I.ptr("decoded_target_"))) == 0)]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        with Spec(e):
            I = Obj(e, a[0], IMPL)
            for f in ("unparsed_bytes_", "decoded_target_"): e.store(st, e_ptr(I.ptr(f), 8), I64, IntV(0, 64))
            reset_effect(e, st, a[0])
            e.store(st, I.ptr("dictionary_ptr_"), ir.PTR, a[1]); e.store(st, I.ptr("dictionary_size_"), I64, a[2]); e.store(st, I.ptr("start_decoding_was_called_"), ir.IntTy(8), const_bool(True))
        return None
def complete(e, st, p):
    """RFC-level completeness: nothing or only whole headers and windows were consumed"""
    I = Obj(e, p, IMPL); W = Obj(e, PtrV(p.reg, p.off.add(win_off(e)), None), WIN)
    empty = Z(s_len(e, st, I.ptr("unparsed_bytes_"))) == 0
    def has(f):
        q = e.load(st, fld(e, p, IMPL, f)[0], ir.PTR); return q.reg is not None
    plan = I.int(st, "planned_target_file_size_"); tot = I.int(st, "total_of_target_window_sizes_")
    reached = z3.And(plan != UNLIM, tot == plan)
    if not has("addr_cache_"): return empty
    if has("custom_code_table_decoder_"): return z3.BoolVal(False)
    return z3.And(z3.Not(W.int(st, "found_header_")), z3.Or(reached, empty))
class Finish(Contract):
    match = NS + IMPL + "::FinishDecoding"; props = ("C06",)
    cases = tuple(LIFE)
    def setup(self, e, st, case): d = mk_life(e, st, case, called=None); return [d["p"]]
    def pre(self, e, st, a):
        I = Obj(e, a[0], IMPL); return [("windows so far are within the plan", z3.Or(I.int(st, "planned_target_file_size_") == UNLIM, I.int(st, "total_of_target_window_sizes_") <= I.int(st, "planned_target_file_size_")))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        I = Obj(e, a[0], IMPL)
        return [("succeeds exactly when started and the input ended at a boundary", B(ret.b) == z3.And(I.int(s0, "start_decoding_was_called_"), complete(e, s0, a[0])))] + fresh_state(e, s1, a[0]) + kept(e, s0, s1, a[0])
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        with Spec(e):
            I = Obj(e, a[0], IMPL); b = z3.And(I.int(st, "start_decoding_was_called_"), complete(e, st, a[0])); reset_effect(e, st, a[0])
        return BoolV(b)

# ------------------------------------------------------------------ window header (C10)
class Header:
    """the window header at position P of arr (limit L) as RFC 3284 section 4.3 (with the SDCH extensions) defines it"""
    def __init__(self, e, st, I, arr, P, L, tlen):
        S = I.int(st, "vcdiff_version_code_") == ord("S"); allow = I.int(st, "allow_vcd_target_"); ds = I.int(st, "dictionary_size_")
        w = arr[P]; f = w % 4; self.f = f
        sok, sf, self.sl, self.sp, sn = seg_chain(arr, P + 1, L, z3.If(f == 1, ds, tlen))
        ok1 = z3.And(P < L, z3.Or(f == 0, z3.And(f == 1, sok), z3.And(f == 2, allow, sok)))
        fail1 = z3.If(P >= L, END, z3.If(z3.Or(f == 3, z3.And(f == 2, z3.Not(allow))), ERROR, sf))
        n = z3.If(f == 0, P + 1, sn)
        self.dlen, self.dstart = VR[32](arr, n, L), VN[32](arr, n, L)
        self.tw, n = VR[32](arr, self.dstart, L), VN[32](arr, self.dstart, L)
        ok2 = z3.And(self.dlen >= 0, self.tw >= 0); fail2 = z3.If(self.dlen < 0, self.dlen, self.tw)
        exc = exceeds(I, st, self.tw); self.exceeds = exc
        ok3 = z3.And(n < L, arr[n] % 8 == 0); fail3 = z3.If(n >= L, END, ERROR)
        n = n + 1; self.len = []
        for k in range(3): self.len.append(VR[32](arr, n, L)); n = VN[32](arr, n, L)
        self.hc = z3.And(S, (w / 4) % 2 == 1); self.checksum = VR[64](arr, n, L)
        n = z3.If(self.hc, VN[64](arr, n, L), n); self.body = n
        r = self.len; total = r[0] + r[1] + r[2]
        ok4 = z3.And(*[q >= 0 for q in r] + [z3.Implies(self.hc, z3.And(self.checksum >= 0, self.checksum <= 0xffffffff)), self.dlen == n - self.dstart + total])
        fail4 = z3.If(r[0] < 0, r[0], z3.If(r[1] < 0, r[1], z3.If(r[2] < 0, r[2], z3.If(z3.And(self.hc, self.checksum < 0), self.checksum, ERROR))))
        self.interleaved = z3.And(S, r[0] == 0, r[2] == 0)
        self.avail = z3.Or(self.interleaved, L - n >= total)
        self.result = z3.If(z3.Not(ok1), fail1, z3.If(z3.Not(ok2), fail2, z3.If(exc, ERROR, z3.If(z3.Not(ok3), fail3, z3.If(z3.Not(ok4), fail4, z3.If(self.avail, SUCCESS, END))))))
        self.end = self.dstart + self.dlen
def stale_ok(st, W, arr, P, L):
    """a segment length left over from a header that was cut short belongs to the same window, which has a source segment"""
    sl = W.int(st, "source_segment_length_"); return z3.Or(sl == 0, z3.And(P < L, arr[P] % 4 != 0))
def idle_shape(e, st, W):
    """the window holds no header: structural part"""
    def isnull(q): return isinstance(q, PtrV) and q.reg is None
    return isnull(W.get(st, "source_segment_ptr_")) and all(isnull(W.get(st, n + ".parseable_chunk_")) for n in SECTIONS)
def idle_inv(e, st, W, tlen):
    own = [W.int(st, n + ".owned_") for n in SECTIONS]
    return [("no header read", z3.Not(W.int(st, "found_header_"))), ("ownership flags", z3.And(own[0], own[1] == own[2])), ("no sections and no source segment", idle_shape(e, st, W)), ("no interleaved bytes expected", W.int(st, "interleaved_bytes_expected_") == 0),
            ("the next window starts at the end of the target", W.int(st, "target_window_start_pos_") == tlen), ("lengths are ints", z3.And(W.int(st, "target_window_length_") <= INT_MAX, W.int(st, "source_segment_length_") <= INT_MAX))]
def target_of(e, st, I):
    q = I.ptr("decoded_target_"); b = s_ptr(e, st, q); return b, Z(s_len(e, st, q)), e.seg_arr(st, b.reg, b.reg.segs[0])
class ReadHeader(Contract):
    match = NS + WIN + "::ReadHeader"; props = ("C10", "C05", "C04", "C02", "C03", "C07")
    cost = 5
    def setup(self, e, st, case):
        d = mk_impl(e, st, "idle"); S = e.buffer(st, "delta", ro=True); pc = e.object(st, "parseable_chunk", NS + CH); mk_chunk(e, st, pc, 0, S, "input")
        return [d["w"], PtrV(pc, 0)]
    def pre(self, e, st, a):
        W = Obj(e, a[0], WIN); I = Obj(e, W.get(st, "parent_"), IMPL); pc = CView(e, st, a[1]); b, tlen, T = target_of(e, st, I)
        if not pc.same_buffer(): return pc.inv()
        plan = I.int(st, "planned_target_file_size_")
        return pc.inv() + idle_inv(e, st, W, tlen) + [("windows so far are within the plan", z3.Or(plan == UNLIM, I.int(st, "total_of_target_window_sizes_") <= plan)),
            ("a left-over segment length belongs to this window", stale_ok(st, W, arr_of(e, st, pc.pos), pc.P, pc.L)), ("the input is not the target buffer", pc.pos.reg is not b.reg)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        W = Obj(e, a[0], WIN); I = Obj(e, W.get(s0, "parent_"), IMPL); p0, p1 = CView(e, s0, a[1]), CView(e, s1, a[1]); r = Z(e.s(s1, ret)); i = z3.Int("i!q")
        b0, tl0, T0 = target_of(e, s0, I); b1, tl1, T1 = target_of(e, s1, I); arr = arr_of(e, s0, p0.pos)
        h = Header(e, s0, I, arr, p0.P, p0.L, tl0); tot0, tot1 = I.int(s0, "total_of_target_window_sizes_"), I.int(s1, "total_of_target_window_sizes_")
        if not p1.same_buffer() or p1.pos.reg is not p0.pos.reg: return [("position stays in the input", False)]
        out = [("the header is accepted, refused or incomplete exactly as its bytes define", r == h.result), ("the target is kept", z3.And(tl1 == tl0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tl0), T1[i] == T0[i]), patterns=[T1[i]])) if not T1.eq(T0) else tl1 == tl0),
               ("the limits themselves never change", z3.And(*[I.int(s1, f) == I.int(s0, f) for f in ("maximum_target_file_size_", "maximum_target_window_size_", "planned_target_file_size_")])),
               ("lengths are ints", z3.And(W.int(s1, "target_window_length_") <= INT_MAX, W.int(s1, "source_segment_length_") <= INT_MAX)),
               ("the end of the input is kept", z3.And(p1.L == p0.L, p1.S == p0.S))]
        if not idle_shape(e, s1, W):
            # a header was accepted (or the sections did not fit their window)
            out.append(("section pointers are set only by a complete header", z3.Or(r == SUCCESS, r == ERROR)))
            v = WView(e, s1, a[0])
            own = [W.int(s1, n + ".owned_") for n in SECTIONS]
            il = v.interleaved
            ch = {n: v.chunk(s1, n) for n in ("inst", "data", "addr")}
            if not all(c.same_buffer() and c.pos.reg is p0.pos.reg for c in ch.values()): return [("sections lie in the input", False)]
            ok = r == SUCCESS
            out += [("the window is interleaved exactly when the header says so", z3.Implies(ok, h.interleaved == z3.BoolVal(il))),
                    ("the header is recorded", z3.Implies(ok, z3.And(W.int(s1, "found_header_"), v.tw == h.tw, W.int(s1, "has_checksum_") == h.hc, z3.Implies(h.hc, W.int(s1, "expected_checksum_") == h.checksum)))),
                    ("the window's size is counted once", z3.Implies(ok, tot1 == tot0 + h.tw)), ("no limit is exceeded", z3.Implies(ok, z3.Not(h.exceeds))),
                    ("the input continues after the header", z3.Implies(ok, p1.P == h.body)),
                    ("the source segment has the declared length", z3.Implies(ok, v.sl == z3.If(h.f == 0, 0, h.sl)))] + [(n, z3.Implies(ok, B(g))) for n, g in v.inv(s1)]
            src = v.sptr
            if src.reg is None: out.append(("no source segment exactly when none is named", z3.Implies(ok, h.f == 0)))
            elif src.reg is b1.reg: out.append(("the source segment is the named part of the target", z3.Implies(ok, z3.And(h.f == 2, Z(src.off.z()) == h.sp))))
            else:
                dp = I.get(s0, "dictionary_ptr_"); out.append(("the source segment is the named part of the dictionary", src.reg is dp.reg and z3.Implies(ok, z3.And(h.f == 1, Z(src.off.z()) == Z(dp.off.z()) + h.sp))))
            if il:
                av = p0.L - h.body
                out += [("the sections share one owned stream", z3.And(own[0], z3.Not(own[1]), z3.Not(own[2])) if v.data.reg is v.inst.reg else False),
                        ("the stream is the available part of the instruction section", z3.Implies(ok, z3.And(v.expected == h.len[1], ch["inst"].S == h.body, ch["inst"].P == h.body, ch["inst"].L == h.body + z3.If(av > h.len[1], h.len[1], av))))]
            else:
                out += [("each section owns its stream", z3.And(*own) if len({v.inst.reg.id, v.data.reg.id, v.addr.reg.id}) == 3 else False), ("no interleaved bytes expected", v.expected == 0),
                        ("the sections are the three declared ranges in order", z3.Implies(ok, z3.And(ch["data"].S == h.body, ch["data"].L == h.body + h.len[0], ch["inst"].S == ch["data"].L, ch["inst"].L == ch["inst"].S + h.len[1],
                                                                                      ch["addr"].S == ch["inst"].L, ch["addr"].L == ch["addr"].S + h.len[2], *[c.P == c.S for c in ch.values()]))),
                        ("the window ends where its delta encoding ends", z3.Implies(ok, z3.And(ch["addr"].L == h.end, ch["addr"].L <= p0.L)))]
            rp = W.ptr("reader_"); pp = e.load(s1, W.ptr("reader_.instructions_and_sizes_"), ir.PTR); en = e.load(s1, W.ptr("reader_.instructions_and_sizes_end_"), ir.PTR)
            cp = fld(e, v.inst, CH, "position_")[0]
            if isinstance(pp, PtrV) and isinstance(en, PtrV):
                out += [("the reader reads the instruction section from its start", z3.Implies(ok, B(tand(pp.reg is cp.reg and pp.off.c == cp.off.c and en.reg is ch["inst"].end.reg, teq(en.off.z(), ch["inst"].L)))) if pp.reg is cp.reg else r != SUCCESS),
                        ("nothing is pending", z3.Implies(ok, W.int(s1, "reader_.pending_second_instruction_") == NONE))]
            else: out.append(("the reader reads the instruction section from its start", r != SUCCESS))
        else:
            out += [("success sets up the sections", r != SUCCESS), ("an incomplete header consumes nothing", p1.P == p0.P), ("and counts nothing", tot1 == tot0), ("and leaves no window", z3.And(z3.Not(W.int(s1, "found_header_")), W.int(s1, "interleaved_bytes_expected_") == 0, W.int(s1, "target_window_start_pos_") == tl1)),
                    ("a left-over segment length belongs to this window", z3.Implies(r == END, stale_ok(s1, W, arr, p0.P, p0.L)))]
        return out
    def apply(self, e, st, a): raise Unsupported("ReadHeader is inlined")

# ------------------------------------------------------------------ the input as one stream (C04): ghost state of the caller under proof
def stream_pre(e, st, chunk, who):
    """what is about to be parsed is exactly the part of the stream that nothing consumed yet"""
    g = getattr(e.cur, "stream", None)
    if g is None: return
    with Spec(e):
        c = CView(e, st, chunk); k = z3.Int("k!q"); cur = gget(e, st, g.cursor); arr = arr_of(e, st, c.pos)
        f = z3.And(c.L - c.P == g.total - cur, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.L - c.P), arr[c.P + k] == g.at(cur + k))))
    e.oblige(st, f, "pre", "%s is given the whole unconsumed input and nothing else" % who)
def stream_post(e, s0, s1, chunk):
    g = getattr(e.cur, "stream", None)
    if g is not None: gset(e, s1, g.cursor, gget(e, s1, g.cursor) + CView(e, s1, chunk).P - CView(e, s0, chunk).P)
def decoded_post(e, s0, s1, I):
    """ghost: the bytes a window added to the target, in order"""
    g = getattr(e.cur, "decoded", None)
    if g is None: return
    b0, tl0, T0 = target_of(e, s0, I); b1, tl1, T1 = target_of(e, s1, I); l = gget(e, s1, g.len)
    copy_into(e, s1, PtrV(g.buf, l, g.buf.segs[0]), PtrV(b1.reg, tl0, b1.reg.segs[0]), tl1 - tl0); gset(e, s1, g.len, l + tl1 - tl0)

# ------------------------------------------------------------------ one window (C03-C05, C10)
def mk_input(e, st, name="delta"):
    S = e.buffer(st, name, ro=True); pc = e.object(st, "parseable_chunk", NS + CH); mk_chunk(e, st, pc, 0, S, "input"); return PtrV(pc, 0)
class DecodeWindow(Contract):
    match = NS + WIN + "::DecodeWindow"; props = ("C03", "C04", "C05", "C06", "C07", "C10", "C02")
    cases = ("new window",) + tuple("resumed, source " + x for x in ("dictionary", "target", "none"))
    inline_contracts = (NS + WIN + "::ReadHeader",)
    cost = 8
    def setup(self, e, st, case):
        self.first_chunk_of_window = case == "new window"
        d = mk_impl(e, st, "idle") if case == "new window" else mk_impl(e, st, "interleaved", case.split()[-1], stale=True)
        return [d["w"], mk_input(e, st)]
    def table(self, e, st, W): return e.load(st, W.ptr("reader_.code_table_data_"), ir.PTR)
    def common(self, e, st, W, I, fresh_cache_ok):
        """the parts of the invariant that do not depend on the window"""
        c = e.load(st, fld(e, I.p, IMPL, "addr_cache_")[0], ir.PTR)
        if c.reg is None: return [("the file header was read", False)]
        n, s = geti(e, st, c, CACHE, "near_cache_size_"), geti(e, st, c, CACHE, "same_cache_size_")
        i = z3.Int("i!q"); t = Tab(e, st, self.table(e, st, W)); mm = n + s + 1
        out = [("cache sizes leave room for the modes", n + s <= 254),
               ("the code table is valid for the cache sizes", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), z3.And(t.wf1(i, mm), t.wf2(i, mm))), patterns=[t.inst1[i]])),
               ("the table has only the four instruction types", z3.And(*[z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), z3.And(x[i] >= 0, x[i] <= COPY)), patterns=[x[i]]) for x in (t.inst1, t.inst2)]))]
        if not fresh_cache_ok: out += CacheView(e, st, c).inv() + addrcache.CacheContract().nonneg(e, st, c)
        return out
    def pending_ok(self, e, st, W):
        t = Tab(e, st, self.table(e, st, W)); p = W.int(st, "reader_.pending_second_instruction_")
        return [("a pending opcode has a second instruction", z3.Implies(p != NONE, t.inst2[p % 256] != NOOP))]
    def win_inv(self, e, st, w, tp):
        """a window in progress between two calls (interleaved); section pointers are stale"""
        W = Obj(e, w, WIN); I = Obj(e, W.get(st, "parent_"), IMPL); b, tlen, T = target_of(e, st, I)
        tw, ts, sl, ex = W.int(st, "target_window_length_"), W.int(st, "target_window_start_pos_"), W.int(st, "source_segment_length_"), W.int(st, "interleaved_bytes_expected_")
        own = [W.int(st, n + ".owned_") for n in SECTIONS]; q = [W.get(st, n + ".parseable_chunk_") for n in SECTIONS]; sp = W.get(st, "source_segment_ptr_")
        if not all(isinstance(x, PtrV) and x.reg is not None and x.reg.id not in st.dead for x in q): return [("sections exist", False)]
        out = [("header read", W.int(st, "found_header_")), ("one shared stream", z3.And(own[0], z3.Not(own[1]), z3.Not(own[2])) if q[0].reg is q[1].reg and q[0].reg is q[2].reg else False),
               ("decoded bytes lie within the window", z3.And(ts <= tlen, tlen - ts <= tw, tw <= INT_MAX)), ("the whole window fits in the reserved buffer", ts + tw + 1 <= Z(b.reg.size)), ("segment length is an int", sl <= INT_MAX), ("bytes are still expected", ex > 0)]
        if sp.reg is None: out.append(("no source segment", sl == 0))
        elif sp.reg is b.reg: out.append(("source segment in the target before the window", z3.And(Z(sp.off.z()) >= 0, Z(sp.off.z()) + sl <= ts)))
        else: out.append(("source segment within the dictionary", sp.reg is I.get(st, "dictionary_ptr_").reg and z3.And(Z(sp.off.z()) >= 0, Z(sp.off.z()) + sl <= Z(sp.reg.size))))
        return out + self.pending_ok(e, st, W)
    def pre(self, e, st, a):
        W = Obj(e, a[0], WIN); I = Obj(e, W.get(st, "parent_"), IMPL); pc = CView(e, st, a[1]); b, tlen, T = target_of(e, st, I)
        if not pc.same_buffer(): return pc.inv()
        plan = I.int(st, "planned_target_file_size_")
        out = pc.inv() + [("windows so far are within the plan", z3.Or(plan == UNLIM, I.int(st, "total_of_target_window_sizes_") <= plan)), ("the input is not the target buffer", pc.pos.reg is not b.reg)]
        if idle_shape(e, st, W):
            return out + idle_inv(e, st, W, tlen) + self.common(e, st, W, I, True) + [("a left-over segment length belongs to this window", stale_ok(st, W, arr_of(e, st, pc.pos), pc.P, pc.L))]
        return out + self.win_inv(e, st, a[0], b) + self.common(e, st, W, I, False)
    WCELLS = ("found_header_", "source_segment_ptr_", "source_segment_length_", "interleaved_bytes_expected_", "target_window_length_", "target_window_start_pos_", "has_checksum_", "expected_checksum_",
              "reader_.instructions_and_sizes_", "reader_.instructions_and_sizes_end_", "reader_.last_instruction_start_", "reader_.pending_second_instruction_", "reader_.last_pending_second_instruction_")
    def modifies(self, e, st, a):
        W = Obj(e, a[0], WIN); I = Obj(e, W.get(st, "parent_"), IMPL); tp = I.ptr("decoded_target_"); b, tlen, T = target_of(e, st, I)
        out = [W.cell(f) for f in self.WCELLS] + [W.cell(n + x) for n in SECTIONS for x in (".parseable_chunk_", ".owned_")] + [cell(e, a[1], CH, "position_"), I.cell("total_of_target_window_sizes_")]
        out += [(tp.reg, ("cell", tp.off.c, 8)), (tp.reg, ("cell", tp.off.c + 8, 8)), (b.reg, ("seg", 0))]
        c = e.load(st, fld(e, I.p, IMPL, "addr_cache_")[0], ir.PTR)
        if c.reg is not None:
            out += [cell(e, c, CACHE, "next_slot_")]
            for f in ("near_addresses_", "same_addresses_"):
                q = fld(e, c, CACHE, f)[0]; out += [(q.reg, ("cell", q.off.c + k, 8)) for k in (0, 8, 16)]
                v = e.load(st, q, ir.PTR)
                if v.reg is not None: out.append((v.reg, ("seg", 0)))
        for n in SECTIONS:
            q = W.get(st, n + ".parseable_chunk_")
            if isinstance(q, PtrV) and q.reg is not None: out.append((q.reg, ("all",)))
        return out
    def post(self, e, s0, s1, a, ret):
        W = Obj(e, a[0], WIN); I = Obj(e, W.get(s0, "parent_"), IMPL); p0, p1 = CView(e, s0, a[1]), CView(e, s1, a[1]); r = Z(e.s(s1, ret)); i = z3.Int("i!q")
        b0, tl0, T0 = target_of(e, s0, I); b1, tl1, T1 = target_of(e, s1, I); arr = arr_of(e, s0, p0.pos)
        new = idle_shape(e, s0, W); idle1 = idle_shape(e, s1, W)
        if not p1.same_buffer() or p1.pos.reg is not p0.pos.reg: return [("position stays in the input", False)]
        tot0, tot1 = I.int(s0, "total_of_target_window_sizes_"), I.int(s1, "total_of_target_window_sizes_")
        plan = I.int(s0, "planned_target_file_size_")
        tw0, ts0, ex0 = W.int(s0, "target_window_length_"), W.int(s0, "target_window_start_pos_"), W.int(s0, "interleaved_bytes_expected_")
        if new:
            h = Header(e, s0, I, arr, p0.P, p0.L, tl0); tw, ts, hc, ck, begun = h.tw, tl0, h.hc, h.checksum, h.result == SUCCESS
        else: tw, ts, hc, ck, begun = tw0, ts0, W.int(s0, "has_checksum_"), W.int(s0, "expected_checksum_"), z3.BoolVal(True)
        out = [("success, error or end of data", z3.And(r <= 0, r >= -2)), ("bytes decoded earlier are never changed", z3.And(tl1 >= tl0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tl0), T1[i] == T0[i]), patterns=[T1[i]]))),
               ("the target fits in its buffer", tl1 + 1 <= Z(b1.reg.size)), ("the position only moves forward", z3.And(p1.P >= p0.P, p1.P <= p0.L, p1.L == p0.L, p1.S == p0.S))]
        c1 = e.load(s1, fld(e, I.p, IMPL, "addr_cache_")[0], ir.PTR)
        cv = CacheView(e, s1, c1)
        grow = tot0 + (tw if new else 0)
        limits = z3.And(begun, tot1 == grow, z3.Or(plan == UNLIM, tot1 <= plan), z3.Not(h.exceeds) if new else True)
        if idle1:
            W1 = [(n, z3.Implies(r != ERROR, B(g))) for n, g in idle_inv(e, s1, W, tl1)]
            own = [W.int(s1, n + ".owned_") for n in SECTIONS]
            out += W1 + [("ownership flags", z3.And(own[0], own[1] == own[2])),
                    ("success decodes exactly the declared number of bytes", z3.Implies(r == SUCCESS, tl1 == ts + tw)),
                    ("success consumes exactly the declared delta encoding", z3.Implies(r == SUCCESS, p1.P == (h.end if new else p0.P + ex0))),
                    ("success consumes at least one byte", z3.Implies(r == SUCCESS, p1.P > p0.P)),
                    ("success within all limits", z3.Implies(r == SUCCESS, limits)),
                    ("success means the checksum, if any, matches", z3.Implies(z3.And(r == SUCCESS, hc), ADLER(z3.IntVal(ADLER_SEED), T1, ts, tw) == ck)),
                    ("nothing is left over for the next window", z3.Implies(r == SUCCESS, z3.And(W.int(s1, "target_window_length_") == 0, W.int(s1, "source_segment_length_") == 0)))]
            if new: out += [("end of data exactly when the header (or standard-format window) is incomplete", z3.Implies(r == END, h.result == END)), ("an incomplete header consumes and decodes nothing", z3.Implies(r == END, z3.And(p1.P == p0.P, tl1 == tl0, tot1 == tot0))),
                            ("a left-over segment length belongs to this window", z3.Implies(r == END, stale_ok(s1, W, arr, p0.P, p0.L))), ("an incomplete header is not an error", z3.Implies(h.result == END, r == END))]
            else: out.append(("a resumed window stays in progress until it succeeds or fails", r != END))
        else:
            ex1 = W.int(s1, "interleaved_bytes_expected_"); tw1, ts1 = W.int(s1, "target_window_length_"), W.int(s1, "target_window_start_pos_")
            out += [(n, z3.Implies(r == END, B(g))) for n, g in self.win_inv(e, s1, a[0], b1)]
            out += [("a window in progress is not a success", r != SUCCESS),
                    ("the window in progress is the declared one", z3.Implies(r == END, z3.And(tw1 == tw, ts1 == ts, W.int(s1, "has_checksum_") == hc, z3.Implies(hc, W.int(s1, "expected_checksum_") == ck)))),
                    ("only an incomplete window waits for more data", z3.Implies(r == END, tl1 - ts < tw)), ("within all limits", z3.Implies(r == END, limits)),
                    ("the input continues after the last complete instruction", z3.Implies(r == END, p1.P == (h.body + h.len[1] - ex1 if new else p0.P + ex0 - ex1)))]
            out += [(n, z3.Implies(r == END, B(g))) for n, g in cv.inv() + addrcache.CacheContract().nonneg(e, s1, c1)]
            if new: out.append(("only the interleaved format is interrupted", z3.Implies(r == END, h.interleaved)))
            else:
                q0, q1 = W.get(s0, "source_segment_ptr_"), W.get(s1, "source_segment_ptr_"); kept_reg = q0.reg is q1.reg or (q0.reg is b0.reg and q1.reg is b1.reg)
                out.append(("the source segment of a window in progress is kept", z3.Implies(r == END, z3.And(Z(q0.off.z()) == Z(q1.off.z()), W.int(s0, "source_segment_length_") == W.int(s1, "source_segment_length_"))) if kept_reg else r != END))
                out.append(("a resumed window keeps its sections", all(W.get(s0, n + ".parseable_chunk_").reg is W.get(s1, n + ".parseable_chunk_").reg for n in SECTIONS)))
            q = [W.get(s1, n + ".parseable_chunk_") for n in SECTIONS]; own = [W.int(s1, n + ".owned_") for n in SECTIONS]
            if not all(isinstance(x, PtrV) and x.reg is not None and x.reg.id not in s1.dead for x in q): out.append(("sections can be freed", False))
            elif len({x.reg.id for x in q}) == 1: out.append(("sections can be freed", z3.And(own[0], z3.Not(own[1]), z3.Not(own[2]))))
            else: out.append(("sections can be freed", z3.And(*own) if len({x.reg.id for x in q}) == 3 else False))
        return out
    def outcomes(self, e, st, W):
        """(result, shape of the window afterwards, its source segment)"""
        new = idle_shape(e, st, W)
        out = [(SUCCESS, "idle", None)] + ([(END, "idle", None)] if new else [])
        if new: out += [(END, "shared", s) for s in ("none", "dictionary", "target")]
        else: out.append((END, "shared", "same"))
        return out + [(ERROR, "idle", None)] + ([(ERROR, sh, "none") for sh in ("shared", "separate")] if new else [(ERROR, "shared", "same")])
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        stream_pre(e, st, a[1], self.label)
        s0 = st.snap(); out = []
        with Spec(e):
            for r, shape, src in self.outcomes(e, st, Obj(e, a[0], WIN)):
                s = st.copy(); self.effect(e, s, a, shape, src); ret = IntV(r, 32)
                for n, g in self.post(e, s0, s, a, ret): s.assume(B(g))
                if not e.feasible(s): continue
                s.ghost["window_result"] = r
                if r != ERROR: stream_post(e, s0, s, a[1]); decoded_post(e, s0, s, Obj(e, Obj(e, a[0], WIN).get(s0, "parent_"), IMPL))
                out.append((s, ret))
        return out
    def effect(self, e, s, a, shape, src):
        """everything the contract allows to change becomes arbitrary, in the given shape"""
        W = Obj(e, a[0], WIN); I = Obj(e, W.get(s, "parent_"), IMPL); idle0 = idle_shape(e, s, W)
        def put(O, f, v): e.store(s, O.ptr(f), fty(e, fld(e, O.p, O.cls, f)[1]), v)
        p = CView(e, s, a[1]); x = e.fresh("input.pos"); s.assume(x >= 0, x <= Z(p.pos.reg.size)); e.store(s, fld(e, a[1], CH, "position_")[0], ir.PTR, PtrV(p.pos.reg, x, p.pos.reg.segs[0]))
        put(I, "total_of_target_window_sizes_", e.fresh_int(s, 64, False, "total"))
        # the target
        q = I.ptr("decoded_target_"); b = s_ptr(e, s, q); n = e.fresh("target.len"); s.assume(n >= 0, n <= MAXSTR)
        if getattr(b.reg, "unbounded", False):
            if getattr(b.reg, "taken", False): raise Unsupported("the target grows after a pointer into it was taken")
            e.set_seg(s, b.reg, b.reg.segs[0].start, e.fresh_arr("target"))
        else:
            cap = e.fresh("cap"); s.assume(cap >= n, cap <= 2 * MAXSTR); nb = Region("target'", cap + 1, "heap"); nb.segs.append(Seg(0, 1, cap + 1)); nb.isegs[0] = e.fresh_arr("target")
            old = W.get(s, "source_segment_ptr_")
            if src == "same" and isinstance(old, PtrV) and old.reg is b.reg: put(W, "source_segment_ptr_", PtrV(nb, old.off, nb.segs[0]))
            s.dead = s.dead | {b.reg.id}; e.store(s, q, ir.PTR, PtrV(nb, 0))
        e.store(s, e_ptr(q, 8), I64, IntV(n, 64, 0, MAXSTR))
        # the window
        idle = shape == "idle"
        put(W, "found_header_", const_bool(False) if idle else const_bool(True))
        for f in ("source_segment_length_", "target_window_length_", "target_window_start_pos_", "expected_checksum_"): put(W, f, e.fresh_int(s, 64, False, f))
        put(W, "interleaved_bytes_expected_", e.fresh_int(s, 32, True, "expected")); put(W, "has_checksum_", bool_cell(e, "has_checksum"))
        for f in ("pending_second_instruction_", "last_pending_second_instruction_"): put(W, "reader_." + f, e.fresh_int(s, 16, False, f))
        for f in ("instructions_and_sizes_", "instructions_and_sizes_end_", "last_instruction_start_"): put(W, "reader_." + f, OpaqueV("stale reader pointer"))
        if not idle0:
            for n in SECTIONS:
                c = W.get(s, n + ".parseable_chunk_")
                if idle and c.reg is not None: s.dead = s.dead | {c.reg.id}
        if idle:
            own = bool_cell(e, "owned")
            for n in SECTIONS:
                put(W, n + ".owned_", const_bool(True) if n == SECTIONS[0] else own)
                if not idle0: put(W, n + ".parseable_chunk_", NULLP)
            if not idle0: put(W, "source_segment_ptr_", NULLP)
        elif src != "same":
            first = None
            for n in SECTIONS:
                if first is None or shape == "separate":
                    c = e.object(s, n, NS + CH, kind="heap")
                    for f in ("start_", "position_", "end_"): setinit(e, c, 0, CH, f, OpaqueV("pointer into the input of an earlier call"))
                    first = first or c; put(W, n + ".owned_", const_bool(True))
                else: c = first; put(W, n + ".owned_", const_bool(False))
                put(W, n + ".parseable_chunk_", PtrV(c, 0))
            if src != "none":
                d = I.get(s, "dictionary_ptr_"); t = s_ptr(e, s, q); o = e.fresh("segment_pos"); r = d.reg if src == "dictionary" else t.reg
                put(W, "source_segment_ptr_", PtrV(r, o, r.segs[0] if src == "target" or len(r.segs) == 1 else None))
        # the address cache
        c = e.load(s, fld(e, I.p, IMPL, "addr_cache_")[0], ir.PTR); near, same = geti(e, s, c, CACHE, "near_cache_size_"), geti(e, s, c, CACHE, "same_cache_size_")
        put(Obj(e, c, CACHE), "next_slot_", e.fresh_int(s, 32, True, "next"))
        for f, k in (("near_addresses_", near), ("same_addresses_", same * 256)):
            v = fld(e, c, CACHE, f)[0]; vec_kill(e, s, v)
            if idle:
                for o in (0, 8, 16): e.store(s, e_ptr(v, o), ir.PTR, OpaqueV("address cache of the last window"))
            else: vec_set(e, s, v, k, e.fresh_arr("addresses"))

CONTRACTS = [DecodeWindow(), ReadHeader(), Reset(), Start(), Finish(), WouldExceed(), SetMaxWindow(), SetMaxFile(), AppendNew(), Flush()]
