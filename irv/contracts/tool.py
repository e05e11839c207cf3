"""The command-line tool, src/vcdiff_main.cc (property C18): what is read, what reaches the encoder or decoder, what is written,
and when success is reported.

The world is ghost state: three files (dictionary, input, output), each with fixed contents, a position and the stdio
indicators; the bytes given to the library so far (`fed`); the bytes it produced so far (`made`, a prefix of the fixed but
arbitrary sequence E); `failed`, set by every operation that fails.  stdio and the library's entry points act on it (summary)."""
import re
from .common import *
from .encoder import fresh_bool
from ..contract import Spec
CO = "VCDiffFileBasedCoder"
I8, I32, I64T = ir.IntTy(8), ir.IntTy(32), ir.IntTy(64)
i = z3.Int("i!q")
STRP, VECP = r"^std::__cxx11::basic_string<char, .*>::", r"^std::vector<char, std::allocator<char> ?>::"

# ------------------------------------------------------------------ the world
class Role:
    def __init__(self, e, st, key):
        self.key = key; self.C = e.fresh_arr(key + ".contents"); self.N = e.fresh(key + ".size"); st.assume(self.N >= 0, self.N < (1 << 62))
        g = lambda n, v: ghost_cell(e, key + "." + n, v)
        self.pos, self.eof, self.err, self.open = g("pos", 0), g("eof", 0), g("err", 0), g("open", 0)
        self.cells = [self.pos, self.eof, self.err, self.open]
        self.name = None
        self.handles = []
    def handle(self, nm):
        r = Region("FILE:" + nm, 216, "sym"); r.icells[0] = (8, OpaqueV("FILE")); r.role = self; self.handles.append(r); return r
class World:
    def __init__(self, e, st, any_buffer=False):
        self.e = e
        self.R = {k: Role(e, st, k) for k in ("dictionary", "in", "out")}
        self.E = e.fresh_arr("produced")
        g = lambda n, v: ghost_cell(e, n, v)
        self.failed, self.fed, self.made, self.stage, self.flushed = g("failed", 0), g("fed", 0), g("made", 0), g("stage", 0), g("flushed", 1)
        self.ghosts = [self.failed, self.fed, self.made, self.stage, self.flushed]
        self.flags = {}
        for n in e.mod.globals:
            m = re.match(r"_ZN\d*(fLS|fLB|fLU64)L?\d+FLAGS_([a-z_]+?)(B5cxx11)?E$", n)
            if not m or "L%dFLAGS" % 0 in n or re.match(r"_ZN\d*\w+L\d+FLAGS_no", n): continue
            k, f = m.group(1), m.group(2); r = e.global_region(st, n); r.opaque = False
            if k == "fLS":
                s = Region("FLAGS_" + f, 32, "sym"); s.digrid = {0: ("ptr", 8), 8: ("int", 8, False)}; b, ln = str_init(e, st, s, 0, "FLAGS_" + f); b.ro = True; r.icells[0] = (8, PtrV(s, 0)); self.flags[f] = (s, b.isegs[0], ln)
            elif k == "fLB":
                b = fresh_bool(e, "FLAGS_" + f); r.icells[0] = (1, IntV(z3.If(b, 1, 0), 8, 0, 1, b)); self.flags[f] = b
            else:
                v = e.fresh_int(st, 64, False, "FLAGS_" + f); r.icells[0] = (8, v); self.flags[f] = v.t
        if not any_buffer: st.assume(self.flags["buffersize"] >= 1)     # main() refuses 0
        st.assume(self.flags["buffersize"] < (1 << 62))
        self.std = {}
        for n, k in (("stdin", "in"), ("stdout", "out"), ("stderr", None)):
            if e.mod.glob(n) is None: continue
            g_ = e.global_region(st, n); g_.opaque = False; h = self.R[k].handle(n) if k else Region("FILE:stderr", 216, "sym"); h.std = True; g_.icells[0] = (8, PtrV(h, 0)); self.std[n] = h
        self.R["dictionary"].name = self.flags["dictionary"]
    def names(self, inp, out): self.R["in"].name = self.flags[inp]; self.R["out"].name = self.flags[out]
    def named(self, st, k): return B(self.R[k].name[2] > 0)
def G(e, st, r): return gget(e, st, r)
def fail(e, st, ok): w = e.world; gset(e, st, w.failed, z3.If(ok, G(e, st, w.failed), 1))
def role(e, st, p, what):
    if not isinstance(p, PtrV): raise Unsupported("file pointer %r" % (p,))
    if p.reg is None: e.oblige(st, False, "mem", what + " of a null file"); raise PathEnd()
    r = getattr(p.reg, "role", None)
    if r is None: raise Unsupported(what + " of " + p.reg.name)
    if getattr(p.reg, "std", False): e.oblige(st, r.name[2] == 0, "pre", "standard %s is used only if no file is named" % r.key)
    else: e.oblige(st, G(e, st, r.open) == 1, "pre", what + ": the file is open")
    return r
def boolint(e, st, b, nm):
    v = e.fresh_int(st, 32, True, nm); st.assume((v.t != 0) == b); return v
def cstr(e, p):
    s = seg_of(e, p); d = p.reg.isegs.get(("tab", s.start)) or p.reg.isegs.get(s.start)
    if not isinstance(d, dict): raise Unsupported("a constant string")
    k = p.off.c - s.start; out = ""
    while d[k] != 0: out += chr(d[k]); k += 1
    return out
# ------------------------------------------------------------------ stdio
def fopen(e, st, a, ins):
    w = e.world; mode = cstr(e, a[1]); p = a[0]; arr = arr_of(e, st, p); k = None
    for r in w.R.values():
        if r.name is not None and r.name[1] is not None and arr.eq(r.name[1]) and p.off.const() and p.off.c == 0: k = r
    e.oblige(st, k is not None, "pre", "the file opened is one that the options name")
    if k is None: raise PathEnd()
    wr = mode[0] != "r"
    e.oblige(st, B("b" in mode and "+" not in mode and mode[0] in "rw"), "pre", "files are opened in binary mode, for reading or to be replaced")
    e.oblige(st, B(wr == (k.key == "out" and e.world.writing)), "pre", "only the output file is opened for writing")
    e.oblige(st, G(e, st, k.open) == 0, "pre", "a file is opened once")
    bad = st.copy(); gset(e, bad, w.failed, z3.IntVal(1))
    for c, v in ((k.open, 1), (k.pos, 0), (k.eof, 0), (k.err, 0)): gset(e, st, c, z3.IntVal(v))
    if k.key == "out" and wr: gset(e, st, w.flushed, z3.IntVal(0))
    if not hasattr(k, "h"): k.h = k.handle(k.key)
    return [(st, PtrV(k.h, 0)), (bad, NULLP)]
def vcheck_range(e, st, p, n, what):
    check_range(e, st, p, n, what)
    o = getattr(p.reg, "owner", None)
    if o is not None: e.oblige(st, tle(tadd(p.off.z(), n), vsize(e, st, o)), "mem", what + " within the buffer")
def fread(e, st, a, ins):
    r = role(e, st, a[3], "read"); n = e.u(st, tmulv(e, st, a[1], a[2])); w = e.world
    vcheck_range(e, st, a[0], n, "write (fread)")
    if r.key == "out" and e.world.writing: e.oblige(st, False, "pre", "the output file is not read"); raise PathEnd()
    k = e.fresh("fread"); ok = fresh_bool(e, "fread_ok"); pos = G(e, st, r.pos); n = Z(n)
    st.assume(k >= 0, k <= n, pos + k <= r.N, z3.Implies(ok, z3.Or(k == n, pos + k == r.N)), z3.Implies(z3.Not(ok), k < n))
    if a[0].reg is not None:
        s = seg_of(e, a[0]); d = Z(idx_of(a[0], s)); old = e.seg_arr(st, a[0].reg, s); na = e.fresh_arr("rd")
        st.assume(z3.ForAll([i], z3.And(z3.Implies(z3.And(i >= d, i < d + k), z3.Select(na, i) == z3.Select(r.C, pos + i - d)), z3.Implies(z3.Or(i < d, i >= d + n), z3.Select(na, i) == z3.Select(old, i))), patterns=[z3.Select(na, i)]))
        e.set_seg(st, a[0].reg, s.start, na)
    gset(e, st, r.pos, pos + k); gset(e, st, r.eof, z3.If(z3.And(ok, k < n), 1, G(e, st, r.eof))); gset(e, st, r.err, z3.If(ok, G(e, st, r.err), 1)); fail(e, st, ok)
    return IntV(k, 64, 0, 1 << 62)
def tmulv(e, st, x, y):
    if isc(e.u(st, x)) and e.u(st, x) == 1: return y
    if isc(e.u(st, y)) and e.u(st, y) == 1: raise Unsupported("fread/fwrite of one block")
    raise Unsupported("fread/fwrite with element size")
def fwrite(e, st, a, ins):
    r = role(e, st, a[3], "write"); n = Z(e.u(st, tmulv(e, st, a[1], a[2]))); w = e.world; vcheck_range(e, st, a[0], n, "read (fwrite)")
    e.oblige(st, B(r.key == "out" and e.world.writing), "pre", "only the output file is written")
    pos = G(e, st, r.pos)
    if a[0].reg is not None:
        s = seg_of(e, a[0]); d = Z(idx_of(a[0], s)); arr = e.seg_arr(st, a[0].reg, s); j = e.fresh("j")
        e.oblige(st, z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(arr, d + j) == z3.Select(w.E, pos + j), pos + j < G(e, st, w.made))), "pre", "the bytes written continue what was produced")
    k = e.fresh("fwrite"); ok = fresh_bool(e, "fwrite_ok"); st.assume(k >= 0, k <= n, z3.If(ok, k == n, k < n))
    gset(e, st, r.pos, pos + k); gset(e, st, r.err, z3.If(ok, G(e, st, r.err), 1)); gset(e, st, w.flushed, z3.IntVal(0)); fail(e, st, ok)
    return IntV(k, 64, 0, 1 << 62)
def ferror(e, st, a, ins): r = role(e, st, a[0], "ferror"); return boolint(e, st, G(e, st, r.err) != 0, "ferror")
def feof(e, st, a, ins): r = role(e, st, a[0], "feof"); return boolint(e, st, G(e, st, r.eof) != 0, "feof")
def ftell(e, st, a, ins): r = role(e, st, a[0], "ftell"); return IntV(G(e, st, r.pos), 64, 0, 1 << 62)
def fseek(e, st, a, ins):
    r = role(e, st, a[0], "fseek"); off, wh = e.s(st, a[1]), e.s(st, a[2])
    if not isc(wh): raise Unsupported("fseek from somewhere")
    ok = fresh_bool(e, "fseek_ok"); base = {0: z3.IntVal(0), 1: G(e, st, r.pos), 2: r.N}[wh]
    e.oblige(st, z3.And(base + off >= 0), "pre", "fseek to a position of the file")
    gset(e, st, r.pos, z3.If(ok, base + off, G(e, st, r.pos))); gset(e, st, r.eof, z3.If(ok, 0, G(e, st, r.eof))); fail(e, st, ok)
    v = e.fresh_int(st, 32, True, "fseek"); st.assume((v.t == 0) == ok); return v
def fflush(e, st, a, ins):
    r = role(e, st, a[0], "fflush"); w = e.world; ok = fresh_bool(e, "fflush_ok")
    if r.key == "out" and w.writing: gset(e, st, w.flushed, z3.If(ok, 1, G(e, st, w.flushed))); fail(e, st, ok)
    v = e.fresh_int(st, 32, True, "fflush"); st.assume((v.t == 0) == ok); return v
def fclose(e, st, a, ins):
    v = fflush(e, st, a, ins); r = a[0].reg.role; gset(e, st, r.open, z3.IntVal(0)); return v
def fgetc(e, st, a, ins):
    r = role(e, st, a[0], "fgetc"); ok = fresh_bool(e, "fgetc_ok"); pos = G(e, st, r.pos); v = e.fresh_int(st, 32, True, "fgetc"); more = z3.And(ok, pos < r.N)
    st.assume(z3.If(more, z3.And(v.t >= 0, v.t <= 255), v.t == -1)); gset(e, st, r.pos, z3.If(more, pos + 1, pos)); gset(e, st, r.eof, z3.If(z3.And(ok, pos >= r.N), 1, G(e, st, r.eof))); gset(e, st, r.err, z3.If(ok, G(e, st, r.err), 1)); fail(e, st, ok)
    return v
# ------------------------------------------------------------------ std::vector<char>: a buffer that stays in place, begin and end
def vsize(e, st, p):
    b, n = e.load(st, p, ir.PTR), e.load(st, PtrV(p.reg, p.off.add(8)), ir.PTR); return n.off.add(b.off, -1).z()
def vnew(e, st, p, init=False):
    b = Region("buffer%d" % next(e.fresh_n), 2 * MAXSTR, "heap"); b.segs.append(Seg(0, 1, 2 * MAXSTR, True)); b.isegs[0] = e.fresh_arr("buffer"); b.owner = p
    v = [(o, PtrV(b, 0, b.segs[0])) for o in (0, 8, 16)]
    for o, x in v:
        if init: p.reg.icells[p.off.c + o] = (8, x)
        else: e.store(st, PtrV(p.reg, p.off.add(o)), ir.PTR, x)
    return b
def vec_ctor(e, st, a, ins): vnew(e, st, a[0]); return None
def vec_size(e, st, a, ins): return IntV(vsize(e, st, a[0]), 64, 0, MAXSTR)
def vec_empty(e, st, a, ins): return BoolV(teq(vsize(e, st, a[0]), 0))
def vec_setsize(e, st, p, n):
    b = e.load(st, p, ir.PTR)
    for o in (8, 16): e.store(st, PtrV(p.reg, p.off.add(o)), ir.PTR, PtrV(b.reg, Lin.of(n), b.reg.segs[0]))
def vec_resize(e, st, a, ins):
    p = a[0]; n = e.u(st, a[1]); st.assume(tle(n, MAXSTR))      # otherwise std::length_error or bad_alloc ends the process
    b = e.load(st, p, ir.PTR); s = b.reg.segs[0]; old = e.seg_arr(st, b.reg, s); k = vsize(e, st, p); na = e.fresh_arr("rsz")
    st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(i < k, z3.Select(old, i), 0), patterns=[z3.Select(na, i)])); e.set_seg(st, b.reg, s.start, na); vec_setsize(e, st, p, n); return None
def vec_clear(e, st, a, ins): vec_setsize(e, st, a[0], 0); return None
def vec_at(e, st, a, ins):
    k = e.u(st, a[1]); e.oblige(st, tlt(k, vsize(e, st, a[0])), "mem", "vector index within its size"); b = e.load(st, a[0], ir.PTR); return PtrV(b.reg, b.off.add(Lin.of(k)), b.reg.segs[0])
def vec_data(e, st, a, ins): return e.load(st, a[0], ir.PTR)
def nothing(e, st, a, ins): return None
# ------------------------------------------------------------------ std::string, std::unique_ptr, std::ostream
def str_ctor(e, st, a, ins):
    b = Region("output.buf", 2 * MAXSTR, "heap"); b.segs.append(Seg(0, 1, 2 * MAXSTR, True)); b.isegs[0] = e.fresh_arr("output"); b.unbounded = True
    s_set(e, st, a[0], PtrV(b, 0), IntV(0, 64)); return None
def str_assign(e, st, a, ins):
    """copy of a whole string: the same contents"""
    src, n = s_ptr(e, st, a[1]), s_len(e, st, a[1]); dst = s_ptr(e, st, a[0])
    if src.reg is dst.reg: return a[0]
    e.set_seg(st, dst.reg, dst.reg.segs[0].start, e.seg_arr(st, src.reg, src.reg.segs[0])); e.store(st, e_ptr(a[0], 8), I64T, IntV(n, 64, 0, MAXSTR)); return a[0]
def str_compare(e, st, a, ins):
    """compare(pos, n, p, m) of the whole string"""
    ln = s_len(e, st, a[0]); n, m = e.u(st, a[2]), e.u(st, a[4])
    if not (isc(e.u(st, a[1])) and e.u(st, a[1]) == 0): raise Unsupported("string compare")
    vcheck_range(e, st, a[3], m, "read (compare)"); r = e.fresh_int(st, 32, True, "compare"); n = z3.If(Z(n) <= Z(ln), Z(n), Z(ln)); m = Z(m)
    b = s_ptr(e, st, a[0]); x = e.seg_arr(st, b.reg, b.reg.segs[0]); q = seg_of(e, a[3]); y = e.seg_arr(st, a[3].reg, q); d = Z(idx_of(a[3], q)); k = e.fresh("k")
    st.assume(z3.Implies(r.t == 0, z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(x, i) == z3.Select(y, d + i)), patterns=[z3.Select(x, i)]))))
    st.assume(z3.Implies(z3.And(r.t != 0, n == m), z3.And(k >= 0, k < n, z3.Select(x, k) != z3.Select(y, d + k)))); return r
def up_ctor(e, st, a, ins): e.store(st, a[0], ir.PTR, a[1] if len(a) > 1 else NULLP); return None
def up_get(e, st, a, ins): return e.load(st, a[0], ir.PTR)
def up_reset(e, st, a, ins):
    o = e.load(st, a[0], ir.PTR)
    if not isinstance(o, PtrV) or o.reg is not None: raise Unsupported("reset of a pointer that owns an object")
    e.store(st, a[0], ir.PTR, a[1] if len(a) > 1 else NULLP); return None
def up_release(e, st, a, ins): o = e.load(st, a[0], ir.PTR); e.store(st, a[0], ir.PTR, NULLP); return o
def stream(e, st, a, ins): return a[0]
def opaque_str(e, st, a, ins):
    r = Region("message", 1 << 20, "sym", ro=True); r.segs.append(Seg(0, 1, 1 << 20)); return PtrV(r, 0)
def errno(e, st, a, ins):
    r = Region("errno", 4, "heap"); r.digrid = {0: ("int", 4, True)}; r.icells[0] = (4, e.fresh_int(st, 32, True, "errno")); return PtrV(r, 0)
def assert_fail(e, st, a, ins): e.oblige(st, False, "abort", "assertion holds"); raise PathEnd()
# ------------------------------------------------------------------ the library
def text(e, st, p, n, C, N, at, what):
    """[p, p+n) are the bytes of C from `at`"""
    n = Z(n); e.oblige(st, n == N, "pre", what + ": its size") if N is not None else None
    if p.reg is None: e.oblige(st, n == 0, "pre", what); return
    s = seg_of(e, p); d = Z(idx_of(p, s)); j = e.fresh("j")
    d0 = p.reg.isegs.get(("tab", s.start)) or p.reg.isegs.get(s.start)
    if isinstance(d0, dict): e.oblige(st, n == 0, "pre", what); return
    vcheck_range(e, st, p, n, "read (%s)" % what)
    e.oblige(st, z3.Implies(z3.And(j >= 0, j < n), z3.Select(e.seg_arr(st, p.reg, s), d + j) == z3.Select(C, at + j)), "pre", what)
def answer(e, st, nm):
    b = fresh_bool(e, nm); fail(e, st, b); return BoolV(b)
def produce(e, st, p):
    """the library appends what it produces to the caller's string"""
    w = e.world; b = s_ptr(e, st, p); n = Z(s_len(e, st, p)); k = e.fresh("k"); st.assume(k >= 0, n + k <= MAXSTR); m = G(e, st, w.made); s = b.reg.segs[0]; old = e.seg_arr(st, b.reg, s); na = e.fresh_arr("out")
    st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(i < n, z3.Select(old, i), z3.Select(w.E, m + i - n)), patterns=[z3.Select(na, i)])); e.set_seg(st, b.reg, s.start, na)
    e.store(st, e_ptr(p, 8), I64T, IntV(n + k, 64, 0, MAXSTR)); gset(e, st, w.made, m + k); st.assume(m + k < (1 << 62))
def at_stage(e, st, k, what): e.oblige(st, G(e, st, e.world.stage) == k, "pre", what)
def hd_ctor(e, st, a, ins):
    r = e.world.R["dictionary"]; text(e, st, a[1], e.u(st, a[2]), r.C, r.N, z3.IntVal(0), "the dictionary is the contents of the dictionary file"); st.ghost["hd"] = a[0].reg; return None
def hd_init(e, st, a, ins): e.oblige(st, a[0].reg is st.ghost.get("hd"), "pre", "Init of the dictionary made"); b = answer(e, st, "dict_init"); st.ghost["hd_ready"] = b.b; return b
def json_ctor(e, st, a, ins): st.ghost["writer"] = (a[0].reg, True, None); return None
def vcd_ctor(e, st, a, ins): st.ghost["writer"] = (a[0].reg, False, B(e.boolof(a[1]))); return None
def enc_ctor(e, st, a, ins):
    w = e.world; fe = Z(e.u(st, a[2])); f = lambda n, b: z3.If(w.flags[n], b, 0); wr = st.ghost.get("writer"); js = w.flags["json"]
    e.oblige(st, z3.And(B(a[1].reg is not None and a[1].reg is st.ghost.get("hd")), B(st.ghost.get("hd_ready", False))), "pre", "the encoder uses the initialised dictionary")
    e.oblige(st, fe == f("interleaved", 1) + f("checksum", 2) + f("json", 4), "pre", "the format is the one the options ask for"); e.oblige(st, B(e.boolof(a[3])) == w.flags["target_matches"], "pre", "matches within the target as the options ask for")
    if isinstance(a[4], PtrV) and a[4].reg is not None:
        e.oblige(st, B(wr is not None and wr[0] is a[4].reg), "pre", "the writer made is used")
        if wr: e.oblige(st, z3.And(js == B(wr[1]), True if wr[1] else wr[2] == w.flags["interleaved"]), "pre", "the writer is of the format the options ask for")
    st.ghost["coder"] = a[0].reg; return None
def this(e, st, a): e.oblige(st, a[0].reg is st.ghost.get("coder"), "pre", "the coder made is used")
def enc_start(e, st, a, ins): this(e, st, a); at_stage(e, st, 0, "encoding starts once"); gset(e, st, e.world.stage, z3.IntVal(1)); produce(e, st, a[1]); return answer(e, st, "start")
def feed(e, st, p, n, what):
    w = e.world; text(e, st, p, n, w.R["in"].C, None, G(e, st, w.fed), what + ": the next bytes of the input file"); gset(e, st, w.fed, G(e, st, w.fed) + Z(n)); e.oblige(st, G(e, st, w.fed) <= w.R["in"].N, "pre", what + ": not beyond the input")
def enc_chunk(e, st, a, ins): this(e, st, a); at_stage(e, st, 1, "encoding has started and not finished"); feed(e, st, a[1], e.u(st, a[2]), "chunk to encode"); produce(e, st, a[3]); return answer(e, st, "chunk")
def enc_finish(e, st, a, ins): this(e, st, a); at_stage(e, st, 1, "encoding has started and not finished"); gset(e, st, e.world.stage, z3.IntVal(2)); produce(e, st, a[1]); return BoolV(True)
def dec_ctor(e, st, a, ins): st.ghost["coder"] = a[0].reg; return None
def dec_set(name):
    def h(e, st, a, ins):
        this(e, st, a); w = e.world
        if name == "allow_vcd_target": e.oblige(st, B(e.boolof(a[1])) == w.flags[name], "pre", "the decoder is set up with option " + name)
        else: e.oblige(st, Z(e.u(st, a[1])) == w.flags[name], "pre", "the decoder is set up with option " + name)
        st.ghost["set"] = st.ghost.get("set", frozenset()) | {name}; return BoolV(fresh_bool(e, "set"))
    return h
def dec_start(e, st, a, ins):
    this(e, st, a); at_stage(e, st, 0, "decoding starts once"); gset(e, st, e.world.stage, z3.IntVal(1)); r = e.world.R["dictionary"]; text(e, st, a[1], e.u(st, a[2]), r.C, r.N, z3.IntVal(0), "the dictionary is the contents of the dictionary file"); return None
def dec_chunk(e, st, a, ins):
    this(e, st, a); at_stage(e, st, 1, "decoding has started and not finished"); e.oblige(st, st.ghost.get("set", frozenset()) >= {"allow_vcd_target", "max_target_file_size", "max_target_window_size"}, "pre", "the decoder is set up before it decodes")
    feed(e, st, a[1], e.u(st, a[2]), "chunk to decode"); produce(e, st, a[3]); return answer(e, st, "chunk")
def dec_finish(e, st, a, ins): this(e, st, a); at_stage(e, st, 1, "decoding has started and not finished"); gset(e, st, e.world.stage, z3.IntVal(2)); return answer(e, st, "finish")
SE, SD = r"^(bool )?open_vcdiff::VCDiffStreamingEncoder::", r"^(bool )?open_vcdiff::VCDiffStreamingDecoder::"
UP = r"^std::unique_ptr<.*>::"
SUMMARY = [(re.compile(p), f) for p, f in [
    (r"^fopen$", fopen), (r"^fread$", fread), (r"^fwrite$", fwrite), (r"^ferror$", ferror), (r"^feof$", feof), (r"^ftell$", ftell), (r"^fseek$", fseek), (r"^fflush$", fflush), (r"^fclose$", fclose), (r"^(fgetc|getc)$", fgetc),
    (VECP + r"vector\(\)", vec_ctor), (VECP + r"~vector", nothing), (VECP + r"size\(\)", vec_size), (VECP + r"empty\(\)", vec_empty), (VECP + r"resize\(unsigned long\)", vec_resize), (VECP + r"clear\(\)", vec_clear), (VECP + r"operator\[\]", vec_at), (VECP + r"data\(\)", vec_data), (VECP + r"front\(\)", lambda e, st, a, ins: vec_at(e, st, [a[0], IntV(0, 64)], ins)),
    (STRP + r"basic_string\(\)$", str_ctor), (STRP + r"~basic_string", nothing), (STRP + r"(operator=|assign)\(std::__cxx11::basic_string<.*> const&\)", str_assign), (STRP + r"compare\(unsigned long, unsigned long, char const\*, unsigned long\)", str_compare),
    (UP + r"(unique_ptr<.*>\(|unique_ptr\()", up_ctor), (UP + r"(get|operator->)\(\)", up_get), (UP + r"operator bool\(\)", lambda e, st, a, ins: BoolV(up_get(e, st, a, ins).reg is not None)), (UP + r"operator\*\(\)", up_get), (UP + r"reset\(", up_reset), (UP + r"release\(\)", up_release), (UP + r"~unique_ptr", nothing),
    (r"^std::(basic_)?ostream.*operator<<|^std::basic_ostream<char, .*>& std::operator<<|^std::operator<<", stream), (r"^strerror$", opaque_str), (r"^__errno_location$", errno), (r"^__assert_fail$", assert_fail), (r"^std::allocator<char>::", nothing),
    (r"^open_vcdiff::HashedDictionary::HashedDictionary\(", hd_ctor), (r"^open_vcdiff::HashedDictionary::Init\(", hd_init), (r"^open_vcdiff::JSONCodeTableWriter::JSONCodeTableWriter\(\)", json_ctor), (r"^open_vcdiff::VCDiffCodeTableWriter::VCDiffCodeTableWriter\(bool\)", vcd_ctor),
    (SE + r"VCDiffStreamingEncoder\(.*CodeTableWriterInterface", enc_ctor), (SE + r"~", nothing), (SE + r"StartEncoding<", enc_start), (SE + r"EncodeChunk<", enc_chunk), (SE + r"FinishEncoding<", enc_finish),
    (SD + r"VCDiffStreamingDecoder\(\)", dec_ctor), (SD + r"~", nothing), (SD + r"SetMaximumTargetFileSize\(", dec_set("max_target_file_size")), (SD + r"SetMaximumTargetWindowSize\(", dec_set("max_target_window_size")), (SD + r"SetAllowVcdTarget\(", dec_set("allow_vcd_target")),
    (SD + r"StartDecoding\(", dec_start), (SD + r"DecodeChunk<", dec_chunk), (SD + r"FinishDecoding\(", dec_finish)]]
# ------------------------------------------------------------------ the coder object
def off(e, f): return e.di.field(NS + CO, f)[0]
def mk_tool(e, st, inp, out, writing=True):
    """a coder as constructed"""
    w = e.world = World(e, st); w.names(inp, out); w.writing = writing
    o = e.object(st, "coder", NS + CO); w.o = p = PtrV(o, 0)
    for f in ("dictionary_", "input_buffer_", "compare_buffer_"): vnew(e, st, PtrV(o, off(e, f)), init=True)
    for f in ("input_file_name_", "output_file_name_"):
        b = Region(f + ".buf", 2 * MAXSTR, "heap"); b.segs.append(Seg(0, 1, 2 * MAXSTR)); b.isegs[0] = e.fresh_arr(f); b.unbounded = True; o.icells[off(e, f)] = (8, PtrV(b, 0)); o.icells[off(e, f) + 8] = (8, IntV(0, 64, 0, MAXSTR))
    o.icells[off(e, "hashed_dictionary_")] = (8, NULLP)
    for f in ("input_file_", "output_file_"): o.icells[off(e, f)] = (8, NULLP)
    for f in ("input_file_type_", "output_file_type_"): o.icells[off(e, f)] = (8, opaque_str(e, st, [], None))
    return p
class ToolC(Contract):
    props = ("C18",)
    def summary(self, dem):
        c = self.__dict__.setdefault("_sum", {})
        if dem not in c: c[dem] = next((f for p, f in SUMMARY if p.match(dem)), None)
        return c[dem]
    def modifies(self, e, st, a): return None
class FileSize(ToolC):
    match = NS + CO + "::FileSize"; label = "FileSize"
    def setup(self, e, st, case):
        p = mk_tool(e, st, "target", "delta"); r = e.world.R["in"]; r.h = r.handle("in"); r.open.icells[0] = (8, IntV(1, 64)); x = e.fresh("pos"); st.assume(x >= 0, x <= r.N); r.pos.icells[0] = (8, IntV(x, 64, 0, 1 << 62)); s = Region("size", 8, "sym"); s.digrid = {0: ("int", 8, False)}; s.icells[0] = (8, IntV(0, 64)); return [PtrV(r.h, 0), PtrV(s, 0)]
    def post(self, e, s0, s1, a, ret):
        r = a[0].reg.role; w = e.world; b = B(ret.b)
        return [("success: the size of the file, at the same position", z3.Implies(b, z3.And(Z(e.u(s1, e.load(s1, a[1], I64T))) == r.N, G(e, s1, r.pos) == G(e, s0, r.pos)))), ("succeeds unless the file cannot be positioned", b == (G(e, s1, w.failed) == G(e, s0, w.failed)))]
    def pre(self, e, st, a): return [("the file is open", G(e, st, a[0].reg.role.open) == 1), ("nothing failed before", G(e, st, e.world.failed) == 0)] if isinstance(a[0], PtrV) and a[0].reg is not None else [("a file", False)]
    def apply(self, e, st, a):
        for n, g in self.pre(e, st, a): e.oblige(st, g, "pre", "FileSize requires " + n)
        r = a[0].reg.role; b = fresh_bool(e, "filesize"); fail(e, st, b); x = e.fresh_int(st, 64, False, "size"); st.assume(z3.Implies(b, x.t == r.N)); e.store(st, a[1], I64T, x); q = e.fresh("pos"); st.assume(z3.Implies(b, q == G(e, st, r.pos))); gset(e, st, r.pos, q); gset(e, st, r.eof, z3.IntVal(0)); return BoolV(b)
def ok0(e, st): return ("nothing failed before", G(e, st, e.world.failed) == 0)
def g8(*rs): return [(r, ("cell", 0, 8)) for r in rs]
def vec_is(e, st, p, C, N):
    b = e.load(st, p, ir.PTR); n = Z(vsize(e, st, p)); return [("its size is that of the file", n == N), ("its contents are those of the file", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.Select(e.seg_arr(st, b.reg, b.reg.segs[0]), i) == z3.Select(C, i)), patterns=[z3.Select(e.seg_arr(st, b.reg, b.reg.segs[0]), i)]))]
def at(e, p, f): return PtrV(p.reg, p.off.add(off(e, f)))
def vec_locs(e, st, p): return [(p.reg, ("cell", p.off.c + 8, 8)), (p.reg, ("cell", p.off.c + 16, 8)), (e.load(st, p, ir.PTR).reg, ("seg", 0))]
class OpenDictionary(ToolC):
    match = NS + CO + "::OpenDictionary"; label = "OpenDictionary"
    def setup(self, e, st, case): return [mk_tool(e, st, "target", "delta")]
    def pre(self, e, st, a): r = e.world.R["dictionary"]; return [ok0(e, st), ("no dictionary yet", teq(vsize(e, st, at(e, a[0], "dictionary_")), 0)), ("a dictionary file is named", r.name[2] > 0), ("not open yet", G(e, st, r.open) == 0)]
    def modifies(self, e, st, a): r = e.world.R["dictionary"]; return g8(e.world.failed, *r.cells) + vec_locs(e, st, at(e, a[0], "dictionary_"))
    def post(self, e, s0, s1, a, ret):
        r = e.world.R["dictionary"]; b = B(ret.b); return [("success exactly if nothing failed", z3.And(b == (G(e, s1, e.world.failed) == 0), z3.Or(b, G(e, s1, e.world.failed) == 1)))] + [("on success " + n, z3.Implies(b, g)) for n, g in vec_is(e, s1, at(e, a[0], "dictionary_"), r.C, r.N)]
class OpenForReading(ToolC):
    match = NS + CO + "::OpenFileForReading"; label = "OpenFileForReading"; cases = ("input", "comparison")
    def setup(self, e, st, case):
        inp = case == "input"; p = mk_tool(e, st, "target", "delta", writing=False); w = e.world; f = "input_file_name_" if inp else "output_file_name_"; s = at(e, p, f); r = w.R["in" if inp else "out"]
        p.reg.icells[off(e, f)][1].reg.isegs[0] = r.name[1]; p.reg.icells[off(e, f) + 8] = (8, IntV(r.name[2], 64, 0, MAXSTR))
        return [p, s, opaque_str(e, st, [], None), at(e, p, "input_file_" if inp else "output_file_"), at(e, p, "input_buffer_" if inp else "compare_buffer_")]
    def role(self, e, st, a):
        arr = arr_of(e, st, s_ptr(e, st, a[1]))
        for r in e.world.R.values():
            if r.name is not None and arr.eq(r.name[1]): return r
        return None
    def pre(self, e, st, a):
        r = self.role(e, st, a)
        if r is None: return [("a file that the options name", False)]
        f = e.load(st, a[3], ir.PTR)
        return [ok0(e, st), ("the file is not open yet", z3.And(B(isinstance(f, PtrV) and f.reg is None), G(e, st, r.open) == 0, G(e, st, r.pos) == 0, G(e, st, r.eof) == 0, G(e, st, r.err) == 0)), ("no buffer yet", teq(vsize(e, st, a[4]), 0)), ("the whole name", Z(s_len(e, st, a[1])) == r.name[2]), ("a file to compare with is named", z3.Or(r.key == "in", r.name[2] > 0))]
    def modifies(self, e, st, a): r = self.role(e, st, a); return g8(e.world.failed, *r.cells) + vec_locs(e, st, a[4]) + [(a[3].reg, ("cell", a[3].off.c, 8))]
    def post(self, e, s0, s1, a, ret):
        r = self.role(e, s0, a); w = e.world; b = B(ret.b); f = e.load(s1, a[3], ir.PTR); h = f.reg if isinstance(f, PtrV) else None; n = Z(vsize(e, s1, a[4]))
        return [("success exactly if nothing failed", b == (G(e, s1, w.failed) == 0)), ("on success the file named, or standard input if none is, at its start", z3.Implies(b, z3.And(B(h is not None and getattr(h, "role", None) is r), (r.name[2] == 0) == B(getattr(h, "std", False)), z3.Implies(r.name[2] > 0, G(e, s1, r.open) == 1), G(e, s1, r.pos) == 0, G(e, s1, r.eof) == 0, G(e, s1, r.err) == 0))), ("on success a buffer of one byte at least, and no more than the options allow", z3.Implies(b, z3.And(n >= 1, n <= w.flags["buffersize"])))]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a); r = self.role(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "OpenFileForReading requires " + n)
        if r is None: raise PathEnd()
        return opened(e, st, r, a[3], a[4])
def opened(e, st, r, fp, buf=None, wr=False):
    """named file, standard stream, failure"""
    w = e.world; bad = st.copy(); gset(e, bad, w.failed, z3.IntVal(1)); e.store(bad, fp, ir.PTR, OpaqueV("file that was not opened")); out = [(bad, BoolV(False))]
    if not hasattr(r, "h"): r.h = r.handle(r.key)
    std = [h for h in r.handles if getattr(h, "std", False)]
    for h in [r.h] + std:
        if h is r.h: s = st.copy(); s.assume(r.name[2] > 0); gset(e, s, r.open, z3.IntVal(1))
        else: s = st; s.assume(r.name[2] == 0)
        e.store(s, fp, ir.PTR, PtrV(h, 0))
        if wr: gset(e, s, w.flushed, z3.IntVal(0))
        if buf is not None: n = e.fresh("buffer_size"); s.assume(n >= 1, n <= w.flags["buffersize"]); b = e.load(s, buf, ir.PTR); vec_setsize(e, s, buf, n); e.set_seg(s, b.reg, 0, e.fresh_arr("buffer"))
        out.append((s, BoolV(True)))
    return out
class OpenOutput(ToolC):
    match = NS + CO + "::OpenOutputFile"; label = "OpenOutputFile"
    def setup(self, e, st, case):
        p = mk_tool(e, st, "target", "delta"); r = e.world.R["out"]; f = "output_file_name_"; p.reg.icells[off(e, f)][1].reg.isegs[0] = r.name[1]; p.reg.icells[off(e, f) + 8] = (8, IntV(r.name[2], 64, 0, MAXSTR)); return [p]
    def pre(self, e, st, a): r = e.world.R["out"]; s = at(e, a[0], "output_file_name_"); return [ok0(e, st), ("the name the options give", z3.And(B(arr_of(e, st, s_ptr(e, st, s)).eq(r.name[1])), Z(s_len(e, st, s)) == r.name[2])), ("not open yet", z3.And(G(e, st, r.open) == 0, G(e, st, r.pos) == 0, G(e, st, r.err) == 0))]
    def modifies(self, e, st, a): r = e.world.R["out"]; return g8(e.world.failed, e.world.flushed, *r.cells) + [(a[0].reg, ("cell", off(e, "output_file_"), 8))]
    def post(self, e, s0, s1, a, ret):
        r = e.world.R["out"]; w = e.world; b = B(ret.b); f = e.load(s1, at(e, a[0], "output_file_"), ir.PTR); h = f.reg if isinstance(f, PtrV) else None
        return [("success exactly if nothing failed", b == (G(e, s1, w.failed) == 0)), ("on success the file named, or standard output if none is, empty", z3.Implies(b, z3.And(B(h is not None and getattr(h, "role", None) is r), (r.name[2] == 0) == B(getattr(h, "std", False)), z3.Implies(r.name[2] > 0, G(e, s1, r.open) == 1), G(e, s1, r.pos) == 0, G(e, s1, r.err) == 0)))]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "OpenOutputFile requires " + n)
        return opened(e, st, e.world.R["out"], at(e, a[0], "output_file_"), None, True)
def mk_open(e, st, writing=True):
    """a coder with its files open: any position, buffer and produced bytes"""
    p = mk_tool(e, st, "target", "delta", writing); w = e.world; o = p.reg
    for k, f in (("in", "input_file_"), ("out", "output_file_")):
        r = w.R[k]; r.h = r.handle(k); o.icells[off(e, f)] = (8, PtrV(r.h, 0)); r.open.icells[0] = (8, IntV(1, 64)); x = e.fresh(k + ".pos"); st.assume(x >= 0, x < (1 << 61)); r.pos.icells[0] = (8, IntV(x, 64, 0, 1 << 62))
        if k == "in" or not writing: st.assume(x <= r.N)
        x = e.fresh(k + ".eof"); r.eof.icells[0] = (8, IntV(x, 64, 0, 1)); st.assume(x >= 0, x <= 1)
    for f in ("input_buffer_", "compare_buffer_"):
        n = e.fresh(f + ".size"); st.assume(n >= 1, n <= MAXSTR); b = o.icells[off(e, f)][1].reg
        for d in (8, 16): o.icells[off(e, f) + d] = (8, PtrV(b, n, b.segs[0]))
    return p
def mk_out(e, st):
    s = Region("output", 32, "sym"); s.digrid = {0: ("ptr", 8), 8: ("int", 8, False)}; str_init(e, st, s, 0, "output"); return PtrV(s, 0)
def file_ok(e, st, p, f, k):
    h = e.load(st, at(e, p, f), ir.PTR); r = e.world.R[k]; h = h.reg if isinstance(h, PtrV) else None
    return ("the %sput file is open" % k, z3.And(B(h is not None and getattr(h, "role", None) is r), z3.If(B(getattr(h, "std", False)), r.name[2] == 0, G(e, st, r.open) == 1), G(e, st, r.err) == 0))
class ReadInput(ToolC):
    match = NS + CO + "::ReadInput"; label = "ReadInput"
    def setup(self, e, st, case):
        p = mk_open(e, st); n = Region("bytes_read", 8, "sym"); n.digrid = {0: ("int", 8, False)}; n.icells[0] = (8, IntV(0, 64)); return [p, PtrV(n, 0)]
    def pre(self, e, st, a): r = e.world.R["in"]; return [ok0(e, st), file_ok(e, st, a[0], "input_file_", "in"), ("a buffer", B(tle(1, vsize(e, st, at(e, a[0], "input_buffer_"))))), ("at the end only if everything was read", z3.Implies(G(e, st, r.eof) != 0, G(e, st, r.pos) == r.N)), ("within the file", z3.And(G(e, st, r.pos) >= 0, G(e, st, r.pos) <= r.N))]
    def modifies(self, e, st, a): r = e.world.R["in"]; return g8(e.world.failed, r.pos, r.eof, r.err) + [(e.load(st, at(e, a[0], "input_buffer_"), ir.PTR).reg, ("seg", 0)), (a[1].reg, ("cell", a[1].off.c, 8))]
    def post(self, e, s0, s1, a, ret):
        r = e.world.R["in"]; w = e.world; b = B(ret.b); n = Z(e.u(s1, e.load(s1, a[1], I64T))); v = at(e, a[0], "input_buffer_"); sz = Z(vsize(e, s0, v)); q = e.load(s1, v, ir.PTR); arr = e.seg_arr(s1, q.reg, q.reg.segs[0]); p0, p1 = G(e, s0, r.pos), G(e, s1, r.pos)
        return [("success exactly if nothing failed", z3.And(b == (G(e, s1, w.failed) == 0), b == (G(e, s1, r.err) == 0), z3.Or(b, G(e, s1, w.failed) == 1))), ("as many bytes as reported are read, within the buffer and the file", z3.And(n == p1 - p0, n >= 0, n <= sz, p1 <= r.N)), ("the next bytes of the file", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(r.C, p0 + i)), patterns=[z3.Select(arr, i)])), ("end of file exactly if the buffer is not filled", z3.Implies(b, z3.And((G(e, s1, r.eof) != 0) == (n < sz), z3.Implies(n < sz, p1 == r.N))))]
def follows(e, st, s):
    """the string's bytes are those produced from the position of the output file on"""
    w = e.world; r = w.R["out"]; n = Z(s_len(e, st, s)); b = s_ptr(e, st, s); arr = e.seg_arr(st, b.reg, b.reg.segs[0]); pos = G(e, st, r.pos)
    return [("the output that follows what the file has", z3.And(pos >= 0, n >= 0, pos + n <= G(e, st, w.made), G(e, st, w.made) < (1 << 62))), ("the bytes produced", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(w.E, pos + i)), patterns=[z3.Select(arr, i)]))]
class WriteOutput(ToolC):
    match = NS + CO + "::WriteOutput"; label = "WriteOutput"
    def setup(self, e, st, case):
        p = mk_open(e, st); w = e.world; m = e.fresh("made"); w.made.icells[0] = (8, IntV(m, 64, 0, 1 << 62)); x = e.fresh("flushed"); w.flushed.icells[0] = (8, IntV(x, 64, 0, 1)); return [p, mk_out(e, st)]
    def pre(self, e, st, a): return [ok0(e, st), file_ok(e, st, a[0], "output_file_", "out")] + follows(e, st, a[1])
    def modifies(self, e, st, a): r = e.world.R["out"]; return g8(e.world.failed, e.world.flushed, r.pos, r.err)
    def post(self, e, s0, s1, a, ret):
        r = e.world.R["out"]; w = e.world; b = B(ret.b); n = Z(s_len(e, s0, a[1]))
        return [("success exactly if nothing failed", z3.And(b == (G(e, s1, w.failed) == 0), b == (G(e, s1, r.err) == 0), z3.Or(b, G(e, s1, w.failed) == 1))), ("on success the whole output is written", z3.Implies(b, G(e, s1, r.pos) == G(e, s0, r.pos) + n)), ("the output is not flushed unless it was", z3.Or(G(e, s1, w.flushed) == 0, z3.And(n == 0, G(e, s1, w.flushed) == G(e, s0, w.flushed))))]
class FinishOutput(ToolC):
    match = NS + CO + "::FinishOutput"; label = "FinishOutput"
    cases = ("named", "standard output")
    def setup(self, e, st, case):
        p = mk_open(e, st); r = e.world.R["out"]
        if case != "named": r.open.icells[0] = (8, IntV(0, 64)); st.assume(r.name[2] == 0); p.reg.icells[off(e, "output_file_")] = (8, PtrV(e.world.std["stdout"], 0))
        return [p]
    def pre(self, e, st, a): return [ok0(e, st), file_ok(e, st, a[0], "output_file_", "out")]
    def modifies(self, e, st, a): r = e.world.R["out"]; return g8(e.world.failed, e.world.flushed, r.open) + [(a[0].reg, ("cell", off(e, "output_file_"), 8))]
    def post(self, e, s0, s1, a, ret):
        w = e.world; b = B(ret.b); return [("success exactly if everything reached the file", z3.And(b == (G(e, s1, w.failed) == 0), z3.Or(b, G(e, s1, w.failed) == 1), z3.Implies(b, G(e, s1, w.flushed) == 1)))]
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "FinishOutput requires " + n)
        w = e.world; b = fresh_bool(e, "finish"); fail(e, st, b); gset(e, st, w.flushed, z3.If(b, 1, G(e, st, w.flushed))); gset(e, st, w.R["out"].open, z3.IntVal(0)); e.store(st, at(e, a[0], "output_file_"), ir.PTR, OpaqueV("closed file")); return BoolV(b)
class CompareOutput(ToolC):
    match = NS + CO + "::CompareOutput"; label = "CompareOutput"
    def setup(self, e, st, case): return [mk_open(e, st, writing=False), mk_out(e, st)]
    def pre(self, e, st, a): r = e.world.R["out"]; return [ok0(e, st), file_ok(e, st, a[0], "output_file_", "out"), ("within the file", z3.And(G(e, st, r.pos) >= 0, G(e, st, r.pos) <= r.N))]
    def modifies(self, e, st, a): r = e.world.R["out"]; return g8(e.world.failed, r.pos, r.eof, r.err) + vec_locs(e, st, at(e, a[0], "compare_buffer_"))
    def post(self, e, s0, s1, a, ret):
        r = e.world.R["out"]; w = e.world; b = B(ret.b); n = Z(s_len(e, s0, a[1])); q = s_ptr(e, s0, a[1]); arr = e.seg_arr(s0, q.reg, q.reg.segs[0]); p0, p1 = G(e, s0, r.pos), G(e, s1, r.pos); same = z3.ForAll([i], z3.Implies(z3.And(i >= p0, i < p0 + n), z3.Select(arr, i - p0) == z3.Select(r.C, i)), patterns=[z3.Select(r.C, i)])
        return [("success only if nothing failed", z3.Implies(b, z3.And(G(e, s1, w.failed) == 0, G(e, s1, r.err) == 0))), ("a failure is reported", z3.Or(G(e, s1, w.failed) == 0, z3.And(G(e, s1, w.failed) == 1, z3.Not(b)))), ("on success the bytes are the next ones of the file", z3.Implies(b, z3.And(p1 == p0 + n, p1 <= r.N, same))), ("without a failure, refused only if they are not", z3.Implies(z3.And(z3.Not(b), G(e, s1, w.failed) == 0), z3.Or(p0 + n > r.N, z3.Not(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(r.C, p0 + i)), patterns=[z3.Select(arr, i)])))))]
class Whole(ToolC):
    """one operation, on a coder as constructed"""
    writing = True; inp, out = "target", "delta"
    cost = 5
    def setup(self, e, st, case):
        p = mk_tool(e, st, self.inp, self.out, self.writing); w = e.world
        for n, b in (("json", "JSON"), ("interleaved", "interleaved")):
            if b in case: st.assume(w.flags[n] if "not " + b not in case else z3.Not(w.flags[n]))
        return [p]
    def pre(self, e, st, a): return [ok0(e, st), ("a dictionary file is named", e.world.R["dictionary"].name[2] > 0)]
    def strings(self, e, L):
        out = []
        for r in L.locals:
            c = L.entry.rc(r).cells.get(0)
            if c and isinstance(c[1], PtrV) and c[1].reg is not None and getattr(c[1].reg, "unbounded", False) and 8 in L.entry.rc(r).cells: out.append(PtrV(r, 0))
        return out
    def loop_candidates(self, e, L):
        w = e.world; I, O = w.R["in"], w.R["out"]; g = lambda st, c: gget(e, st, c); out = []
        out += [("!nothing failed", lambda st: z3.And(*[g(st, c) == 0 for c in (w.failed, I.err, O.err)])), ("!not at the end of the input", lambda st: g(st, I.eof) == 0), ("!at the end of the input only if all was read", lambda st: z3.Implies(g(st, I.eof) != 0, g(st, I.pos) == I.N)), ("!started", lambda st: g(st, w.stage) == 1),
                ("!everything read was used", lambda st: g(st, w.fed) == g(st, I.pos)), ("!within the input", lambda st: z3.And(g(st, I.pos) >= 0, g(st, I.pos) <= I.N)), ("!files stay open", lambda st: z3.And(*[g(st, c) == g(L.entry, c) for c in (I.open, O.open)])), ("!sizes", lambda st: z3.And(g(st, O.pos) >= 0, g(st, w.made) >= g(st, O.pos), g(st, w.made) < (1 << 62)))]
        for s in self.strings(e, L):
            n = lambda st, s=s: Z(s_len(e, st, s)); arr = lambda st, s=s: (lambda b: e.seg_arr(st, b.reg, b.reg.segs[0]))(s_ptr(e, st, s))
            out += [("!pending output", lambda st, n=n: z3.And(n(st) >= 0, n(st) <= MAXSTR, g(st, O.pos) + n(st) == g(st, w.made))), ("!no pending output", lambda st, n=n: n(st) == 0),
                    ("!pending bytes", lambda st, n=n, arr=arr: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), z3.Select(arr(st), i) == z3.Select(w.E, g(st, O.pos) + i)), patterns=[z3.Select(arr(st), i)]))]
        if not self.writing: out += [("!same so far", lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g(st, O.pos)), z3.Select(w.E, i) == z3.Select(O.C, i)), patterns=[z3.Select(O.C, i)])), ("!within the file compared", lambda st: g(st, O.pos) <= O.N)]
        return out
    def variant(self, e, s0, s1, fn, header):
        r = e.world.R["in"]; a, b = gget(e, s0, r.pos), gget(e, s1, r.pos); return z3.And(b > a, b <= r.N)
    def done(self, e, s1):
        w = e.world; I, O = w.R["in"], w.R["out"]; return [("the whole input was read and used", z3.And(G(e, s1, w.fed) == I.N)), ("the library was started and finished", G(e, s1, w.stage) == 2)]
    def post(self, e, s0, s1, a, ret):
        w = e.world; O = w.R["out"]; b = B(ret.b)
        return [("success only if nothing failed", z3.Implies(b, G(e, s1, w.failed) == 0)), ("failure only if something failed", z3.Implies(z3.Not(b), G(e, s1, w.failed) == 1)), ("on success everything produced was written", z3.Implies(b, G(e, s1, O.pos) == G(e, s1, w.made))), ("on success the output reached the file", z3.Implies(b, G(e, s1, w.flushed) == 1))] + [("on success " + n, z3.Implies(b, g)) for n, g in self.done(e, s1)]
    def apply(self, e, st, a):
        if not isinstance(e.cur, Main): raise Unsupported("a whole operation at a call site")
        w = e.world; e.oblige(st, z3.And(w.flags["dictionary"][2] > 0, w.flags["buffersize"] >= 1), "pre", self.label + " requires a dictionary file and a buffer")
        if not self.writing: e.oblige(st, z3.And(w.flags["target"][2] > 0, w.flags["delta"][2] > 0), "pre", self.label + " requires both files to be named")
        e.oblige(st, B(a[0].reg.id in st.ghost.get("coders", ())), "pre", self.label + " requires a new coder"); st.ghost["coders"] = st.ghost["coders"] - {a[0].reg.id}
        b = fresh_bool(e, "op"); st.ghost["ops"] = st.ghost.get("ops", ()) + ((type(self).__name__, b),); return BoolV(b)
class ToolEncode(Whole):
    match = NS + CO + "::Encode"; label = "vcdiff encode"; cases = tuple("%s, %s" % (x, y) for x in ("JSON", "not JSON") for y in ("interleaved", "not interleaved"))
class ToolDecode(Whole):
    match = NS + CO + "::Decode"; label = "vcdiff decode"; inp, out = "delta", "target"
class ToolCompare(Whole):
    match = NS + CO + "::DecodeAndCompare"; label = "vcdiff test"; inp, out = "delta", "target"; writing = False
    def pre(self, e, st, a): return Whole.pre(self, e, st, a) + [("both files are named", z3.And(*[e.world.R[k].name[2] > 0 for k in ("in", "out")]))]
    def post(self, e, s0, s1, a, ret):
        w = e.world; O = w.R["out"]; b = B(ret.b); all_ = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < O.N), z3.Select(w.E, i) == z3.Select(O.C, i)), patterns=[z3.Select(O.C, i)])
        return [("success only if nothing failed", z3.Implies(b, G(e, s1, w.failed) == 0)), ("on success what was decoded is the whole target file", z3.Implies(b, z3.And(G(e, s1, w.made) == O.N, all_))), ("failure only if something failed or they differ", z3.Implies(z3.And(z3.Not(b), G(e, s1, w.failed) == 0), z3.Not(z3.And(G(e, s1, w.made) == O.N, all_))))] + [("on success " + n, z3.Implies(b, g)) for n, g in self.done(e, s1)]
class ToolCtor(ToolC):
    match = NS + CO + "::VCDiffFileBasedCoder"; label = "VCDiffFileBasedCoder()"
    def setup(self, e, st, case):
        e.world = World(e, st); e.world.names("target", "delta"); e.world.writing = True; o = Region("coder", e.object(st, "layout", NS + CO).size, "sym", uninit=True); o.digrid = {off(e, f) + d: ("ptr", 8) for f, ds in (("dictionary_", (0, 8, 16)), ("input_buffer_", (0, 8, 16)), ("compare_buffer_", (0, 8, 16)), ("hashed_dictionary_", (0,)), ("input_file_type_", (0,)), ("output_file_type_", (0,)), ("input_file_name_", (0,)), ("output_file_name_", (0,)), ("input_file_", (0,)), ("output_file_", (0,))) for d in ds}
        for f in ("input_file_name_", "output_file_name_"): o.digrid[off(e, f) + 8] = ("int", 8, False)
        return [PtrV(o, 0)]
    def post(self, e, s0, s1, a, ret):
        null = lambda f: (lambda v: isinstance(v, PtrV) and v.reg is None)(e.load(s1, at(e, a[0], f), ir.PTR))
        return [("no file is open", null("input_file_") and null("output_file_")), ("no dictionary", null("hashed_dictionary_")), ("no buffers, no names", z3.And(*[Z(vsize(e, s1, at(e, a[0], f))) == 0 for f in ("dictionary_", "input_buffer_", "compare_buffer_")] + [Z(s_len(e, s1, at(e, a[0], f))) == 0 for f in ("input_file_name_", "output_file_name_")]))]
    def apply(self, e, st, a): st.ghost["coders"] = st.ghost.get("coders", frozenset()) | {a[0].reg.id}; return None
class ToolDtor(ToolC):
    match = NS + CO + "::~VCDiffFileBasedCoder"; label = "~VCDiffFileBasedCoder"; cases = tuple("%s, %s" % (x, y) for x in ("no input", "input", "standard input") for y in ("no output", "output", "standard output"))
    def setup(self, e, st, case):
        p = mk_tool(e, st, "target", "delta"); self.named = []
        for k, f, d, c in (("in", "input_file_", "stdin", case.split(", ")[0]), ("out", "output_file_", "stdout", case.split(", ")[1])):
            r = e.world.R[k]
            if c.startswith("standard"): p.reg.icells[off(e, f)] = (8, PtrV(e.world.std[d], 0)); st.assume(r.name[2] == 0)
            elif not c.startswith("no"): r.h = r.handle(k); r.open.icells[0] = (8, IntV(1, 64)); p.reg.icells[off(e, f)] = (8, PtrV(r.h, 0))
        return [p]
    def post(self, e, s0, s1, a, ret): return [("every file it opened is closed", z3.And(*[G(e, s1, r.open) == 0 for r in e.world.R.values()]))]
    def apply(self, e, st, a): return None
def is_default(e, st, a, ins):
    """flag info: is_default means the value is that of the definition"""
    n = cstr(e, a[1]); w = e.world; b = fresh_bool(e, "is_default"); g = [x for x in e.mod.globals if "FLAGS_" + n + "E" in x and "fLU64L" not in x]
    v = e.mod.glob(g[0]).init if g else None
    if n not in w.flags or v is None: raise Unsupported("flag " + n)
    v = v[1] if isinstance(v, tuple) else v
    if not isinstance(v, int): raise Unsupported("initial value of " + n)
    st.assume(z3.Implies(b, w.flags[n] == v)); o = [e.di.field(q + "CommandLineFlagInfo", "is_default")[0] for q in ("google::", "gflags::") if e.di.has(q + "CommandLineFlagInfo")] if hasattr(e.di, "has") else [e.di.field("google::CommandLineFlagInfo", "is_default")[0]]
    e.store(st, PtrV(a[0].reg, a[0].off.add(o[0])), I8, IntV(z3.If(b, 1, 0), 8, 0, 1, b)); return None
def parse_flags(e, st, a, ins):
    e.oblige(st, B(e.boolof(a[2])), "pre", "flags are removed from the arguments"); n = e.fresh_int(st, 32, True, "argc"); st.assume(n.t >= 1); e.store(st, a[0], I32, n); st.ghost["argc"] = n.t
    v = e.load(st, a[1], ir.PTR); st.wrc(v.reg).cells[8] = (8, PtrV(e.world.cmd, 0)); return IntV(1, 32)
CMDS = {"encode": "E", "delta": "E", "decode": "D", "patch": "D", "test": "T"}
def strcmp(e, st, a, ins):
    p, q = (a[0], a[1]) if a[0].reg is e.world.cmd else (a[1], a[0])
    if p.reg is not e.world.cmd: raise Unsupported("strcmp")
    c = cstr(e, q); v = e.fresh_int(st, 32, True, "strcmp"); st.assume((v.t == 0) == e.world.cmd_is(c)); return v
MAIN = [(re.compile(p), f) for p, f in [(r"^(google|gflags)::SetUsageMessage|^(google|gflags)::SetVersionString|^(google|gflags)::ShowUsage|^(google|gflags)::CommandLineFlagInfo::~|^std::__new_allocator<char>::|^std::allocator<char>::", nothing), (r"^(google|gflags)::ParseCommandLineFlags\(", parse_flags), (r"^(google|gflags)::GetCommandLineFlagInfoOrDie\(", is_default), (r"^strcmp$", strcmp), (STRP + r"basic_string(<.*>)?\((char const\*|std::__cxx11).*", str_ctor)]]
class Main(ToolC):
    match = "main"; label = "main"
    def summary(self, dem):
        for p, f in MAIN:
            if p.match(dem): return f
        return ToolC.summary(self, dem)
    def setup(self, e, st, case):
        w = e.world = World(e, st, any_buffer=True); w.writing = True; av = Region("argv", 1 << 20, "sym"); w.cmd = Region("command", 1 << 20, "sym", ro=True); w.cmd.segs.append(Seg(0, 1, 1 << 20)); av.digrid = {0: ("ptr", 8), 8: ("ptr", 8)}; av.icells[0] = (8, opaque_str(e, st, [], None)); av.icells[8] = (8, PtrV(w.cmd, 0)); self.kinds = {}
        def cmd_is(c): return self.kinds.setdefault(c, z3.Bool("command_is_" + c))
        w.cmd_is = cmd_is; ks = sorted(CMDS)
        for x in ks:
            for y in ks:
                if x < y: st.assume(z3.Not(z3.And(cmd_is(x), cmd_is(y))))
        n = e.fresh_int(st, 32, True, "argc"); st.assume(n.t >= 1); return [n, PtrV(av, 0)]
    def post(self, e, s0, s1, a, ret):
        w = e.world; r = Z(e.s(s1, ret)); z = r % 256 == 0; ops = s1.ghost.get("ops", ()); names = tuple(x for x, _ in ops); cmd = lambda k: z3.Or(*[w.cmd_is(c) for c in CMDS if CMDS[c] == k]); allok = z3.And(*[b for _, b in ops]); argc = s1.ghost.get("argc", z3.IntVal(1))
        named = z3.And(w.flags["target"][2] > 0, w.flags["delta"][2] > 0); ready = z3.And(argc == 2, w.flags["dictionary"][2] > 0, w.flags["buffersize"] >= 1)
        want = {"E": ("ToolEncode",), "D": ("ToolDecode",), "T": ("ToolEncode", "ToolCompare")}
        return [("success only after the operation asked for, and only if it succeeded", z3.Implies(z, z3.And(allok, z3.Or(*[z3.And(cmd(k), B(names == want[k])) for k in want])))), ("nothing else is done", z3.And(*[z3.Implies(B(len(ops) > 0), z3.Or(*[z3.And(cmd(k), B(names == want[k][:len(names)])) for k in want]))])),
                ("a valid command that succeeds is reported as success", z3.Implies(z3.And(allok, ready, z3.Or(cmd("E"), cmd("D"), z3.And(cmd("T"), named))), z))]
CONTRACTS = [Main(), ToolCtor(), ToolDtor(), ToolEncode(), ToolDecode(), ToolCompare(), FileSize(), OpenDictionary(), OpenForReading(), OpenOutput(), ReadInput(), WriteOutput(), FinishOutput(), CompareOutput()]
