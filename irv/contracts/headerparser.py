"""ParseableChunk and VCDiffHeaderParser (property C10; used by C02, C04, C03).

The header is specified functionally: VR/VN (varint.py) name the result and next position of parsing a varint at a
position, so each composite parse is a fixed chain of them and acceptance is an 'if and only if'."""
from .common import *
from .varint import VR, VN
CH = "ParseableChunk"; CLS = "VCDiffHeaderParser"
SUCCESS, ERROR, END = 0, -1, -2
B8, W32, W64 = ir.IntTy(8), ir.IntTy(32), ir.IntTy(64)

def mk_chunk(e, st, reg, off0, buf, name="chunk"):
    """start_ <= position_ <= end_ inside buf"""
    s, p, n = e.fresh(name + ".start"), e.fresh(name + ".pos"), e.fresh(name + ".end")
    st.assume(s >= 0, s <= p, p <= n, n <= Z(buf.size))
    for f, x in (("start_", s), ("position_", p), ("end_", n)): setinit(e, reg, off0, CH, f, PtrV(buf, x, buf.segs[0]))
    return s, p, n
class CView:
    def __init__(self, e, st, p):
        self.start, self.pos, self.end = [getv(e, st, p, CH, f) for f in ("start_", "position_", "end_")]
    def same_buffer(self): return self.start.reg is self.pos.reg and self.end.reg is self.pos.reg and self.pos.reg is not None
    @property
    def P(self): return Z(self.pos.off.z())
    @property
    def L(self): return Z(self.end.off.z())
    @property
    def S(self): return Z(self.start.off.z())
    def inv(self):
        if not self.same_buffer(): return [("the chunk is one buffer", False)]
        return [("start <= position <= end", z3.And(self.S <= self.P, self.P <= self.L))]
class ChunkContract(Contract):
    props = ("C10", "C02", "C04")
    def obj(self, e, st):
        o = e.object(st, "chunk", NS + CH); self.buf = e.buffer(st, "data", ro=True); mk_chunk(e, st, o, 0, self.buf); return PtrV(o, 0)
    def pre(self, e, st, a): return CView(e, st, a[0]).inv()
    def modifies(self, e, st, a): return [cell(e, a[0], CH, "position_")]
class Advance(ChunkContract):
    match = NS + CH + "::Advance"
    def setup(self, e, st, case): return [self.obj(e, st), e.fresh_int(st, 64, False, "n")]
    def pre(self, e, st, a):
        c = CView(e, st, a[0])
        return c.inv() + [("no more bytes than remain", Z(e.u(st, a[1])) <= c.L - c.P)]
    def post(self, e, s0, s1, a, ret):
        c0, c1 = CView(e, s0, a[0]), CView(e, s1, a[0])
        if c1.pos.reg is not c0.pos.reg: return [("position stays in the data", False)]
        return [("position moves by exactly that many bytes", c1.P == c0.P + Z(e.u(s0, a[1])))] + c1.inv()
class FinishExcept(ChunkContract):
    match = NS + CH + "::FinishExcept"
    def setup(self, e, st, case): return [self.obj(e, st), e.fresh_int(st, 64, False, "n")]
    def pre(self, e, st, a):
        c = CView(e, st, a[0])
        return c.inv() + [("no more bytes than remain", Z(e.u(st, a[1])) <= c.L - c.P)]
    def post(self, e, s0, s1, a, ret):
        c0, c1 = CView(e, s0, a[0]), CView(e, s1, a[0])
        if c1.pos.reg is not c0.pos.reg: return [("position stays in the data", False)]
        return [("exactly that many bytes remain", c1.L - c1.P == Z(e.u(s0, a[1])))] + c1.inv()
class SetPosition(ChunkContract):
    match = NS + CH + "::SetPosition"
    def setup(self, e, st, case):
        o = self.obj(e, st); q = e.fresh("q"); st.assume(q >= 0, q <= Z(self.buf.size))
        return [o, PtrV(self.buf, q, self.buf.segs[0])]
    def pre(self, e, st, a):
        c = CView(e, st, a[0])
        if a[1].reg is not c.pos.reg: return [("the new position is in the data", False)]
        q = Z(a[1].off.z())
        return c.inv() + [("the new position is in the data", z3.And(c.S <= q, q <= c.L))]
    def post(self, e, s0, s1, a, ret):
        c1 = CView(e, s1, a[0])
        if c1.pos.reg is not a[1].reg: return [("position stays in the data", False)]
        return [("the position is the one given", c1.P == Z(a[1].off.z()))] + c1.inv()

# ------------------------------------------------------------------ the parser
class PView(CView):
    def __init__(self, e, st, p):
        q = fld(e, p, CLS, "parseable_chunk_")[0]
        CView.__init__(self, e, st, q)
        self.chunk = q
        self.rc = geti(e, st, p, CLS, "return_code_")
        self.dlen = geti(e, st, p, CLS, "delta_encoding_length_"); self.dstart = getv(e, st, p, CLS, "delta_encoding_start_")
    def arr(self, e, st): return arr_of(e, st, self.pos)
    def inv(self):
        return CView.inv(self) + [("return code is one of the three", z3.And(self.rc >= END, self.rc <= SUCCESS))]
def mk_parser(e, st, o, off0, buf, started=False, name="parser"):
    off, _ = e.di.field(NS + CLS, "parseable_chunk_")
    s, p, n = mk_chunk(e, st, o, off0 + off, buf, name)
    rc = e.fresh_int(st, 32, True, "rc"); dl = e.fresh_int(st, 64, False, "dlen")
    setinit(e, o, off0, CLS, "return_code_", rc); setinit(e, o, off0, CLS, "delta_encoding_length_", dl)
    if started:
        d = e.fresh("dstart"); st.assume(d >= s, d <= p)
        setinit(e, o, off0, CLS, "delta_encoding_start_", PtrV(buf, d, buf.segs[0]))
    else: setinit(e, o, off0, CLS, "delta_encoding_start_", NULLP)
def out_cell(e, st, name, w, signed=True):
    r = Region(name, w // 8, "sym"); r.icells[0] = (w // 8, e.fresh_int(st, w, signed, name + "0")); return PtrV(r, 0)
def text(e, name="text"):
    r = Region(name, 64, "sym", ro=True); r.segs.append(Seg(0, 1, 64)); r.isegs[0] = e.fresh_arr(name); return PtrV(r, 0)
def rd(e, st, p, w, signed):
    v = e.load(st, p, ir.IntTy(w)); return Z(e.s(st, v) if signed else e.u(st, v))
def rdcell(p, w): return (p.reg, ("cell", p.off.c, w // 8))

class ParserContract(Contract):
    props = ("C10", "C02", "C04")
    started = False
    def obj(self, e, st, started=False):
        o = e.object(st, "parser", NS + CLS); self.buf = e.buffer(st, "data", ro=True)
        mk_parser(e, st, o, 0, self.buf, started); return PtrV(o, 0)
    def pre(self, e, st, a): return PView(e, st, a[0]).inv()
    def modifies(self, e, st, a):
        return [cell(e, a[0], CLS, "parseable_chunk_.position_"), cell(e, a[0], CLS, "return_code_")] + [rdcell(p, w) for p, w in self.outs(a)]
    def outs(self, a): return []
    def apply(self, e, st, a):
        # an output that was never assigned holds an arbitrary value
        for p, w in self.outs(a):
            with Spec(e):
                if not isinstance(e.load(st, p, ir.IntTy(w)), IntV): e.store(st, p, ir.IntTy(w), e.fresh_int(st, w, False, "garbage"))
        return Contract.apply(self, e, st, a)
    def chain(self, e, s0, s1, a, ok, rcfail, vals, npos, ret, extra=()):
        """the parse succeeds exactly when ok; then the outputs are vals and the position is npos, else return_code_ is rcfail"""
        v0, v1 = PView(e, s0, a[0]), PView(e, s1, a[0])
        if v1.pos.reg is not v0.pos.reg: return [("position stays in the data", False)]
        b = B(ret.b)
        out = [("after a failure nothing more is parsed", z3.Implies(v0.rc != SUCCESS, z3.And(z3.Not(b), v1.rc == v0.rc, v1.P == v0.P))),
               ("accepted exactly when well-formed", z3.Implies(v0.rc == SUCCESS, b == ok)),
               ("the failure reported is the first one (error, or end of data)", z3.Implies(z3.And(v0.rc == SUCCESS, z3.Not(b)), v1.rc == rcfail)),
               ("success leaves the result code", z3.Implies(b, v1.rc == SUCCESS)),
               ("exactly the parsed bytes are consumed", z3.Implies(b, v1.P == npos)),
               ("the position never moves back", v1.P >= v0.P)]
        for n, f in vals: out.append(("value of " + n, z3.Implies(b, f)))
        return out + v1.inv() + list(extra)

class ParseByte(ParserContract):
    match = NS + CLS + "::ParseByte"
    def setup(self, e, st, case): return [self.obj(e, st), out_cell(e, st, "value", 8, False)]
    def outs(self, a): return [(a[1], 8)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); x0, x1 = rd(e, s0, a[1], 8, False), rd(e, s1, a[1], 8, False)
        return self.chain(e, s0, s1, a, v.P < v.L, END, [("the byte", x1 == v.arr(e, s0)[v.P])], v.P + 1, ret,
                          [("output untouched on failure", z3.Implies(z3.Not(B(ret.b)), x1 == x0))])
class ParseInt32(ParserContract):
    match = NS + CLS + "::ParseInt32"
    def setup(self, e, st, case): return [self.obj(e, st), text(e), out_cell(e, st, "value", 32)]
    def outs(self, a): return [(a[2], 32)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); r, n = VR[32](v.arr(e, s0), v.P, v.L), VN[32](v.arr(e, s0), v.P, v.L)
        x0, x1 = rd(e, s0, a[2], 32, True), rd(e, s1, a[2], 32, True)
        return self.chain(e, s0, s1, a, r >= 0, r, [("the integer", x1 == r)], n, ret, [("output untouched on failure", z3.Implies(z3.Not(B(ret.b)), x1 == x0))])
class ParseUInt32(ParserContract):
    match = NS + CLS + "::ParseUInt32"; signed = False; w = 32
    def setup(self, e, st, case): return [self.obj(e, st), text(e), out_cell(e, st, "value", self.w, False)]
    def outs(self, a): return [(a[2], self.w)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); r, n = VR[64](v.arr(e, s0), v.P, v.L), VN[64](v.arr(e, s0), v.P, v.L)
        x0, x1 = rd(e, s0, a[2], self.w, False), rd(e, s1, a[2], self.w, False)
        return self.chain(e, s0, s1, a, z3.And(r >= 0, r <= 0xffffffff), z3.If(r < 0, r, ERROR), [("the integer", x1 == r)], n, ret,
                          [("output untouched on failure", z3.Implies(z3.Not(B(ret.b)), x1 == x0))])
class ParseChecksum(ParseUInt32):
    match = NS + CLS + "::ParseChecksum"; w = 64
    props = ("C10", "C07", "C02")
class ParseSize(ParserContract):
    match = NS + CLS + "::ParseSize"
    def setup(self, e, st, case): return [self.obj(e, st), text(e), out_cell(e, st, "value", 64, False)]
    def outs(self, a): return [(a[2], 64)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); r, n = VR[32](v.arr(e, s0), v.P, v.L), VN[32](v.arr(e, s0), v.P, v.L)
        x0, x1 = rd(e, s0, a[2], 64, False), rd(e, s1, a[2], 64, False)
        return self.chain(e, s0, s1, a, r >= 0, r, [("the size", z3.And(x1 == r, x1 <= INT_MAX))], n, ret, [("output untouched on failure", z3.Implies(z3.Not(B(ret.b)), x1 == x0))])

def seg_chain(arr, P, L, size):
    """source segment length and position at P -> (well-formed, failure code, length, position, next)"""
    r1, n1 = VR[32](arr, P, L), VN[32](arr, P, L); r2, n2 = VR[32](arr, n1, L), VN[32](arr, n1, L)
    ok = z3.And(r1 >= 0, r2 >= 0, r1 + r2 <= size)
    fail = z3.If(r1 < 0, r1, z3.If(r1 > size, ERROR, z3.If(r2 < 0, r2, ERROR)))
    return ok, fail, r1, r2, n2
class ParseSourceSegment(ParserContract):
    match = NS + CLS + "::ParseSourceSegmentLengthAndPosition"
    props = ("C10", "C02", "C03")
    def setup(self, e, st, case):
        return [self.obj(e, st), e.fresh_int(st, 64, False, "from_size"), text(e), text(e), out_cell(e, st, "len", 64, False), out_cell(e, st, "posn", 64, False)]
    def outs(self, a): return [(a[4], 64), (a[5], 64)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); ok, fail, r1, r2, n = seg_chain(v.arr(e, s0), v.P, v.L, Z(e.u(s0, a[1])))
        x1, x2 = rd(e, s1, a[4], 64, False), rd(e, s1, a[5], 64, False)
        return self.chain(e, s0, s1, a, ok, fail, [("segment length", x1 == r1), ("segment position", x2 == r2)], n, ret,
                          [("a segment length is only ever stored if valid", z3.Or(x1 == rd(e, s0, a[4], 64, False), x1 <= INT_MAX))])
class ParseWinIndicator(ParserContract):
    match = NS + CLS + "::ParseWinIndicatorAndSourceSegment"
    props = ("C10", "C02", "C03")
    def setup(self, e, st, case):
        return [self.obj(e, st), e.fresh_int(st, 64, False, "dict_size"), e.fresh_int(st, 64, False, "target_size"), BoolV(z3.Bool("allow_vcd_target")),
                out_cell(e, st, "win", 8, False), out_cell(e, st, "len", 64, False), out_cell(e, st, "posn", 64, False)]
    def outs(self, a): return [(a[4], 8), (a[5], 64), (a[6], 64)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); arr = v.arr(e, s0); w = arr[v.P]
        ds, ts, allow = Z(e.u(s0, a[1])), Z(e.u(s0, a[2])), B(a[3].b)
        f = w % 4
        sok, sf, s1r, s2r, sn = seg_chain(arr, v.P + 1, v.L, z3.If(f == 1, ds, ts))
        ok = z3.And(v.P < v.L, z3.Or(f == 0, z3.And(f == 1, sok), z3.And(f == 2, allow, sok)))
        fail = z3.If(v.P >= v.L, END, z3.If(z3.Or(f == 3, z3.And(f == 2, z3.Not(allow))), ERROR, sf))
        x0, x1, x2 = rd(e, s1, a[4], 8, False), rd(e, s1, a[5], 64, False), rd(e, s1, a[6], 64, False)
        y1, y2 = rd(e, s0, a[5], 64, False), rd(e, s0, a[6], 64, False)
        return self.chain(e, s0, s1, a, ok, fail,
                          [("the window indicator", x0 == w), ("segment length", z3.If(f == 0, x1 == y1, x1 == s1r)), ("segment position", z3.If(f == 0, x2 == y2, x2 == s2r))],
                          z3.If(f == 0, v.P + 1, sn), ret,
                          [("a segment length is only ever stored if valid", z3.Or(x1 == y1, z3.And(v.P < v.L, f != 0, x1 <= INT_MAX))),
                           ("at most one of the two source flags", z3.Implies(B(ret.b), x0 % 4 != 3)),
                           ("the source segment lies within its source", z3.Implies(z3.And(B(ret.b), f != 0), x1 + x2 <= z3.If(f == 1, ds, ts)))])
class ParseWindowLengths(ParserContract):
    match = NS + CLS + "::ParseWindowLengths"
    def setup(self, e, st, case): return [self.obj(e, st), out_cell(e, st, "target_len", 64, False)]
    def outs(self, a): return [(a[1], 64)]
    def pre(self, e, st, a):
        v = PView(e, st, a[0]); return v.inv() + [("called once per window", v.dstart.reg is None)]
    def modifies(self, e, st, a):
        return ParserContract.modifies(self, e, st, a) + [cell(e, a[0], CLS, "delta_encoding_length_"), cell(e, a[0], CLS, "delta_encoding_start_")]
    def post(self, e, s0, s1, a, ret):
        v, v1 = PView(e, s0, a[0]), PView(e, s1, a[0]); arr = v.arr(e, s0)
        r1, n1 = VR[32](arr, v.P, v.L), VN[32](arr, v.P, v.L); r2, n2 = VR[32](arr, n1, v.L), VN[32](arr, n1, v.L)
        x = rd(e, s1, a[1], 64, False)
        ds = v1.dstart
        vals = [("the delta encoding length", v1.dlen == r1), ("the delta encoding starts after its length", ds.reg is v.pos.reg and Z(ds.off.z()) == n1), ("the target window length", x == r2)] \
            if ds.reg is not None else [("the delta encoding starts after its length", False)]
        return self.chain(e, s0, s1, a, z3.And(r1 >= 0, r2 >= 0), z3.If(r1 < 0, r1, r2), [(n, B(f)) for n, f in vals], n2, ret,
                          [("lengths are non-negative ints", z3.Implies(B(ret.b), z3.And(v1.dlen <= INT_MAX, x <= INT_MAX))),
                           ("the encoding starts before the position", z3.Implies(B(ret.b), tle(ds.off.z(), v1.P)) if ds.reg is v.pos.reg else True),
                           ("a target length is only ever stored if valid", z3.Or(x <= INT_MAX, x == rd(e, s0, a[1], 64, False)))])
    def apply(self, e, st, a):
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            v = PView(e, st, a[0]); mods = self.modifies(e, st, a)
            for r, w in mods: e.note_write(st, r, w)
            n1 = VN[32](v.arr(e, st), v.P, v.L); q = e.fresh("dstart"); st.assume(q >= 0, q <= Z(v.pos.reg.size))
            ds = fld(e, a[0], CLS, "delta_encoding_start_")[0]
            e.store(st, ds, ir.PTR, PtrV(v.pos.reg, q, v.pos.reg.segs[0]))
            e.havoc(st, [m for m in mods if not (m[0] is ds.reg and m[1][1] == ds.off.c)], "c")
            b = z3.Bool("ret!%d" % next(e.fresh_n)); ret = BoolV(b)
            st.assume(z3.Implies(b, q == n1))
            for n, g in self.post(e, s0, st, a, ret): st.assume(B(g))
        return ret
class EndOfDeltaWindow(ParserContract):
    match = NS + CLS + "::EndOfDeltaWindow"
    def setup(self, e, st, case): return [self.obj(e, st, True)]
    def pre(self, e, st, a):
        v = PView(e, st, a[0])
        if v.dstart.reg is None: return [("called after ParseWindowLengths", False)]
        return v.inv() + [("the delta encoding lies within the data", tle(v.dstart.off.add(Lin.of(v.dlen)).z(), v.pos.reg.size))]
    def modifies(self, e, st, a): return []
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0])
        return [("the end is the start of the encoding plus its length", isinstance(ret, PtrV) and ret.reg is v.pos.reg and teq(ret.off.z(), v.dstart.off.add(Lin.of(v.dlen)).z()))]
    def apply(self, e, st, a):
        for n, g in self.pre(e, st, a): e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        v = PView(e, st, a[0]); return PtrV(v.pos.reg, v.dstart.off.add(Lin.of(v.dlen)), v.dstart.seg)
class ParseDeltaIndicator(ParserContract):
    match = NS + CLS + "::ParseDeltaIndicator"
    def setup(self, e, st, case): return [self.obj(e, st)]
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); d = v.arr(e, s0)[v.P]
        return self.chain(e, s0, s1, a, z3.And(v.P < v.L, d % 8 == 0), z3.If(v.P >= v.L, END, ERROR), [], v.P + 1, ret)
class ParseSectionLengths(ParserContract):
    match = NS + CLS + "::ParseSectionLengths"
    props = ("C10", "C02", "C07")
    def setup(self, e, st, case):
        return [self.obj(e, st, True), BoolV(z3.Bool("has_checksum")), out_cell(e, st, "add_len", 64, False), out_cell(e, st, "inst_len", 64, False), out_cell(e, st, "addr_len", 64, False), out_cell(e, st, "checksum", 64, False)]
    def outs(self, a): return [(a[2], 64), (a[3], 64), (a[4], 64), (a[5], 64)]
    def pre(self, e, st, a):
        v = PView(e, st, a[0])
        return v.inv() + ([("called after ParseWindowLengths", False)] if v.dstart.reg is None else
            [("the encoding started before the position", v.dstart.reg is v.pos.reg and tle(v.dstart.off.z(), v.P))])
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s0, a[0]); arr = v.arr(e, s0); L = v.L
        r, n = [], v.P
        for k in range(3): r.append(VR[32](arr, n, L)); n = VN[32](arr, n, L)
        hc = B(a[1].b); rc, nc = VR[64](arr, n, L), VN[64](arr, n, L)
        end = z3.If(hc, nc, n)
        x = [rd(e, s1, a[k], 64, False) for k in (2, 3, 4)]; c = rd(e, s1, a[5], 64, False); c0 = rd(e, s0, a[5], 64, False)
        parts = z3.And(*[q >= 0 for q in r] + [z3.Implies(hc, z3.And(rc >= 0, rc <= 0xffffffff))])
        ok = z3.And(parts, v.dlen == end - Z(v.dstart.off.z()) + r[0] + r[1] + r[2])
        fail = z3.If(r[0] < 0, r[0], z3.If(r[1] < 0, r[1], z3.If(r[2] < 0, r[2], z3.If(z3.And(hc, rc < 0), rc, ERROR))))
        return self.chain(e, s0, s1, a, ok, fail, [("the ADD/RUN section length", x[0] == r[0]), ("the instruction section length", x[1] == r[1]), ("the address section length", x[2] == r[2]),
                                                   ("the checksum", z3.If(hc, c == rc, c == c0))], end, ret)
class Ctor(Contract):
    match = NS + CLS + "::VCDiffHeaderParser"
    props = ("C10",)
    def setup(self, e, st, case):
        o = e.object(st, "parser", NS + CLS, uninit=True); b = e.buffer(st, "data", ro=True)
        p, q = e.fresh("p"), e.fresh("q"); st.assume(p >= 0, p <= q, q <= Z(b.size))
        return [PtrV(o, 0), PtrV(b, p, b.segs[0]), PtrV(b, q, b.segs[0])]
    def pre(self, e, st, a): return [("data end after the start", a[1].reg is a[2].reg and tle(a[1].off.z(), a[2].off.z()))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        v = PView(e, s1, a[0])
        if not v.same_buffer() or v.pos.reg is not a[1].reg: return [("the parser covers the data given", False)]
        return [("the parser covers the data given", z3.And(v.P == Z(a[1].off.z()), v.S == v.P, v.L == Z(a[2].off.z()))), ("nothing parsed yet", z3.And(v.rc == SUCCESS, v.dlen == 0)), ("no delta encoding yet", v.dstart.reg is None)]
    def apply(self, e, st, a):
        for n, g in self.pre(e, st, a): e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        def put(path, ty, v): e.store(st, fld(e, a[0], CLS, path)[0], ty, v)
        put("parseable_chunk_.start_", ir.PTR, a[1]); put("parseable_chunk_.position_", ir.PTR, a[1]); put("parseable_chunk_.end_", ir.PTR, a[2])
        put("return_code_", W32, IntV(0, 32)); put("delta_encoding_length_", W64, IntV(0, 64)); put("delta_encoding_start_", ir.PTR, NULLP)
        return None
CONTRACTS = [Advance(), FinishExcept(), SetPosition(), Ctor(), ParseByte(), ParseInt32(), ParseUInt32(), ParseChecksum(), ParseSize(), ParseSourceSegment(), ParseWinIndicator(),
             ParseWindowLengths(), EndOfDeltaWindow(), ParseDeltaIndicator(), ParseSectionLengths()]
