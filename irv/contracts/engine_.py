"""VCDiffEngine (properties C01, C14, C16; the target is tiled by true ADD and COPY instructions).

The instruction writer is an interface: its ghost model is the number of target bytes already described (pos) and the
number of Output() calls.  Every virtual call carries the obligation that makes the instruction correct: ADD carries exactly
the next bytes of the target, COPY designates bytes equal to the next bytes of the target at an address before the
current position, RUN repeats the next bytes, Output comes once and only when the whole target is described."""
from .common import *
from . import blockhash as bh
EN = "VCDiffEngine"
WVT = "_ZTVN11open_vcdiff21VCDiffCodeTableWriterE"

def mk_engine(e, st, ready=True):
    r = e.object(st, "engine", NS + EN); p = PtrV(r, 0)
    d = e.buffer(st, "dictionary", ro=True, maxsize=1 << 40)
    n = e.fresh_int(st, 64, False, "dictsize"); st.assume(n.t <= INT_MAX, n.t <= d.size)
    setinit(e, r, 0, EN, "dictionary_", PtrV(d, 0, d.segs[0])); setinit(e, r, 0, EN, "dictionary_size_", n)
    if not ready: setinit(e, r, 0, EN, "hashed_dictionary_", NULLP); return p, d, n.t
    h = bh.mk(e, st, "dicthash", src=d)
    setinit(e, r, 0, EN, "hashed_dictionary_", h)
    hv = bh.V(e, st, h)
    st.assume(hv.n == n.t, hv.start == 0)
    return p, d, n.t
def engine_inv(e, st, p):
    h = getv(e, st, p, EN, "hashed_dictionary_"); d = getv(e, st, p, EN, "dictionary_"); n = geti(e, st, p, EN, "dictionary_size_")
    if h.reg is None: return [("initialised", False)]
    v = bh.V(e, st, h)
    return [("the dictionary hash covers the dictionary", z3.And(B(v.src.reg is d.reg), teq(v.src.off.z(), d.off.z()), v.n == n, v.start == 0))] + v.inv()

class Coder:
    """ghost model of the instruction writer for one target"""
    def __init__(self, e, st, dict_p, D, tgt_p, n):
        self.e = e; self.dp, self.D, self.tp, self.n = dict_p, D, tgt_p, n
        self.pos = ghost_cell(e, "pos", 0); self.outs = ghost_cell(e, "outputs", 0)
        self.p = mk_iface(e, st, "coder", WVT, {"Add": self.add, "Copy": self.copy, "Run": self.run, "Output": self.output})
    def bytes_at(self, st):
        e = self.e
        return arr_of(e, st, self.dp), Z(idx_of(self.dp, seg_of(e, self.dp))), arr_of(e, st, self.tp), Z(idx_of(self.tp, seg_of(e, self.tp)))
    def step(self, e, st, size):
        pos = gget(e, st, self.pos)
        e.oblige(st, gget(e, st, self.outs) == 0, "iface", "no instruction after Output()")
        e.oblige(st, z3.And(size >= 1, pos + size <= self.n), "iface", "the instruction describes at least one byte and none beyond the target")
        gset(e, st, self.pos, pos + size)
    def add(self, e, st, a):
        size = Z(e.u(st, a[2])); pos = gget(e, st, self.pos)
        e.oblige(st, isinstance(a[1], PtrV) and a[1].reg is self.tp.reg, "iface", "ADD data comes from the target")
        e.oblige(st, teq(a[1].off.z(), tadd(self.tp.off.z(), pos)), "iface", "ADD data starts at the first byte not yet described")
        self.step(e, st, size)
        return None
    def copy(self, e, st, a):
        off, size = Z(e.s(st, a[1])), Z(e.u(st, a[2])); pos = gget(e, st, self.pos)
        da, d0, ta, t0 = self.bytes_at(st); D = self.D
        e.oblige(st, z3.And(off >= 0, off < D + pos), "iface", "COPY address is before the current position")
        e.oblige(st, z3.Or(off >= D, off + size <= D), "iface", "{C15} COPY source is all dictionary or all target")
        k = z3.Int("k!copy")
        e.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= t0 + pos, k < t0 + pos + size), ta[k] == z3.If(k - t0 - pos + off < D, da[d0 + k - t0 - pos + off], ta[t0 + k - t0 - pos + off - D])), patterns=[ta[k]]),
                 "iface", "COPY source bytes equal the next bytes of the target")
        self.step(e, st, size)
        return None
    def run(self, e, st, a):
        size, by = Z(e.u(st, a[1])), Z(e.u(st, a[2])); pos = gget(e, st, self.pos)
        da, d0, ta, t0 = self.bytes_at(st); k = z3.Int("k!copy")
        e.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= t0 + pos, k < t0 + pos + size), ta[k] == by), patterns=[ta[k]]), "iface", "RUN byte equals the next bytes of the target")
        self.step(e, st, size)
        return None
    def output(self, e, st, a):
        e.oblige(st, gget(e, st, self.pos) == self.n, "iface", "Output() only when every byte of the target is described")
        e.oblige(st, isinstance(a[1], type(self.e.diff_arg)) and a[1].reg is self.e.diff_arg.reg, "iface", "Output() goes to the caller's string")
        gset(e, st, self.outs, gget(e, st, self.outs) + 1)
        return None

class EncodeInternal(Contract):
    match = NS + EN + "::EncodeInternal<true>"
    props = ("C01", "C14", "C15", "C16", "C19")
    cost = 30
    tm = True
    cases = ("any target",)
    def setup(self, e, st, case):
        p, d, D = mk_engine(e, st)
        t = e.buffer(st, "target", ro=True, maxsize=1 << 40); n = e.fresh_int(st, 64, False, "tsize")
        T = e.fresh("T"); st.assume(T >= 0, T + n.t <= t.size, D + n.t <= INT_MAX)
        tp = PtrV(t, T, t.segs[0])
        self.co = Coder(e, st, getv(e, st, p, EN, "dictionary_"), D, tp, n.t)
        diff = PtrV(Region("diff", 8, "sym"), 0); e.diff_arg = diff
        g = "_ZN11open_vcdiff11RollingHashILi16EE13remove_table_E"
        from . import rollhash
        rollhash.mk_table(e, st)
        return self.args(p, tp, n, diff, self.co.p)
    def args(self, p, tp, n, diff, co): return [p, tp, n, diff, co]
    def pre(self, e, st, a): return engine_inv(e, st, a[0])
    def modifies(self, e, st, a): return [(self.co.pos, ("cell", 0, 8)), (self.co.outs, ("cell", 0, 8))]
    def post(self, e, s0, s1, a, ret):
        n = self.co.n
        return [("every byte of the target is described", gget(e, s1, self.co.pos) == n),
                ("Output() is called once, and not for an empty target", gget(e, s1, self.co.outs) == z3.If(n == 0, 0, 1))]
    def loop_candidates(self, e, L):
        out = []; co = self.co; t0 = Z(co.tp.off.z())
        def off(r, o, v):
            def g(st):
                y = e.cellval(st, r, o)
                if not isinstance(y, PtrV) or y.reg is not v.reg: raise Unsupported("kind")
                return Z(y.off.z()) - t0
            return g
        hs = [x for x in e.bh_own if x in e.new_bh] if hasattr(e, "new_bh") else []
        # target hash objects reachable from locals
        objs = []
        for rr in L.locals:
            for o, (sz, v) in L.entry.rc(rr).cells.items():
                if isinstance(v, PtrV) and v.reg is not None and v.reg.id in e.__dict__.get("bh_own", {}) and v.reg.kind == "heap": objs.append(v)
        for h in objs:
            v0 = bh.V(e, L.entry, h)
            for k in range(len(v0.inv())):
                out.append(("!hash inv %d" % k, lambda st, h=h, k=k: bh.V(e, st, h).inv()[k][1]))
        for r, o, v in L.ptrs:
            if v.reg is not co.tp.reg: continue
            x = off(r, o, v)
            out.append(("!described so far", lambda st, x=x: x(st) == gget(e, st, co.pos)))
            out.append(("!not before described", lambda st, x=x: x(st) >= gget(e, st, co.pos)))
            out.append(("!a block is left", lambda st, x=x: x(st) + 16 <= co.n))
            for h in objs: out.append(("!blocks added start before", lambda st, x=x, h=h: bh.V(e, st, h).last * 16 < x(st)))
        out.append(("!no output yet", lambda st: gget(e, st, co.outs) == 0))
        out.append(("!pos", lambda st: z3.And(gget(e, st, co.pos) >= 0, gget(e, st, co.pos) <= co.n)))
        return out
    def apply(self, e, st, a):
        # used by Encode: same ghost model
        co = e.coder
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "EncodeInternal requires " + n)
        n = Z(e.u(st, a[2]))
        e.oblige(st, B(a[4].reg is co.p.reg and a[3].reg is e.diff_arg.reg and a[1].reg is co.tp.reg), "pre", "the caller's target, output and coder")
        e.oblige(st, z3.And(teq(a[1].off.z(), co.tp.off.z()), n == co.n, gget(e, st, co.pos) == 0, gget(e, st, co.outs) == 0), "pre", "a fresh coder and the whole target")
        gset(e, st, co.pos, n); gset(e, st, co.outs, z3.If(n == 0, 0, 1))
        return None
class EncodeInternalF(EncodeInternal):
    match = NS + EN + "::EncodeInternal<false>"
class Encode(EncodeInternal):
    match = NS + EN + "::Encode"
    def setup(self, e, st, case):
        r = EncodeInternal.setup(self, e, st, case); e.coder = self.co; return r
    def args(self, p, tp, n, diff, co): return [p, tp, n, BoolV(z3.Bool("look_for_target_matches")), diff, co]
    def apply(self, e, st, a):
        if not hasattr(e.cur, "on_encode"): raise Unsupported("Encode at a call site")
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "Encode requires " + n)
        return e.cur.on_encode(e, st, a)

class EngineInit(Contract):
    match = NS + EN + "::Init"
    props = ("C01", "C13", "C19")
    def setup(self, e, st, case):
        from . import rollhash
        rollhash.mk_table(e, st)
        p, d, n = mk_engine(e, st, ready=False); return [p]
    def modifies(self, e, st, a): return [cell(e, a[0], EN, "hashed_dictionary_")]
    def post(self, e, s0, s1, a, ret):
        return [("succeeds", B(e.boolof(ret)))] + engine_inv(e, s1, a[0]) + [("every block of the dictionary is indexed", (lambda v: v.last == v.nb - 1)(bh.V(e, s1, getv(e, s1, a[0], EN, "hashed_dictionary_"))))]

def _init_apply(self, e, st, a):
    if not hasattr(e.cur, "look"): raise Unsupported("Init at a call site")
    from .encoder import ev, fresh_bool
    b = fresh_bool(e, "init"); ev(st, "DictInit", a[0], b); return BoolV(b)
EngineInit.apply = _init_apply
CONTRACTS = [EncodeInternal(), EncodeInternalF(), Encode(), EngineInit()]
