"""VCDiffCodeTableData (property C11; used by C02, C03, C12)."""
from .common import *
CLS = "VCDiffCodeTableData"
ARRS = ("inst1", "inst2", "size1", "size2", "mode1", "mode2")
I = z3.IntSort()
NOOP, ADD, RUN, COPY = 0, 1, 2, 3

class Tab:
    """the six arrays of a code table as z3 arrays"""
    def __init__(self, e, st, p):
        for n in ARRS:
            q = fld(e, p, CLS, n)[0]
            setattr(self, n, e.seg_arr(st, q.reg, seg_of(e, q)))
    def key(self): return tuple(getattr(self, n).get_id() for n in ARRS)
    def wf1(self, i, mm): return wf(self.inst1[i], self.size1[i], self.mode1[i], mm)
    def wf2(self, i, mm): return wf(self.inst2[i], self.size2[i], self.mode2[i], mm)
    def single(self, i, t):
        """opcode i is the single instruction 'type+mode == t' with its size carried separately"""
        return z3.And(self.size1[i] == 0, self.inst2[i] == NOOP, self.inst1[i] + self.mode1[i] == t)
    def bytes(self, i): return [z3.And(getattr(self, n)[i] >= 0, getattr(self, n)[i] <= 255) for n in ARRS]
def wf(inst, size, mode, mm):
    return z3.And(inst <= COPY, mode <= mm, z3.Implies(inst == NOOP, size == 0), z3.Implies(inst != COPY, mode == 0))

def mk_table(e, st, name="table"):
    return e.object(st, name, NS + CLS)

class ValidateOpcode(Contract):
    match = NS + CLS + "::ValidateOpcode"
    props = ("C11",)
    def setup(self, e, st, case):
        return [e.fresh_int(st, 32, True, "opcode")] + [e.fresh_int(st, 8, False, n) for n in ("inst", "size", "mode", "max_mode")] + [OpaqueV("text")]
    def post(self, e, s0, s1, a, ret):
        x = [Z(e.u(s0, v)) for v in a[1:5]]
        return [("accepts exactly the well-formed instructions", B(ret.b) == wf(*x))]

class Validate(Contract):
    """valid <=> every opcode is well formed and every single instruction is expressible"""
    match = NS + CLS + "::Validate(unsigned char) const"
    props = ("C11",)
    def setup(self, e, st, case):
        o = mk_table(e, st)
        mm = e.fresh_int(st, 8, False, "max_mode")
        p = PtrV(o, 0); t = Tab(e, st, p); M = mm.t
        # spec functions by recursion on the number of opcodes / types considered
        self.allwf = z3.Function("all_well_formed!%d" % next(e.fresh_n), I, z3.BoolSort())
        self.has = z3.Function("has_opcode!%d" % next(e.fresh_n), I, I, z3.BoolSort())
        self.allhas = z3.Function("all_expressible!%d" % next(e.fresh_n), I, z3.BoolSort())
        tt = z3.Int("t!q")
        st.assume(self.allwf(0), self.allhas(0), z3.ForAll([tt], z3.Not(self.has(0, tt)), patterns=[self.has(0, tt)]))
        def unf(s, i):
            s.assume(z3.Implies(i >= 0, self.allwf(i + 1) == z3.And(self.allwf(i), t.wf1(i, M), t.wf2(i, M))),
                     z3.Implies(z3.And(i >= 0, i < 256, self.allwf(256)), z3.And(t.wf1(i, M), t.wf2(i, M))), *t.bytes(i))
            s.assume(z3.ForAll([tt], self.has(i + 1, tt) == z3.Or(self.has(i, tt), t.single(i, tt)), patterns=[self.has(i + 1, tt)]))
            s.assume(z3.ForAll([tt], z3.Implies(z3.And(i >= 0, i < 256, t.single(i, tt)), self.has(256, tt)), patterns=[self.has(256, tt)]))
        def hook(s, r, seg, arr, i, v):
            if r is o:
                if ("unf", str(Z(i))) in s.ghost: return
                s.ghost[("unf", str(Z(i)))] = True
                unf(s, Z(i))
            elif seg.es == 1 and r.kind == "stack":
                # a flag array indexed by type: unfold the expressibility conjunction there
                k = Z(i)
                s.assume(z3.Implies(k >= 0, self.allhas(k + 1) == z3.And(self.allhas(k), z3.Or(k == NOOP, self.has(256, k)))))
                s.assume(z3.Implies(z3.And(k >= 0, k < 4 + M, self.allhas(4 + M)), z3.Or(k == NOOP, self.has(256, k))))
        st.assume(self.allhas(1) == self.allhas(0))
        e.load_hooks.append(hook)
        self.M = M
        return [p, mm]
    def post(self, e, s0, s1, a, ret):
        return [("valid exactly when every opcode is well formed and every single instruction is expressible",
                 B(ret.b) == z3.And(self.allwf(256), self.allhas(4 + self.M)))]
    def apply(self, e, st, a):
        """call-site form: what a valid table guarantees to its user"""
        b = z3.Bool("valid!%d" % next(e.fresh_n))
        t = Tab(e, st, a[0]); mm = Z(e.u(st, a[1])); i = z3.Int("i!q")
        st.assume(z3.ForAll([i], z3.Implies(z3.And(b, i >= 0, i < 256), z3.And(t.wf1(i, mm), t.wf2(i, mm))), patterns=[t.inst1[i]]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(b, i >= 0, i < 256), t.wf2(i, mm)), patterns=[t.inst2[i]]))
        st.ghost[("valid", t.key())] = (b, mm)
        return BoolV(b)
    def loop_candidates(self, e, L):
        out = []
        bools = [(r, w[1]) for r, w in L.M if w[0] == "cell" and isinstance(e.cellval(L.entry, r, w[1]), IntV) and w[2] == 1]
        arrs = [(r, w[1]) for r, w in L.M if w[0] == "seg" and r.kind == "stack"]
        # every stack array, modified in this loop or not
        seen = set((r.id, o) for r, o in arrs)
        for r in L.locals:
            for s in r.segs:
                if s.es == 1 and (r.id, s.start) not in seen: arrs.append((r, s.start))
        def bv(r, o):
            def g(st):
                y = e.cellval(st, r, o)
                if not isinstance(y, IntV): raise Unsupported("b")
                return B(y.b) if y.b is not None else Z(y.t) != 0
            return g
        k = z3.Int("k!q"); M = self.M
        for (r, o, v) in L.ints:
            def x(st, r=r, o=o):
                y = e.cellval(st, r, o)
                if not isinstance(y, IntV): raise Unsupported("i")
                return Z(e.s(st, y))
            if v.w != 32: continue
            for (br, bo) in bools:
                b = bv(br, bo)
                out.append(("!wf", lambda st, x=x, b=b: b(st) == self.allwf(x(st))))
                out.append(("!has", lambda st, x=x, b=b: b(st) == z3.And(self.allwf(256), self.allhas(x(st)))))
            for (ar, ao) in arrs:
                def A(st, ar=ar, ao=ao):
                    y = st.rc(ar).segs.get(ao)
                    if y is None: y = z3.Array("uninit!%d" % ar.id, I, I)
                    return y
                out.append(("!cleared", lambda st, x=x, A=A: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x(st)), A(st)[k] == 0), patterns=[A(st)[k]])))
                out.append(("!flags", lambda st, x=x, A=A: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < 4 + M), A(st)[k] == z3.If(self.has(x(st), k), 1, 0)), patterns=[A(st)[k]])))
        return out

class ValidateDefault(Contract):
    match = NS + CLS + "::Validate() const"
    props = ("C11",)
    def setup(self, e, st, case): return [PtrV(mk_table(e, st), 0)]
    def post(self, e, s0, s1, a, ret):
        g = s1.ghost.get(("valid", Tab(e, s0, a[0]).key()))
        if g is None: return [("decided by Validate(max_mode)", False)]
        return [("decided for the default mode range 0..8", z3.And(B(ret.b) == g[0], g[1] == 8))]
    def apply(self, e, st, a): return Validate.apply(self, e, st, [a[0], IntV(8, 8)])

# ---------------------------------------------------------------- static data: the default table against RFC 3284 section 5.6
def rfc_table():
    """generated from the description of section 5.6, independently of the source"""
    T = []
    T.append((RUN, 0, 0, NOOP, 0, 0))
    for s in range(0, 18): T.append((ADD, s, 0, NOOP, 0, 0))
    for m in range(9):
        T.append((COPY, 0, m, NOOP, 0, 0))
        for s in range(4, 19): T.append((COPY, s, m, NOOP, 0, 0))
    for m in range(6):
        for s in range(1, 5):
            for c in range(4, 7): T.append((ADD, s, 0, COPY, c, m))
    for m in range(6, 9):
        for s in range(1, 5): T.append((ADD, s, 0, COPY, 4, m))
    for m in range(9): T.append((COPY, 4, m, ADD, 1, 0))
    assert len(T) == 256
    return T
DEFAULT = "_ZN11open_vcdiff19VCDiffCodeTableData21kDefaultCodeTableDataE"
class DefaultTable:
    """obligation on static data: every entry of kDefaultCodeTableData"""
    match = NS + CLS + "::kDefaultCodeTableData"
    props = ("C11", "C03", "C14")
    data = True; trusted = False; cost = 1
    label = "kDefaultCodeTableData"
    def check(self, mod, di):
        from ..engine import Engine, State, Oblig
        e = Engine(mod, di); st = State(e)
        e.global_region(st, DEFAULT)
        p = PtrV(e.globals_r[DEFAULT], 0)
        out = []
        T = rfc_table()
        cols = {"inst1": 0, "size1": 1, "mode1": 2, "inst2": 3, "size2": 4, "mode2": 5}
        for i in range(256):
            for n in ARRS:
                q = fld(e, p, CLS, n)[0]
                e.spec = True
                v = e.load(st, PtrV(q.reg, q.off.add(i), None), ir.IntTy(8))
                o = Oblig("%s[%d] is RFC 3284's %d" % (n, i, T[i][cols[n]]), "data", self.label, None)
                ok = isc(v.t) and v.t == T[i][cols[n]]
                o.status = "proved" if ok else "failed"; o.backend = "evaluation"; o.detail = "found %s" % (v.t,)
                out.append(o)
        return out
CONTRACTS = [ValidateOpcode(), Validate(), ValidateDefault(), DefaultTable()]
