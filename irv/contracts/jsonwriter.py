"""JSONCodeTableWriter (property C15): what each operation appends to the pending JSON text.

esc(c) is the JSON form of a byte inside a string literal (el(c) characters ec(c, k)); the lemmas check, for every byte,
that a JSON reader takes exactly these characters and reads back the byte.  E(A, p, j) is the length of the escaped form
of the j bytes at A[p]."""
from .common import *
from .window import Out, OView
JW = "JSONCodeTableWriter"
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
E = z3.Function("escaped_length", AI, z3.IntSort(), z3.IntSort(), z3.IntSort())
SHORT = {34: 34, 92: 92, 8: ord("b"), 12: ord("f"), 10: ord("n"), 13: ord("r"), 9: ord("t")}
def short_esc(c): return z3.Or(*[c == k for k in SHORT])
def u_esc(c): return z3.And(z3.Not(short_esc(c)), z3.Or(c < 32, c >= 127))
def el(c): return z3.If(short_esc(c), 2, z3.If(u_esc(c), 6, 1))
def hexd(x): return z3.If(x < 10, 48 + x, 87 + x)
def ec(c, k):
    """the k-th character of the JSON form of byte c"""
    if k == 0: return z3.If(el(c) == 1, c, 92)
    if k == 1:
        r = z3.IntVal(ord("u"))
        for a, b in SHORT.items(): r = z3.If(c == a, b, r)
        return r
    return z3.IntVal(48) if k < 4 else hexd(c / 16 if k == 4 else c % 16)
def escaped(B1, at, A, p, n):
    """the characters from B1[at] on are the escaped forms of A[p, p + n), one after the other"""
    j = z3.Int("j!q"); m = E(A, p, n)
    out = [("each form ends before the next begins", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(E(A, p, j) >= 0, E(A, p, j) + el(A[p + j]) <= m)), patterns=[E(A, p, j)])), ("length", m >= 0)]
    for k in range(6): out.append(("character %d of each form" % k, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, k < el(A[p + j])), B1[at + E(A, p, j) + k] == ec(A[p + j], k)), patterns=[E(A, p, j)])))
    return out

def esc_hook(e, base):
    """unfold E where a byte is read"""
    def hook(st, r, s, arr, i, t):
        if r is not base.reg: return
        p = Z(base.off.z()); j = Z(i) - p
        st.assume(E(arr, p, j + 1) == E(arr, p, j) + el(t), E(arr, p, z3.IntVal(0)) == 0)
    e.load_hooks.append(hook)
class JSONEscape(Contract):
    match = NS + JW + "::JSONEscape"; props = ("C15", "C19"); label = "JSONEscape"
    def setup(self, e, st, case):
        d = e.buffer(st, "data", ro=True); n = e.fresh_int(st, 64, False, "size"); P = e.fresh("P"); st.assume(P >= 0, P + n.t <= d.size)
        o = Region("out", 32, "sym"); o.digrid = {0: ("ptr", 8), 8: ("int", 8, False)}; str_init(e, st, o, 0, "out", unbounded=True)
        a = [PtrV(Region("writer", 72, "sym"), 0), PtrV(d, P, d.segs[0]), n, PtrV(o, 0)]
        esc_hook(e, a[1]); A = arr_of(e, st, a[1]); st.assume(E(A, P, z3.IntVal(0)) == 0)
        return a
    def modifies(self, e, st, a):
        b = s_ptr(e, st, a[3]); return [(a[3].reg, ("cell", a[3].off.c + 8, 8)), (b.reg, ("seg", 0))]
    def post(self, e, s0, s1, a, ret): return self.state(e, s0, s1, a, Z(e.u(s0, a[2])))
    def state(self, e, s0, st, a, n):
        A = arr_of(e, s0, a[1]); P = Z(a[1].off.z()); l0 = Z(s_len(e, s0, a[3])); b0, b1 = s_ptr(e, s0, a[3]), s_ptr(e, st, a[3]); B0, B1 = e.seg_arr(s0, b0.reg, b0.reg.segs[0]), e.seg_arr(st, b1.reg, b1.reg.segs[0]); i = z3.Int("i!q")
        return [("the text grows by the length of the escaped bytes", Z(s_len(e, st, a[3])) == l0 + E(A, P, n)), ("the text before is kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l0), B1[i] == B0[i]), patterns=[B1[i]]))] + escaped(B1, l0, A, P, n)
    def loop_candidates(self, e, L):
        out = []; a = e.entry_args; n = Z(e.u(e.entry, a[2])); P = Z(a[1].off.z())
        def cands(get, tag):
            out.append(("!in range " + tag, lambda st: z3.And(get(st) >= 0, get(st) <= n)))
            for k in range(10): out.append(("!so far %s %d" % (tag, k), lambda st, k=k: self.state(e, e.entry, st, a, get(st))[k][1]))
        for r, o, v in L.ints:
            if v.b is not None or r.kind == "heap" or r is a[3].reg: continue
            for tag, f in (("count", lambda x: x), ("left", lambda x: n - x)):
                def g(st, r=r, o=o, f=f):
                    y = e.cellval(st, r, o)
                    if not isinstance(y, IntV): raise Unsupported("kind")
                    return f(Z(e.u(st, y)))
                cands(g, tag + "@%d" % o)
        for r, o, v in L.ptrs:
            if v.reg is not a[1].reg: continue
            def g(st, r=r, o=o):
                y = e.cellval(st, r, o)
                if not isinstance(y, PtrV) or y.reg is not a[1].reg: raise Unsupported("kind")
                return Z(y.off.z()) - P
            cands(g, "ptr@%d" % o)
        return out
    def apply(self, e, st, a):
        with Spec(e): l0 = Z(s_len(e, st, a[3])); n = Z(e.u(st, a[2]))
        check_range(e, st, a[1], n, "read (escaped data)"); s0 = st.snap()
        if isinstance(a[1], PtrV) and a[1].reg is None:
            st.assume(n == 0); return None
        with Spec(e):
            A = arr_of(e, st, a[1]); st.ghost["escaped"] = (A, Z(a[1].off.z()), n); m = E(A, Z(a[1].off.z()), n); st.assume(m >= 0, l0 + m <= MAXSTR)
            buf = str_grow(e, st, a[3], l0 + m); st.wrc(buf.reg).segs[0] = e.fresh_arr("json"); e.note_write(st, buf.reg, ("seg", 0))
            e.store(st, e_ptr(a[3], 8), I64, IntV(l0 + m, 64, 0, MAXSTR))
            for nm, g in self.post(e, s0, st, a, None): st.assume(B(g))
        return None

def mk_json(e, st):
    o = e.object(st, "json_writer", NS + JW); str_init(e, st, o, e.di.field(NS + JW, "output_")[0], "output_")
    for f in ("dictionary_size_", "target_size_", "previous_windows_size_"): setinit(e, o, 0, JW, f, e.fresh_int(st, 64, False, f))
    for f in ("output_called_", "opcode_added_"):
        b = z3.Bool(f + "!%d" % next(e.fresh_n)); setinit(e, o, 0, JW, f, IntV(z3.If(b, 1, 0), 8, 0, 1, b))
    o.icells[0] = (8, real_vtable(e, "_ZTVN11open_vcdiff19JSONCodeTableWriterE"))
    return PtrV(o, 0)
class JV:
    def __init__(self, e, st, p):
        q = fld(e, p, JW, "output_")[0]; b = s_ptr(e, st, q); self.n = Z(s_len(e, st, q)); self.a = e.seg_arr(st, b.reg, b.reg.segs[0])
        self.called, self.added, self.ds, self.ts, self.prev = [geti(e, st, p, JW, f) for f in ("output_called_", "opcode_added_", "dictionary_size_", "target_size_", "previous_windows_size_")]
    def others(self, v, but):
        return [("other state unchanged", z3.And(*[getattr(self, f) == getattr(v, f) for f in ("called", "added", "ds", "ts", "prev") if f not in but]))]
class JOp(Contract):
    props = ("C15", "C19")
    def modifies(self, e, st, a): return None
    def start(self, v0, v1):
        """the position at which the element itself starts; a comma precedes it unless it is the first"""
        i = z3.Int("i!q"); at = v0.n + z3.If(v0.added, 1, 0)
        return at, [("the text before is kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0.n), v1.a[i] == v0.a[i]), patterns=[v1.a[i]])),
                    ("elements are separated by a comma", z3.Implies(v0.added, v1.a[v0.n] == ord(","))), ("an element was added", v1.added)]
    def literal(self, v0, v1, A, P, n):
        at, out = self.start(v0, v1)
        return out + [("the string literal is opened", v1.a[at] == 34), ("the string literal is closed", v1.a[at + 1 + E(A, P, n)] == 34), ("nothing follows it", v1.n == at + 2 + E(A, P, n))] + escaped(v1.a, at + 1, A, P, n)
    def tail(self, v0, v1, n): return [("the target grows by the size", v1.ts == v0.ts + n)] + v0.others(v1, ("added", "ts"))
class JAdd(JOp):
    match = NS + JW + "::Add"; label = "JSONCodeTableWriter::Add"
    def setup(self, e, st, case):
        p = mk_json(e, st); n = e.fresh_int(st, 64, False, "size"); b = e.buffer(st, "data", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + n.t <= b.size)
        return [p, PtrV(b, P, b.segs[0]), n]
    def pre(self, e, st, a): return [("sizes stay in range", JV(e, st, a[0]).ts + Z(e.u(st, a[2])) < 1 << 64)]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = JV(e, s0, a[0]), JV(e, s1, a[0]); n = Z(e.u(s0, a[2])); return self.literal(v0, v1, arr_of(e, s0, a[1]), Z(a[1].off.z()), n) + self.tail(v0, v1, n)
class JRun(JOp):
    match = NS + JW + "::Run"; label = "JSONCodeTableWriter::Run"
    def setup(self, e, st, case): return [mk_json(e, st), e.fresh_int(st, 64, False, "size"), e.fresh_int(st, 8, False, "byte")]
    def pre(self, e, st, a): return [("sizes stay in range", JV(e, st, a[0]).ts + Z(e.u(st, a[1])) < 1 << 64), ("a possible string length", Z(e.u(st, a[1])) <= MAXSTR)]
    def post(self, e, s0, s1, a, ret):
        """the literal is that of some n bytes A[P, P + n) all equal to the given one (the bytes the code had escaped)"""
        v0, v1 = JV(e, s0, a[0]), JV(e, s1, a[0]); n = Z(e.u(s0, a[1])); by = Z(e.u(s0, a[2])); i = z3.Int("i!q")
        if "escaped" not in s1.ghost: raise Unsupported("Run does not escape a string of bytes")
        A, P, m = s1.ghost["escaped"]
        return self.literal(v0, v1, A, P, n) + [("as many bytes as the run is long", m == n), ("each is the repeated byte", z3.ForAll([i], z3.Implies(z3.And(i >= P, i < P + n), A[i] == by), patterns=[A[i]]))] + self.tail(v0, v1, n)
class JCopy(JOp):
    match = NS + JW + "::Copy"; label = "JSONCodeTableWriter::Copy"
    def setup(self, e, st, case): return [mk_json(e, st), e.fresh_int(st, 32, True, "offset"), e.fresh_int(st, 64, False, "size")]
    def pre(self, e, st, a):
        v = JV(e, st, a[0]); o, n = Z(e.s(st, a[1])), Z(e.u(st, a[2]))
        return [("sizes stay in range", z3.And(v.ts + n < 1 << 62, v.prev <= v.ts, v.ds < 1 << 62)), ("the address is before the current position", z3.And(o >= 0, o < v.ds + v.ts - v.prev)),
                ("the source is all dictionary or all target", z3.Or(o >= v.ds, o + n <= v.ds))]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = JV(e, s0, a[0]), JV(e, s1, a[0]); o, n = Z(e.s(s0, a[1])), Z(e.u(s0, a[2])); at, out = self.start(v0, v1); k = z3.Int("k!q")
        src = z3.If(o < v0.ds, o, o + v0.prev); x = at + declen(src)
        num = lambda p, v: z3.ForAll([k], z3.Implies(z3.And(k >= p, k < p + declen(v)), v1.a[k] == decch(v, k - p)), patterns=[v1.a[k]])
        return out + [("the offset counts from the dictionary through everything output so far", num(at, src)), ("a comma between offset and length", v1.a[x] == ord(",")), ("the length", num(x + 1, n)),
                      ("nothing follows it", v1.n == x + 1 + declen(n)), ("the offset is before the current end of the output", src < v0.ds + v0.ts)] + self.tail(v0, v1, n)
class JInit(JOp):
    match = NS + JW + "::Init"; label = "JSONCodeTableWriter::Init"
    def setup(self, e, st, case): return [mk_json(e, st), e.fresh_int(st, 64, False, "dictionary_size")]
    def post(self, e, s0, s1, a, ret):
        v = JV(e, s1, a[0]); return [("succeeds", B(ret.b)), ("the text is an opening bracket", z3.And(v.n == 1, v.a[0] == ord("["))), ("nothing was output or added", z3.And(z3.Not(v.called), z3.Not(v.added))),
                                     ("sizes restart", z3.And(v.ds == Z(e.u(s0, a[1])), v.ts == 0, v.prev == 0))]
class JOutput(JOp):
    match = NS + JW + "::Output"; label = "JSONCodeTableWriter::Output"
    def setup(self, e, st, case):
        p = mk_json(e, st); self.out = Out(e, st); return [p, self.out.p]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = JV(e, s0, a[0]), JV(e, s1, a[0]); o0, o1 = OView(e, s0, a[1]), OView(e, s1, a[1])
        return o0.extended(o1, v0.n, lambda k: v0.a[k]) + [("the pending text is empty", v1.n == 0), ("something was output", v1.called), ("earlier windows are everything so far", v1.prev == v0.ts)] + v0.others(v1, ("called", "prev"))
class JFinish(JOp):
    match = NS + JW + "::FinishEncoding"; label = "JSONCodeTableWriter::FinishEncoding"
    def setup(self, e, st, case):
        p = mk_json(e, st); self.out = Out(e, st); return [p, self.out.p]
    def modifies(self, e, st, a): return OView(e, st, a[1]).mods()
    def post(self, e, s0, s1, a, ret):
        v0 = JV(e, s0, a[0]); o0, o1 = OView(e, s0, a[1]), OView(e, s1, a[1]); n = z3.If(v0.called, 1, 0)
        return o0.extended(o1, n, lambda k: z3.IntVal(ord("]")))
class JHeader(JOp):
    match = NS + JW + "::WriteHeader"; label = "JSONCodeTableWriter::WriteHeader"
    def setup(self, e, st, case):
        p = mk_json(e, st); self.out = Out(e, st); return [p, self.out.p, e.fresh_int(st, 32, False, "format_extensions")]
    def modifies(self, e, st, a): return []
class IsAscii(Contract):
    match = NS + JW + "::IsAscii"; props = ("C15", "C19"); label = "JSONCodeTableWriter::IsAscii"
    def setup(self, e, st, case):
        b = e.buffer(st, "data", ro=True); n = e.fresh_int(st, 64, False, "len"); P = e.fresh("P"); st.assume(P >= 0, P + n.t <= b.size); return [PtrV(b, P, b.segs[0]), n]
    def ascii(self, e, st, p, n, lo=0):
        A = arr_of(e, st, p); P = Z(p.off.z()); i = z3.Int("i!q"); return z3.ForAll([i], z3.Implies(z3.And(i >= P + lo, i < P + n), A[i] < 128), patterns=[A[i]])
    def post(self, e, s0, s1, a, ret): return [("true exactly when every byte is ASCII", B(ret.b) == self.ascii(e, s0, a[0], Z(e.u(s0, a[1]))))]
    def loop_candidates(self, e, L):
        """the bytes before (or from) the position of the loop are ASCII, as far as a flag says so"""
        out = []; a = e.entry_args; n = Z(e.u(e.entry, a[1])); pos = []; flags = [(None, lambda st, f: f)]
        for r, o, v in L.ints:
            if v.b is not None: continue
            for tag, f in (("count", lambda x: x), ("left", lambda x: n - x)):
                def g(st, r=r, o=o, f=f):
                    y = e.cellval(st, r, o)
                    if not isinstance(y, IntV): raise Unsupported("kind")
                    return f(Z(e.u(st, y)))
                pos.append(("%s@%s" % (tag, r.name), g))
        for r, o, v in L.ptrs:
            if v.reg is not a[0].reg: continue
            def g(st, r=r, o=o):
                y = e.cellval(st, r, o)
                if not isinstance(y, PtrV) or y.reg is not a[0].reg: raise Unsupported("kind")
                return Z(y.off.z()) - Z(a[0].off.z())
            pos.append(("ptr@%s" % r.name, g))
        for r, w in L.M:
            if w[0] != "cell" or w[2] != 1 or r.id in L.entry.dead: continue
            def flag(st, r=r, w=w):
                y = e.cellval(st, r, w[1])
                if not isinstance(y, IntV): raise Unsupported("kind")
                return B(y.b) if y.b is not None else Z(e.u(st, y)) != 0
            flags += [("when %s" % r.name, lambda st, f, b=flag: b(st) == f), ("unless %s" % r.name, lambda st, f, b=flag: z3.Not(b(st)) == f)]
        for nm, g in pos:
            out.append(("!range " + nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= n)))
            for t, k in flags:
                out.append(("!ascii so far %s %s" % (nm, t), lambda st, g=g, k=k: k(st, self.ascii(e, st, a[0], g(st)))))
                out.append(("!ascii from here %s %s" % (nm, t), lambda st, g=g, k=k: k(st, self.ascii(e, st, a[0], n, g(st)))))
        return out
class VerifyDict(IsAscii):
    match = NS + JW + "::VerifyDictionary"; label = "JSONCodeTableWriter::VerifyDictionary"
    def setup(self, e, st, case): return [mk_json(e, st)] + IsAscii.setup(self, e, st, case)
    def post(self, e, s0, s1, a, ret): return [("true exactly when every byte is ASCII", B(ret.b) == self.ascii(e, s0, a[1], Z(e.u(s0, a[2]))))]
    def loop_candidates(self, e, L): return []
class VerifyChunk(VerifyDict):
    match = NS + JW + "::VerifyChunk"; label = "JSONCodeTableWriter::VerifyChunk"

# ------------------------------------------------------------------ lemmas
def lemma_unit():
    """a JSON reader at a byte's form reads that byte and consumes exactly the form; no form begins with the closing quote"""
    out = []; c = z3.Int("c"); base = [c >= 0, c <= 255]; x = [ec(c, k) for k in range(6)]
    def prove(name, g):
        s = z3.Solver(); s.set("timeout", 30000); s.add(*base); s.add(z3.Not(g)); out.append((name, s))
    hv = lambda h: z3.If(z3.And(h >= 48, h <= 57), h - 48, z3.If(z3.And(h >= 97, h <= 102), h - 87, z3.If(z3.And(h >= 65, h <= 70), h - 55, -100000)))
    two = [(34, 34), (92, 92), (ord("/"), ord("/")), (ord("b"), 8), (ord("f"), 12), (ord("n"), 10), (ord("r"), 13), (ord("t"), 9)]
    rd2 = z3.IntVal(-1)
    for a, b in two: rd2 = z3.If(x[1] == a, b, rd2)
    isu = z3.And(x[0] == 92, x[1] == ord("u"))
    val = z3.If(x[0] != 92, x[0], z3.If(isu, hv(x[2]) * 4096 + hv(x[3]) * 256 + hv(x[4]) * 16 + hv(x[5]), rd2)); ln = z3.If(x[0] != 92, 1, z3.If(isu, 6, 2))
    prove("JSON reader reads the byte back", val == c); prove("JSON reader consumes exactly the form", ln == el(c))
    prove("a raw character is printable ASCII and neither quote nor backslash", z3.Implies(x[0] != 92, z3.And(x[0] >= 32, x[0] < 127, x[0] != 34))); prove("no form begins with the closing quote", x[0] != 34)
    return out
def lemma_copy():
    """reading offset src in dictionary ++ all output equals reading offset o in dictionary ++ this window's target"""
    W, V = z3.Consts("world window", AI); D, prev, o, n, k, ts = z3.Ints("D prev o n k ts"); s = z3.Solver(); s.set("timeout", 30000); i = z3.Int("i")
    s.add(D >= 0, prev >= 0, ts >= prev, o >= 0, n >= 1, z3.Or(o >= D, o + n <= D), o < D + ts - prev, k >= 0, k < n)
    s.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < D), V[i] == W[i]), patterns=[V[i]]), z3.ForAll([i], z3.Implies(i >= D, V[i] == W[i + prev]), patterns=[V[i]]))
    src = z3.If(o < D, o, o + prev); s.add(V[o + k] != W[src + k]); return [("JSON copy offsets designate the bytes the instruction meant", s)]
LEMMAS = {"C15": [lemma_unit, lemma_copy]}
CONTRACTS = [JSONEscape(), JAdd(), JRun(), JCopy(), JInit(), JOutput(), JFinish(), JHeader(), IsAscii(), VerifyDict(), VerifyChunk()]
