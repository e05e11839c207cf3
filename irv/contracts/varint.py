"""VarintBE<int32_t>, VarintBE<int64_t>  (property C08; used by C02, C04, C09, C10, C12)."""
import z3
from ..engine import *
from ..contract import Contract, Spec
from .. import ir
from ..models import *

I = z3.IntSort()
ARR = z3.ArraySort(I, I)
# spec functions over (bytes, start, end): value of the base-128 digits, and "all continuation bytes"
val = z3.Function("varint_val", ARR, I, I, I)
cont = z3.Function("varint_cont", ARR, I, I, z3.BoolSort())
# result of parsing at P with limit L, and the position after it (abstract names used by callers)
VR = {32: z3.Function("varint_result32", ARR, I, I, I), 64: z3.Function("varint_result64", ARR, I, I, I)}
VN = {32: z3.Function("varint_next32", ARR, I, I, I), 64: z3.Function("varint_next64", ARR, I, I, I)}
# reference base-128 length
def enc_len(v, maxb):
    r = z3.IntVal(maxb)
    for k in range(maxb - 1, 0, -1):
        r = z3.If(v < (1 << (7 * k)), k, r)
    return r

def unfold(a, P, i):
    """definitional instances at index i"""
    return [val(a, P, P) == 0, cont(a, P, P) == True,
            z3.Implies(i >= P, val(a, P, i + 1) == 128 * val(a, P, i) + a[i] % 128),
            z3.Implies(i >= P, cont(a, P, i + 1) == z3.And(cont(a, P, i), a[i] >= 128))]

class Parse(Contract):
    cases = ("limit", "null limit")
    props = ("C08", "C02", "C04", "C09", "C10")
    def __init__(self, w):
        self.w = w; self.max = (1 << (w - 1)) - 1
        self.match = "open_vcdiff::VarintBE<%s>::Parse" % ("int" if w == 32 else "long")
    def setup(self, e, st, case):
        buf = e.buffer(st, "buf", ro=True)
        pp = Region("varint_ptr", 8, "sym")
        P = e.fresh("P"); L = e.fresh("L")
        st.assume(P >= 0, P <= buf.size, L >= 0, L <= buf.size)
        pp.icells[0] = (8, PtrV(buf, P, buf.segs[0]))
        a = buf.isegs[0]
        self.P, self.a, self.buf = P, a, buf
        st.assume(val(a, P, P) == 0, cont(a, P, P) == True)
        def hook(s, r, seg, arr, i, t):
            if r is buf: s.assume(*unfold(a, P, Z(i)))
        e.load_hooks.append(hook)
        return [PtrV(buf, L, buf.segs[0]) if case == "limit" else NULLP, PtrV(pp, 0)]
    def pre(self, e, st, a):
        p = e.load(st, a[1], ir.PTR)
        if not isinstance(p, PtrV) or p.reg is None: return [("a position inside the input", False)]
        lim = a[0]
        if isinstance(lim, PtrV) and lim.reg is None: return []
        return [("limit in the same buffer", lim.reg is p.reg)]
    def modifies(self, e, st, a):
        return [(a[1].reg, ("cell", a[1].off.c, 8))]
    def post(self, e, s0, s1, a, ret):
        p0, p1 = e.load(s0, a[1], ir.PTR), e.load(s1, a[1], ir.PTR)
        r = e.s(s1, ret)
        if a[0].reg is None:
            return [("null limit is an error and leaves the position", tand(teq(r, -1), teq(p0.off.z(), p1.off.z())))]
        if p1.reg is not p0.reg: return [("position stays in the input buffer", False)]
        s = seg_of(e, p0)
        arr = e.seg_arr(s0, p0.reg, s)
        P, N, L = Z(p0.off.z()), Z(p1.off.z()), Z(a[0].off.z())
        X = self.max >> 7
        m = z3.Int("m!q")
        return [
            ("result is a value, RESULT_ERROR or RESULT_END_OF_DATA", z3.And(Z(r) >= -2, Z(r) <= self.max)),
            ("on success the position is just past a terminating byte before the limit",
             z3.Implies(Z(r) >= 0, z3.And(N > P, N <= L, arr[N - 1] < 128, cont(arr, P, N - 1)))),
            ("on success the value is the base-128 value of exactly the bytes consumed", z3.Implies(Z(r) >= 0, Z(r) == val(arr, P, N))),
            ("the position is unchanged unless a value was returned", z3.Implies(Z(r) < 0, N == P)),
            ("end of data only if every available byte is a continuation and the partial value still fits",
             z3.Implies(Z(r) == -2, z3.Or(P >= L, z3.And(cont(arr, P, L), val(arr, P, L) <= X)))),
            ("error only if a continued prefix already exceeds the type",
             z3.Implies(Z(r) == -1, z3.Exists([m], z3.And(m >= P, m < L, cont(arr, P, m + 1), val(arr, P, m + 1) > X), patterns=[val(arr, P, m + 1)]))),
        ]
    def loop_candidates(self, e, L):
        out = []
        P, a, buf = self.P, self.a, self.buf
        X = self.max >> 7
        for (r, o, v) in L.ptrs:
            if v.reg is not buf: continue
            def p(st, r=r, o=o):
                x = e.cellval(st, r, o)
                if not isinstance(x, PtrV) or x.reg is not buf: raise Unsupported("ptr")
                return Z(x.off.z())
            for rr in L.locals:
                for oo, (sz, vv) in L.entry.rc(rr).cells.items():
                    if isinstance(vv, PtrV) and vv.reg is buf and vv is not v:
                        out.append(("!limit", lambda st, p=p, vv=vv: z3.Or(p(st) == P, p(st) <= Z(vv.off.z()))))
            out.append(("!cont", lambda st, p=p: cont(a, P, p(st))))
            out.append(("!val bounded", lambda st, p=p: z3.And(val(a, P, p(st)) >= 0, val(a, P, p(st)) <= X)))
            for (r2, o2, v2) in L.ints:
                def x(st, r2=r2, o2=o2):
                    y = e.cellval(st, r2, o2)
                    if not isinstance(y, IntV): raise Unsupported("int")
                    return Z(e.s(st, y))
                out.append(("!acc128", lambda st, p=p, x=x: x(st) == 128 * val(a, P, p(st))))
                out.append(("!acc", lambda st, p=p, x=x: x(st) == val(a, P, p(st))))
        return out
    # at call sites the abstract names are attached too
    def apply(self, e, st, a):
        lim = a[0]
        with Spec(e): p0 = e.load(st, a[1], ir.PTR)
        ret = Contract.apply(self, e, st, a)
        if isinstance(lim, PtrV) and lim.reg is not None and isinstance(p0, PtrV) and p0.reg is lim.reg:
            with Spec(e): p1 = e.load(st, a[1], ir.PTR)
            arr = e.seg_arr(st, p0.reg, seg_of(e, p0))
            st.assume(Z(e.s(st, ret)) == VR[self.w](arr, Z(p0.off.z()), Z(lim.off.z())), Z(p1.off.z()) == VN[self.w](arr, Z(p0.off.z()), Z(lim.off.z())))
        return ret

class EncodeInternal(Contract):
    props = ("C08",)
    unroll = 12
    def __init__(self, w):
        self.w = w; self.nb = 5 if w == 32 else 9
        self.match = "open_vcdiff::VarintBE<%s>::EncodeInternal" % ("int" if w == 32 else "long")
    def setup(self, e, st, case):
        v = e.fresh_int(st, self.w, True, "v")
        b = Region("varint_buf", self.nb, "sym"); b.segs.append(Seg(0, 1, self.nb)); b.isegs[0] = e.fresh_arr("vb")
        return [v, PtrV(b, 0)]
    def pre(self, e, st, a): return [("value >= 0", Z(e.s(st, a[0])) >= 0)]
    def modifies(self, e, st, a): return [(a[1].reg, ("seg", seg_of(e, a[1]).start))]
    def post(self, e, s0, s1, a, ret):
        v = Z(e.s(s0, a[0])); n = Z(e.s(s1, ret))
        s = seg_of(e, a[1]); arr = e.seg_arr(s1, a[1].reg, s); base = a[1].off.add(-s.start).z()
        out = [("length is the exact base-128 length", n == enc_len(v, self.nb))]
        # digit k from the end
        for k in range(self.nb):
            byte = arr[Z(tadd(base, self.nb - 1 - k))]
            d = (v / z3.IntVal(1 << (7 * k))) % 128
            out.append(("byte %d from the end" % k, z3.Implies(n > k, byte == d + (128 if k else 0))))
        return out

class Length(Contract):
    props = ("C08", "C14", "C19")
    unroll = 12
    def __init__(self, w):
        self.w = w; self.nb = 5 if w == 32 else 9
        self.match = "open_vcdiff::VarintBE<%s>::Length" % ("int" if w == 32 else "long")
    def setup(self, e, st, case): return [e.fresh_int(st, self.w, True, "v")]
    def pre(self, e, st, a): return [("value >= 0", Z(e.s(st, a[0])) >= 0)]
    def post(self, e, s0, s1, a, ret):
        return [("length is the exact base-128 length", Z(e.s(s1, ret)) == enc_len(Z(e.s(s0, a[0])), self.nb))]

class Encode(Contract):
    props = ("C08",)
    unroll = 12
    def __init__(self, w):
        self.w = w; self.nb = 5 if w == 32 else 9
        self.match = "open_vcdiff::VarintBE<%s>::Encode" % ("int" if w == 32 else "long")
        self.cases = ["%d bytes" % k for k in range(1, self.nb + 1)]
    def setup(self, e, st, case):
        v = e.fresh_int(st, self.w, True, "v")
        k = int(case.split()[0])
        st.assume(v.t >= (0 if k == 1 else 1 << (7 * (k - 1))))
        if 7 * k < self.w - 1: st.assume(v.t < (1 << (7 * k)))
        # the destination has exactly as many bytes as the encoding: writing more is out of bounds
        b = Region("dest", k, "sym"); b.segs.append(Seg(0, 1, k)); b.isegs[0] = e.fresh_arr("dest")
        return [v, PtrV(b, 0)]
    def pre(self, e, st, a): return [("value >= 0", Z(e.s(st, a[0])) >= 0)]
    def modifies(self, e, st, a): return [(a[1].reg, ("seg", seg_of(e, a[1]).start))]
    def post(self, e, s0, s1, a, ret):
        v = Z(e.s(s0, a[0])); n = Z(e.s(s1, ret))
        s = seg_of(e, a[1]); arr = e.seg_arr(s1, a[1].reg, s); base = a[1].off.add(-s.start).z()
        out = [("length is the exact base-128 length", n == enc_len(v, self.nb))]
        for k in range(self.nb):
            d = (v / z3.IntVal(1 << (7 * k))) % 128
            out.append(("byte %d from the end" % k, z3.Implies(n > k, arr[Z(base) + n - 1 - k] == d + (128 if k else 0))))
        return out

class Append(Contract):
    """AppendToString: appends exactly the encoding and nothing else"""
    props = ("C08", "C14", "C19")
    unroll = 12
    def __init__(self, w):
        self.w = w; self.nb = 5 if w == 32 else 9
        self.match = "open_vcdiff::VarintBE<%s>::AppendToString" % ("int" if w == 32 else "long")
    def setup(self, e, st, case):
        v = e.fresh_int(st, self.w, True, "v")
        o = Region("str", 32, "sym"); str_init(e, st, o, 0, "s")
        return [v, PtrV(o, 0)]
    def pre(self, e, st, a): return [("value >= 0", Z(e.s(st, a[0])) >= 0)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        v = Z(e.s(s0, a[0]))
        l0, l1 = Z(s_len(e, s0, a[1])), Z(s_len(e, s1, a[1]))
        b0, b1 = s_ptr(e, s0, a[1]), s_ptr(e, s1, a[1])
        A0 = e.seg_arr(s0, b0.reg, b0.reg.segs[0]); A1 = e.seg_arr(s1, b1.reg, b1.reg.segs[0])
        n = enc_len(v, self.nb)
        i = e.fresh("i")
        out = [("string grows by the exact length", l1 == l0 + n),
               ("existing contents kept", z3.Implies(z3.And(i >= 0, i < l0), A1[i] == A0[i]))]
        for k in range(self.nb):
            d = (v / z3.IntVal(1 << (7 * k))) % 128
            out.append(("byte %d from the end" % k, z3.Implies(n > k, A1[l1 - 1 - k] == d + (128 if k else 0))))
        return out
    def apply(self, e, st, a):
        """call-site form: a fresh run of n bytes appended"""
        with_pre = self.pre(e, st, a)
        for n, g in with_pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        src, n = self.encoded(e, st, a)
        str_append(e, st, a[1], src, n)
        return None
    def encoded(self, e, st, a):
        v = Z(e.s(st, a[0]))
        n = e.fresh("vlen"); st.assume(n == enc_len(v, self.nb), n >= 1, n <= self.nb)
        src = Region("venc", n, "sym"); src.segs.append(Seg(0, 1, n)); arr = e.fresh_arr("venc"); src.isegs[0] = arr
        for k in range(self.nb):
            d = (v / z3.IntVal(1 << (7 * k))) % 128
            st.assume(z3.Implies(n > k, arr[n - 1 - k] == d + (128 if k else 0)))
        # spec-level fact (lemma varint_roundtrip): these bytes parse back to v
        st.assume(val(arr, 0, n) == v, cont(arr, 0, n - 1), arr[n - 1] < 128)
        st.assume(z3.Sum([z3.If(n > k, (arr[n - 1 - k] - (128 if k else 0)) * (1 << (7 * k)), 0) for k in range(self.nb)]) == v)
        st.assume(*[z3.Implies(n > k, z3.And(arr[n - 1 - k] >= (128 if k else 0), arr[n - 1 - k] < (256 if k else 128))) for k in range(self.nb)])
        return PtrV(src, 0, src.segs[0]), n

class AppendOut(Append):
    """AppendToOutputString: the same through the caller's output interface"""
    def __init__(self, w):
        Append.__init__(self, w); self.match = "open_vcdiff::VarintBE<%s>::AppendToOutputString" % ("int" if w == 32 else "long")
    def setup(self, e, st, case):
        from .window import Out
        v = e.fresh_int(st, self.w, True, "v"); self.out = Out(e, st); return [v, self.out.p]
    def modifies(self, e, st, a):
        from .window import OView
        return OView(e, st, a[1]).mods()
    def post(self, e, s0, s1, a, ret):
        from .window import OView
        v = Z(e.s(s0, a[0])); o0, o1 = OView(e, s0, a[1]), OView(e, s1, a[1]); n = enc_len(v, self.nb); i = z3.Int("i!q")
        return [("the output grows by the exact length", o1.len == o0.len + n),
                ("earlier output is kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o0.len), o1.arr[i] == o0.arr[i]), patterns=[o1.arr[i]]))] + \
               [("byte %d from the end" % k, z3.Implies(n > k, o1.arr[o1.len - 1 - k] == (v / z3.IntVal(1 << (7 * k))) % 128 + (128 if k else 0))) for k in range(self.nb)]
    def apply(self, e, st, a):
        for n, g in self.pre(e, st, a): e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        with Spec(e): src, n = self.encoded(e, st, a); a[1].reg.gout.append(e, st, [a[1], src, IntV(n, 64, 0, MAXSTR)])
        return None
CONTRACTS = [Parse(32), Parse(64), EncodeInternal(32), EncodeInternal(64), Length(32), Length(64), Encode(32), Encode(64), Append(32), Append(64), AppendOut(32), AppendOut(64)]

# ---------------------------------------------------------------- lemmas over the contracts
def lemma_roundtrip():
    """For all v: the bytes EncodeInternal's contract describes satisfy Parse's success clause with value v,
    for every length 1..9 (so Parse, whose contract is deterministic, returns v and consumes exactly them).
    q_k = v / 128^k and m_k = q_k / 128, r_k = q_k % 128 enter through their defining inequalities."""
    out = []
    for w, nb in ((32, 5), (64, 9)):
        v = z3.Int("v"); q = [z3.Int("q%d" % k) for k in range(nb + 1)]; m = [z3.Int("m%d" % k) for k in range(nb)]; r = [z3.Int("r%d" % k) for k in range(nb)]
        base = [v >= 0, v < (1 << (w - 1))]
        for k in range(nb + 1): base += [q[k] * (1 << (7 * k)) <= v, v < q[k] * (1 << (7 * k)) + (1 << (7 * k))]
        for k in range(nb): base += [q[k] == 128 * m[k] + r[k], r[k] >= 0, r[k] < 128]
        for k in range(nb):
            s = z3.Solver(); s.set("timeout", 20000); s.add(*base); s.add(m[k] != q[k + 1])
            out.append(("varint%d: (v / 128^%d) / 128 = v / 128^%d" % (w, k, k + 1), s))
        base += [m[k] == q[k + 1] for k in range(nb)]
        for n in range(1, nb + 1):
            a = z3.Array("a", I, I); P = z3.Int("P")
            s = z3.Solver(); s.set("timeout", 20000)
            s.add(*base); s.add(enc_len(v, nb) == n)
            for k in range(n):
                s.add(a[P + n - 1 - k] == r[k] + (128 if k else 0))
                # definitional unfoldings at the position of digit k, as linear facts
                i = P + n - 1 - k
                s.add(val(a, P, i + 1) == 128 * val(a, P, i) + (r[k]), cont(a, P, i + 1) == z3.And(cont(a, P, i), a[i] >= 128))
            s.add(val(a, P, P) == 0, cont(a, P, P) == True)
            goal = z3.And(val(a, P, P + n) == v, cont(a, P, P + n - 1), a[P + n - 1] < 128,
                          # no proper prefix exceeds the type, so Parse's error clause cannot apply
                          *[val(a, P, P + k) <= ((1 << (w - 1)) - 1) >> 7 for k in range(n)])
            s.add(z3.Not(goal))
            out.append(("varint%d round trip, %d bytes" % (w, n), s))
    return out
def lemma_deterministic():
    """Parse's clauses are mutually exclusive: at most one (result, position) satisfies them.  Uses: two terminating
    positions with all-continuation prefixes coincide (induction on the prefix, base and step)."""
    a = z3.Array("a", I, I); P, i, j = z3.Ints("P i j")
    out = []
    # step: if cont(P,j+1) holds then every byte at i<=j is a continuation; by induction on j
    s = z3.Solver(); s.set("timeout", 20000)
    s.add(*unfold(a, P, j)); s.add(i >= P, i <= j, cont(a, P, j + 1))
    s.add(z3.Implies(z3.And(i < j, cont(a, P, j)), a[i] >= 128))       # induction hypothesis
    s.add(z3.Not(a[i] >= 128))
    out.append(("cont(P,n) implies every byte before n is a continuation (induction step)", s))
    # the value of a longer prefix is at least that of a shorter one (induction on the longer one)
    m, n = z3.Ints("m n")
    s = z3.Solver(); s.set("timeout", 20000)
    s.add(*unfold(a, P, n)); s.add(m >= P, n >= m, val(a, P, n) >= val(a, P, m), val(a, P, m) >= 0, val(a, P, n) >= 0, a[n] >= 0)
    s.add(z3.Not(z3.And(val(a, P, n + 1) >= val(a, P, m), val(a, P, n + 1) >= 0)))
    out.append(("val(P,n) is non-negative and monotone in n (induction step)", s))
    # two outcomes allowed by the contract are the same outcome: this is what lets callers name the result as a function
    def bytes_lemma(N, j): return z3.Implies(z3.And(cont(a, P, N), j >= P, j < N), a[j] >= 128)
    def mono(x, y): return z3.Implies(z3.And(P <= x, x <= y), z3.And(val(a, P, x) <= val(a, P, y), val(a, P, x) >= 0))
    for w in (32, 64):
        MAX = (1 << (w - 1)) - 1; X = MAX >> 7
        L = z3.Int("L"); N1, N2, m1, r1, r2 = z3.Ints("N1 N2 m1 r1 r2")
        def succ(r, N): return z3.And(r >= 0, r <= MAX, N > P, N <= L, a[N - 1] < 128, cont(a, P, N - 1), r == val(a, P, N))
        def end(): return z3.Or(P >= L, z3.And(cont(a, P, L), val(a, P, L) <= X))
        def err(): return z3.And(m1 >= P, m1 < L, cont(a, P, m1 + 1), val(a, P, m1 + 1) > X)
        ax = [bytes_lemma(N2 - 1, N1 - 1), bytes_lemma(N1 - 1, N2 - 1), bytes_lemma(L, N1 - 1), bytes_lemma(m1 + 1, N1 - 1), mono(m1 + 1, N1 - 1), mono(m1 + 1, L),
              a[N1 - 1] >= 0] + unfold(a, P, N1 - 1)
        for nm, f in (("two values", [succ(r1, N1), succ(r2, N2), z3.Or(r1 != r2, N1 != N2)]), ("a value and an end of data", [succ(r1, N1), end()]),
                      ("a value and an error", [succ(r1, N1), err()]), ("an end of data and an error", [end(), err()])):
            s = z3.Solver(); s.set("timeout", 20000); s.add(*ax); s.add(*f)
            out.append(("varint%d: %s cannot both satisfy the contract" % (w, nm), s))
    return out
LEMMAS = {"C08": [lemma_roundtrip, lemma_deterministic], "C10": [lemma_deterministic]}
