"""zlib/adler32.c adler32 (property C07)."""
from .common import *
BASE = 65521
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
# unreduced sums of the bytes [P, i) from the starting halves (a0, s0)
S1 = z3.Function("adler_low", ARR, I, I, I, I, I)
S2 = z3.Function("adler_high", ARR, I, I, I, I, I)
# the checksum of n bytes at P from a starting value (abstract name used by callers)
ADLER = z3.Function("adler32", I, ARR, I, I, I)

def start(a, P, a0, s0): return [S1(a, P, a0, s0, P) == a0, S2(a, P, a0, s0, P) == s0]
def unfold(a, P, a0, s0, i):
    return start(a, P, a0, s0) + [z3.Implies(i >= P, z3.And(S1(a, P, a0, s0, i + 1) == S1(a, P, a0, s0, i) + a[i],
                                                            S2(a, P, a0, s0, i + 1) == S2(a, P, a0, s0, i) + S1(a, P, a0, s0, i) + a[i]))]

class Adler32(Contract):
    match = "adler32"
    props = ("C07", "C19")
    cases = ("buffer", "null buffer")
    ret_signed = False
    cost = 20
    def setup(self, e, st, case):
        ad = e.fresh_int(st, 64, False, "adler"); ln = e.fresh_int(st, 32, False, "len")
        if case == "null buffer":
            st.assume(ln.t != 1)
            return [ad, NULLP, ln]
        b = e.buffer(st, "buf", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + ln.t <= b.size)
        a = b.isegs[0]; a0, s0 = ad.t % 65536, (ad.t / 65536) % 65536
        self.b, self.a, self.P = b, a, P
        self.a0, self.s0 = e.fresh("a0"), e.fresh("s0")
        st.assume(self.a0 == a0, self.s0 == s0)
        st.assume(*start(a, P, self.a0, self.s0))
        def hook(s, r, seg, arr, i, t):
            if r is b: s.assume(*unfold(a, P, self.a0, self.s0, Z(i)))
        e.load_hooks.append(hook)
        return [ad, PtrV(b, P, b.segs[0]), ln]
    def pre(self, e, st, a):
        ad = Z(e.u(st, a[0])); n = Z(e.u(st, a[2]))
        out = [("a partial checksum", z3.And(ad % 65536 < BASE, (ad / 65536) % 65536 < BASE))]
        if a[1].reg is None: return out + [("not one byte at null", n != 1)]
        return out + [("the bytes are readable", z3.And(Z(a[1].off.z()) >= 0, Z(a[1].off.z()) + n <= Z(a[1].reg.size)))]
    def post(self, e, s0, s1, a, ret):
        r = Z(e.u(s1, ret))
        if a[1].reg is None: return [("null gives 1", r == 1)]
        n = Z(e.u(s0, a[2])); P = Z(idx_of(a[1], seg_of(e, a[1]))); arr = arr_of(e, s0, a[1])
        if not e.spec_use:
            lo, hi = S1(arr, P, self.a0, self.s0, P + n), S2(arr, P, self.a0, self.s0, P + n)
            return [("both halves are reduced", z3.And(r >= 0, r % 65536 < BASE, r / 65536 < BASE)),
                    ("the low half is 1-sum modulo 65521", (lo - r % 65536) % BASE == 0),
                    ("the high half is the sum of the low halves modulo 65521", (hi - r / 65536) % BASE == 0)]
        return [("it is the Adler-32 checksum", z3.And(r == ADLER(Z(e.u(s0, a[0])), arr, P, n), r >= 0, r < (1 << 32)))]
    def apply(self, e, st, a):
        e.spec_use = True
        try: return Contract.apply(self, e, st, a)
        finally: e.spec_use = False
    def loop_candidates(self, e, L):
        out = []
        if e.entry_args[1].reg is None: return out
        b, a, P, a0, s0 = self.b, self.a, self.P, self.a0, self.s0
        def get(r, o, k):
            def g(st):
                y = e.cellval(st, r, o)
                if not isinstance(y, k): raise Unsupported("kind")
                if k is PtrV:
                    if y.reg is not b: raise Unsupported("region")
                    return Z(y.off.z())
                return Z(e.u(st, y))
            return g
        for (r, o, v) in L.ptrs:
            if v.reg is not b: continue
            p = get(r, o, PtrV); p0 = Z(v.off.z())
            out.append(("!p>=P", lambda st, p=p: p(st) >= P))
            for (r2, o2, v2) in L.ints:
                x = get(r2, o2, IntV); x0 = Z(e.u(L.entry, v2))
                if v2.w == 64:
                    out.append(("!low", lambda st, p=p, x=x: (x(st) - S1(a, P, a0, s0, p(st))) % BASE == 0))
                    out.append(("!high", lambda st, p=p, x=x: (x(st) - S2(a, P, a0, s0, p(st))) % BASE == 0))
                    for m in (65536, BASE): out.append(("!halves reduced", lambda st, x=x, m=m: x(st) < m))
                    for c in (255, 1 << 22):
                        out.append(("!grows by at most %d per byte" % c, lambda st, p=p, x=x, c=c, p0=p0, x0=x0: x(st) <= x0 + c * (p(st) - p0)))
                else:
                    for c in (1, 16):
                        out.append(("!p+%dn" % c, lambda st, p=p, x=x, c=c, p0=p0, x0=x0: p(st) + c * x(st) == p0 + c * x0))
        return out
CONTRACTS = [Adler32()]
