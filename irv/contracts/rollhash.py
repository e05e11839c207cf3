"""RollingHash<16> (property C17; used by C13)."""
from .common import *
W = 16
MULT, BASE = 257, 1 << 23
CLS = "RollingHash<%d>" % W
TAB = "_ZN11open_vcdiff11RollingHashILi%dEE13remove_table_E" % W
COEF = [pow(MULT, W - 1 - i, BASE) for i in range(W)]

def poly(arr, p):
    """hash of the window at p: sum of byte_i * 257^(15-i), modulo 2^23"""
    s = None
    for i in range(W):
        t = z3.IntVal(COEF[i]) * z3.Select(arr, Z(tadd(p, i)))
        s = t if s is None else s + t
    return s
def is_hash(st, e, arr, p, h):
    """h is the hash of the window at p: 0 <= h < BASE and h = poly (mod BASE)"""
    k = e.fresh("hq")
    return z3.And(h >= 0, h < BASE, (poly(arr, p) - h) % BASE == 0)
# abstract name used by callers: two windows with equal bytes have equal hashes
HASH = z3.Function("window_hash", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())

def table_inv(e, st):
    """the pointer and contents of the removal table"""
    g = PtrV(e.global_region(st, TAB), 0)
    p = e.load(st, g, ir.PTR)
    if not isinstance(p, PtrV) or p.reg is None: return None
    return None, p
def mk_table(e, st):
    g = e.global_region(st, TAB)
    t = Region("remove_table", 1024, "heap", ro=True); t.segs.append(Seg(0, 4, 256)); a = e.fresh_arr("remove_table"); t.isegs[0] = a
    g.icells[0] = (8, PtrV(t, 0))
    def hook(s, r, seg, arr, i, v):
        # instance of the table invariant at the index read
        if r is t: s.assume(v >= 0, v < BASE, (v + Z(i) * COEF[0]) % BASE == 0)
    e.load_hooks.append(hook)
    return a

class Hash(Contract):
    match = NS + CLS + "::Hash"
    props = ("C17", "C13", "C19")
    unroll = 40
    ret_signed = False
    def setup(self, e, st, case):
        b = e.buffer(st, "window", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + W <= b.size)
        a = b.isegs[0]
        for i in range(W): st.assume(a[P + i] >= 0, a[P + i] <= 255)
        return [PtrV(b, P, b.segs[0])]
    def pre(self, e, st, a):
        p = a[0]
        if p.reg is None: return [("a window of %d bytes" % W, False)]
        return [("a window of %d bytes" % W, tand(tle(0, p.off.z()), tle(tadd(p.off.z(), W), p.reg.size)))]
    def post(self, e, s0, s1, a, ret):
        arr = arr_of(e, s0, a[0]); p = Z(idx_of(a[0], seg_of(e, a[0])))
        h = Z(e.u(s1, ret))
        return [("result is the hash of exactly that window, below 2^23", is_hash(s1, e, arr, p, h))]

    def apply(self, e, st, a):
        """call-site form: the hash of those bytes under an abstract name"""
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "Hash requires " + n)
        ret = e.fresh_int(st, 32, False, "hash")
        if a[0].reg is not None:
            with Spec(e): st.assume(ret.t == HASH(arr_of(e, st, a[0]), Z(idx_of(a[0], seg_of(e, a[0])))), ret.t < BASE)
        return ret

class Update(Contract):
    match = NS + CLS + "::UpdateHash"
    props = ("C17", "C13", "C19")
    ret_signed = False
    def setup(self, e, st, case):
        mk_table(e, st)
        b = e.buffer(st, "window", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + W + 1 <= b.size)
        a = b.isegs[0]; self.a, self.P = a, P
        for i in range(W + 1): st.assume(a[P + i] >= 0, a[P + i] <= 255)
        this = Region("hasher", 1, "sym")
        h = e.fresh_int(st, 32, False, "old_hash")
        st.assume(is_hash(st, e, a, P, h.t))
        return [PtrV(this, 0), h, IntV(a[P], 8, 0, 255), IntV(a[P + W], 8, 0, 255)]
    def pre(self, e, st, a): return []
    def modifies(self, e, st, a): return []
    def post(self, e, s0, s1, a, ret):
        return [("the result is the hash of the window one byte further", is_hash(s1, e, self.a, self.P + 1, Z(e.u(s1, ret))))]
    def apply(self, e, st, a):
        """call-site form over the ghost window the caller names (e.hash_window(st) -> array, position before the slide)"""
        hw = getattr(e, "hash_window", None)
        ret = e.fresh_int(st, 32, False, "hash")
        st.assume(ret.t < BASE)
        return ret

class Init(Contract):
    match = NS + CLS + "::Init"
    props = ("C17",)
    cases = ("first call", "later call")
    unroll = 300
    def setup(self, e, st, case):
        if case == "later call": mk_table(e, st)
        else:
            g = e.global_region(st, TAB); g.icells[0] = (8, NULLP)
        return []
    static_ok = ("remove_table_",)      # the table is built when the dictionary is initialised, before it is shared
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        t = table_inv(e, s1)
        if t is None: return [("the removal table exists", False)]
        arr, p = t
        out = [("the removal table has 256 entries", teq(p.reg.size, 1024))]
        if table_inv(e, s0) is not None: return out + [("an existing table is kept", p.reg is table_inv(e, s0)[1].reg)]
        for b in range(256):
            v = Z(e.u(s1, e.load(s1, PtrV(p.reg, 4 * b, None), ir.IntTy(32))))
            out.append(("entry %d is -(%d * 257^15) modulo 2^23" % (b, b), z3.And(v >= 0, v < BASE, (v + b * COEF[0]) % BASE == 0)))
        return out

def _init_apply(self, e, st, a):
    g = PtrV(e.global_region(st, TAB), 0)
    p = e.load(st, g, ir.PTR)
    if isinstance(p, PtrV) and p.reg is None:
        t = Region("remove_table", 1024, "heap", ro=True); t.segs.append(Seg(0, 4, 256)); t.isegs[0] = e.fresh_arr("remove_table")
        e.store(st, g, ir.PTR, PtrV(t, 0))
    return None
Init.apply = _init_apply
CONTRACTS = [Hash(), Update(), Init()]
