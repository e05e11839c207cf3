"""BlockHash (property C13; used by C01, C14, C16).

Object invariant of an initialised BlockHash (n = source_size_, nb = n/16 blocks, last = last_block_added_):
  * source_data_ points to n readable bytes; the hash table has mask+1 entries, the two link tables nb entries;
  * every hash table entry is -1 or a block in [0, last];  next[b] is -1 or a block in (b, last];
  * the head h of a chain has its tail t = last_block_table[h] in [h, last] with next[t] == -1;
  * ghost own: own[h] == own[t] == index of the chain, so that tails of different chains are different blocks."""
from .common import *
from . import rollhash
BH = "BlockHash"
BS = 16

class V:
    """the fields of a BlockHash in a state"""
    def __init__(self, e, st, p):
        self.e, self.st, self.p = e, st, p
        self.n = geti(e, st, p, BH, "source_size_"); self.mask = geti(e, st, p, BH, "hash_table_mask_")
        self.start = geti(e, st, p, BH, "starting_offset_"); self.last = geti(e, st, p, BH, "last_block_added_")
        self.src = getv(e, st, p, BH, "source_data_")
        self.ok = True
        def vec(nm):
            q, _, _ = fld(e, p, BH, nm)
            b, en = e.load(st, q, ir.PTR), e.load(st, e_ptr(q, 8), ir.PTR)
            if b.reg is None: self.ok = False; return None, 0, None
            return e.seg_arr(st, b.reg, b.reg.segs[0]), en.off.add(b.off, -1).div(4).z(), b.reg
        self.ht, self.htn, self.htr = vec("hash_table_"); self.nx, self.nxn, self.nxr = vec("next_block_table_"); self.lt, self.ltn, self.ltr = vec("last_block_table_")
        g = own_region(e, p.reg)
        self.own = e.seg_arr(st, g, g.segs[0])
        if self.src.reg is not None:
            self.sa = arr_of(e, st, self.src); self.s0 = Z(idx_of(self.src, seg_of(e, self.src)))
        else: self.sa, self.s0 = None, z3.IntVal(0)
    @property
    def nb(self): return self.n / BS
    def shape(self):
        """the parts without quantifier"""
        if not self.ok: return [("the tables exist", False)]
        return [("table sizes", z3.And(Z(self.htn) == self.mask + 1, self.mask >= 0, Z(self.nxn) == self.nb, Z(self.ltn) == self.nb)),
                ("last block is below the number of blocks", z3.And(self.last >= -1, z3.Or(self.last < self.nb, self.last == -1)))] + self.src_ok()
    def src_ok(self):
        r = self.src.reg
        if r is None: return [("source data", self.n == 0)]
        return [("source data readable", z3.And(Z(self.src.off.z()) >= 0, Z(self.src.off.z()) + self.n <= Z(r.size), self.n >= 0, self.n <= INT_MAX)),
                ("offsets fit int", z3.And(self.start >= 0, self.start + self.n <= INT_MAX))]
    def links(self):
        i, b = z3.Int("i!bh"), z3.Int("b!bh")
        ht, nx, lt, own, last = self.ht, self.nx, self.lt, self.own, self.last
        h = ht[i]; t = lt[h]
        return [("hash table entries are -1 or added blocks", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= self.mask), z3.And(h >= -1, h <= last)), patterns=[h])),
                ("links go forward to added blocks", z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < self.nb), z3.Or(nx[b] == -1, z3.And(nx[b] > b, nx[b] <= last))), patterns=[nx[b]])),
                ("each chain has its own open tail", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= self.mask, h >= 0), z3.And(own[h] == i, t >= h, t <= last, nx[t] == -1, own[t] == i)), patterns=[h]))]
    def inv(self): return self.shape() + (self.links() if self.ok else [])

def own_region(e, r):
    """ghost: chain index of each block"""
    d = e.__dict__.setdefault("bh_own", {})
    if r.id not in d:
        g = Region(r.name + ".ghost_own", 1 << 62, "heap"); g.segs.append(Seg(0, 4, 1 << 60, True)); g.isegs[0] = e.fresh_arr(r.name + ".own"); d[r.id] = g
    return d[r.id]
def links_mod(e, st, p):
    v = V(e, st, p)
    g = own_region(e, p.reg)
    return [cell(e, p, BH, "last_block_added_"), (v.htr, ("seg", 0)), (v.nxr, ("seg", 0)), (v.ltr, ("seg", 0)), (g, ("seg", 0))]

def mk(e, st, name="bh", src=None, off=0, ready=True):
    r = e.object(st, name, NS + BH)
    n = e.fresh_int(st, 64, False, name + ".n"); st.assume(n.t <= INT_MAX)
    if src is None: src = e.buffer(st, name + ".source", ro=True, maxsize=1 << 40)
    st.assume(tle(tadd(off, n.t), src.size))
    p = PtrV(r, 0)
    setinit(e, r, 0, BH, "source_data_", PtrV(src, off, src.segs[0])); setinit(e, r, 0, BH, "source_size_", n)
    mask = e.fresh_int(st, 32, False, name + ".mask"); setinit(e, r, 0, BH, "hash_table_mask_", mask)
    so = e.fresh_int(st, 32, True, name + ".start"); setinit(e, r, 0, BH, "starting_offset_", so)
    la = e.fresh_int(st, 32, True, name + ".last"); setinit(e, r, 0, BH, "last_block_added_", la)
    for f, sz in (("hash_table_", mask.t + 1), ("next_block_table_", n.t / BS), ("last_block_table_", n.t / BS)):
        o = e.di.field(NS + BH, f)[0]
        if ready: vec_init(e, st, r, o, name + "." + f, sz)
        else:
            for k in (0, 8, 16): r.icells[o + k] = (8, NULLP)
    own_region(e, r)
    return p

def eq_range(e, sa, ta, lo, hi, d):
    """ta[j] == sa[j + d] for j in [lo, hi)"""
    j = z3.Int("j!eq")
    return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), ta[j] == sa[j + d]), patterns=[ta[j]])
def eq16(sa, s, ta, t): return z3.And(*[Z(sa)[Z(tadd(s, k))] == ta[Z(tadd(t, k))] for k in range(BS)])
def rd(p): return p.reg is not None
def ix(e, p): return Z(idx_of(p, seg_of(e, p)))

class TwoPtr(Contract):
    cases = ("different objects", "one object")
    def setup(self, e, st, case):
        a = e.buffer(st, "source", ro=True); b = a if case == "one object" else e.buffer(st, "target", ro=True)
        s, t = e.fresh("s"), e.fresh("t")
        st.assume(s >= 0, s <= a.size, t >= 0, t <= b.size)
        return [PtrV(a, s, a.segs[0]), PtrV(b, t, b.segs[0])] + self.extra(e, st)
    def extra(self, e, st): return []
    def modifies(self, e, st, a): return []

class Left(TwoPtr):
    match = NS + BH + "::MatchingBytesToLeft"
    props = ("C13", "C19")
    sign = -1
    def extra(self, e, st): return [e.fresh_int(st, 32, True, "max")]
    def pre(self, e, st, a):
        m = Z(e.s(st, a[2]))
        if not rd(a[0]) or not rd(a[1]): return [("nothing to read at null", m <= 0)]
        if self.sign < 0: return [("max_bytes below INT_MAX", m < INT_MAX), ("max_bytes readable to the left", z3.And(m <= Z(a[0].off.z()), m <= Z(a[1].off.z())))]
        return [("max_bytes below INT_MAX", m < INT_MAX), ("max_bytes readable to the right", z3.And(Z(a[0].off.z()) + m <= Z(a[0].reg.size), Z(a[1].off.z()) + m <= Z(a[1].reg.size)))]
    def post(self, e, s0, s1, a, ret):
        r, m = Z(e.s(s1, ret)), Z(e.s(s0, a[2]))
        out = [("0 <= result <= max(0, max_bytes)", z3.And(r >= 0, z3.Or(r <= m, r == 0)))]
        if not rd(a[0]) or not rd(a[1]): return out
        sa, ta, s, t = arr_of(e, s0, a[0]), arr_of(e, s0, a[1]), ix(e, a[0]), ix(e, a[1])
        if self.sign < 0:
            return out + [("the bytes to the left are equal", eq_range(e, sa, ta, t - r, t, s - t)), ("it stops only at the limit or a difference", z3.Or(r >= m, sa[s - r - 1] != ta[t - r - 1]))]
        return out + [("the bytes to the right are equal", eq_range(e, sa, ta, t, t + r, s - t)), ("it stops only at the limit or a difference", z3.Or(r >= m, sa[s + r] != ta[t + r]))]
    def loop_candidates(self, e, L):
        a = e.entry_args; s0 = e.entry
        if not rd(a[0]) or not rd(a[1]): return []
        sa, ta, s, t = arr_of(e, s0, a[0]), arr_of(e, s0, a[1]), ix(e, a[0]), ix(e, a[1])
        m = Z(e.s(s0, a[2])); out = []
        def num(r, o, v):
            def g(st):
                y = e.cellval(st, r, o)
                if type(y) is not type(v) or (isinstance(v, PtrV) and y.reg is not v.reg): raise Unsupported("kind")
                return Z(y.off.z()) if isinstance(v, PtrV) else Z(e.s(st, y))
            return g
        for r, o, v in L.ptrs + L.ints:
            x = num(r, o, v); x0 = x(L.entry)
            # progress so far, as a count of bytes
            if isinstance(v, PtrV) and v.reg is a[1].reg: ks = [lambda st, x=x: (x(st) - t) * self.sign]
            elif isinstance(v, PtrV) and v.reg is a[0].reg: ks = [lambda st, x=x: (x(st) - s) * self.sign]
            elif isinstance(v, IntV): ks = [lambda st, x=x: x(st), lambda st, x=x: m - x(st), lambda st, x=x: x(st) - 1, lambda st, x=x: m - x(st) - 1, lambda st, x=x: -x(st), lambda st, x=x: -x(st) - 1]
            else: continue
            for k in ks:
                out.append(("!progress>=0", lambda st, k=k: k(st) >= 0))
                out.append(("!progress<=max", lambda st, k=k: z3.Or(k(st) <= m, k(st) == 0)))
                if self.sign < 0: out.append(("!equal so far", lambda st, k=k: eq_range(e, sa, ta, t - k(st), t, s - t)))
                else: out.append(("!equal so far", lambda st, k=k: eq_range(e, sa, ta, t, t + k(st), s - t)))
        return out
class Right(Left):
    match = NS + BH + "::MatchingBytesToRight"
    sign = 1

class BlockEq(TwoPtr):
    match = NS + BH + "::BlockContentsMatch"
    props = ("C13", "C19")
    def pre(self, e, st, a):
        if not rd(a[0]) or not rd(a[1]): return [("two blocks", False)]
        return [("two blocks of 16 bytes", z3.And(Z(a[0].off.z()) + BS <= Z(a[0].reg.size), Z(a[1].off.z()) + BS <= Z(a[1].reg.size), Z(a[0].off.z()) >= 0, Z(a[1].off.z()) >= 0))]
    def post(self, e, s0, s1, a, ret):
        b = B(e.boolof(ret))
        return [("true exactly when all 16 bytes are equal", b == eq16(arr_of(e, s0, a[0]), ix(e, a[0]), arr_of(e, s0, a[1]), ix(e, a[1])))]
class BlockWords(BlockEq):
    match = NS + BH + "::BlockCompareWords"
class BlockEqInline(BlockEq):
    match = NS + "BlockContentsMatchInline"

class TableSize(Contract):
    match = NS + BH + "::CalcTableSize"
    props = ("C13", "C19")
    unroll = 70
    ret_signed = False
    def setup(self, e, st, case): return [e.fresh_int(st, 64, False, "size")]
    def pre(self, e, st, a): return [("sizes below 2^61", Z(e.u(st, a[0])) < (1 << 61))]
    def modifies(self, e, st, a): return []
    def post(self, e, s0, s1, a, ret):
        n, r = Z(e.u(s0, a[0])), Z(e.u(s1, ret))
        p2 = z3.Or(*[r == (1 << k) for k in range(63)])
        return [("a power of two", p2), ("at least n/4+1 entries and less than twice that", z3.And(r >= n / 4 + 1, r < 2 * (n / 4 + 1) + 1))]

class Obj(Contract):
    """a method of an initialised BlockHash"""
    props = ("C13", "C19")
    def setup(self, e, st, case): return [mk(e, st)] + self.extra(e, st)
    def extra(self, e, st): return []
    def pre(self, e, st, a): return V(e, st, a[0]).inv() + self.pre2(e, st, a)
    def pre2(self, e, st, a): return []
    def modifies(self, e, st, a): return []

class AddBlock(Obj):
    match = NS + BH + "::AddBlock"
    def extra(self, e, st): return [e.fresh_int(st, 32, False, "hash")]
    def pre2(self, e, st, a):
        v = V(e, st, a[0])
        return [("a block is left to add", v.last + 1 < v.nb)]
    def modifies(self, e, st, a): return links_mod(e, st, a[0])
    def post(self, e, s0, s1, a, ret):
        v0 = V(e, s0, a[0])
        g = own_region(e, a[0].reg)
        if not e.spec_use:
            # ghost update: the new block belongs to the chain of its hash
            idx = e.binop(s1, "and", 32, a[1], IntV(v0.mask, 32, 0, (1 << 32) - 1), ())
            s1.wrc(g).segs[0] = z3.Store(v0.own, v0.last + 1, Z(idx.t))
        v1 = V(e, s1, a[0])
        return [("exactly one block is added", v1.last == v0.last + 1)] + v1.inv()
    def apply(self, e, st, a):
        e.spec_use = True
        try: return Contract.apply(self, e, st, a)
        finally: e.spec_use = False

class AddOne(Obj):
    match = NS + BH + "::AddOneIndexHash"
    def extra(self, e, st): return [e.fresh_int(st, 32, True, "index"), e.fresh_int(st, 32, False, "hash")]
    def pre2(self, e, st, a):
        v = V(e, st, a[0])
        return [("the index lies within the source data, a block before its end", Z(e.s(st, a[1])) + BS <= v.n)]
    def modifies(self, e, st, a): return links_mod(e, st, a[0])
    def post(self, e, s0, s1, a, ret):
        v0, v1 = V(e, s0, a[0]), V(e, s1, a[0])
        return [("the block at that index is added, or nothing", v1.last == z3.If(Z(e.s(s0, a[1])) == (v0.last + 1) * BS, v0.last + 1, v0.last))] + v1.inv()

class AddThrough(Obj):
    match = NS + BH + "::AddAllBlocksThroughIndex"
    cost = 10
    def extra(self, e, st): return [e.fresh_int(st, 32, True, "end")]
    def pre2(self, e, st, a):
        v = V(e, st, a[0]); x = Z(e.s(st, a[1]))
        return [("the end index lies in the source data and after the last block added", z3.And(x >= 0, x <= v.n, x > v.last * BS))]
    def modifies(self, e, st, a): return links_mod(e, st, a[0])
    def post(self, e, s0, s1, a, ret):
        v0, v1 = V(e, s0, a[0]), V(e, s1, a[0]); x = Z(e.s(s0, a[1]))
        return [("blocks are only added, up to the index", z3.And(v1.last >= v0.last, z3.Or(v1.last == v0.last, v1.last * BS < x))),
                ("every whole block that starts before the index is added", z3.Or(v1.last + 1 >= v1.nb, (v1.last + 1) * BS >= x))] + v1.inv()
    def loop_candidates(self, e, L):
        a = e.entry_args[0]; out = []
        for k in range(len(V(e, e.entry, a).inv())):
            out.append(("!inv%d" % k, lambda st, k=k: V(e, st, a).inv()[k][1]))
        v0 = V(e, e.entry, a)
        x = Z(e.s(e.entry, e.entry_args[1]))
        out.append(("!last", lambda st: z3.And(V(e, st, a).last >= v0.last, z3.Or(V(e, st, a).last == v0.last, V(e, st, a).last * BS < x))))
        for r, o, v in L.ptrs:
            if v.reg is v0.src.reg:
                def g(st, r=r, o=o, v=v):
                    y = e.cellval(st, r, o)
                    if not isinstance(y, PtrV) or y.reg is not v.reg: raise Unsupported("kind")
                    return Z(y.off.z()) - Z(v0.src.off.z()) == (V(e, st, a).last + 1) * BS
                out.append(("!position is the next index", g))
        for r, o, v in L.ints:
            for c in (1, BS):
                out.append(("!counter is the next index", lambda st, r=r, o=o, c=c: Z(e.s(st, e.cellval(st, r, o))) == (V(e, st, a).last + 1) * c))
        return out

def head(e, st, h, v):
    """the first block of the chain of a hash value"""
    idx = e.binop(st, "and", 32, h, IntV(v.mask, 32, 0, (1 << 32) - 1), ())
    return v.ht[Z(idx.t)]
def match_at(v, ta, t, b): return eq16(v.sa, v.s0 + b * BS, ta, t)
class Finder(Obj):
    """functions that return -1 or an added block whose contents equal those at block_ptr"""
    hashed = False
    def setup(self, e, st, case):
        p = mk(e, st)
        b = getv(e, st, p, BH, "source_data_").reg if case == "target is the source" else e.buffer(st, "target", ro=True)
        t = e.fresh("t"); st.assume(t >= 0)
        return [p, self.key(e, st), PtrV(b, t, b.segs[0])]
    cases = ("other target", "target is the source")
    def key(self, e, st): return e.fresh_int(st, 32, True, "block")
    def pre2(self, e, st, a):
        v = V(e, st, a[0]); q = a[2]
        out = [("16 bytes at block_ptr", z3.And(Z(q.off.z()) >= 0, Z(q.off.z()) + BS <= Z(q.reg.size)) if rd(q) else False)]
        return out + self.pre3(e, st, a, v)
    def pre3(self, e, st, a, v): return [("-1 or an added block", z3.And(Z(e.s(st, a[1])) >= -1, Z(e.s(st, a[1])) <= v.last))]
    def first(self, e, s0, a, v): return Z(e.s(s0, a[1]))
    def post(self, e, s0, s1, a, ret):
        v = V(e, s0, a[0]); r = Z(e.s(s1, ret)); f = self.first(e, s0, a, v)
        ta, t = arr_of(e, s0, a[2]), ix(e, a[2])
        out = [("-1 or an added block", z3.And(r >= -1, r <= v.last)), ("its contents are equal", z3.Implies(r >= 0, match_at(v, ta, t, r)))]
        if f is not None:
            out += [("not before the block the search starts at", z3.Or(r == -1, z3.And(f >= 0, r >= f))), ("that block itself if its contents are equal", z3.Implies(z3.And(f >= 0, match_at(v, ta, t, f)), r == f))]
        return out
    def loop_candidates(self, e, L): return block_cands(e, L, e.entry_args[0], e.entry_args[2])
def block_cands(e, L, this, tp):
    out = []; v = V(e, e.entry, this); ta, t = arr_of(e, e.entry, tp), ix(e, tp)
    for r, o, c in L.ints:
        if c.w != 32 or r.kind != "stack": continue
        def x(st, r=r, o=o):
            y = e.cellval(st, r, o)
            if not isinstance(y, IntV): raise Unsupported("kind")
            return Z(e.s(st, y))
        x0 = Z(e.s(L.entry, c))
        out.append(("!block", lambda st, x=x: z3.And(x(st) >= -1, x(st) <= v.last)))
        out.append(("!match", lambda st, x=x: z3.Implies(x(st) >= 0, match_at(v, ta, t, x(st)))))
        out.append(("!not before", lambda st, x=x, x0=x0: z3.Or(x(st) == -1, z3.And(x0 >= 0, x(st) >= x0))))
        out.append(("!first", lambda st, x=x, x0=x0: z3.Or(x(st) == x0, z3.Not(match_at(v, ta, t, x0)))))
    return out
class Skip(Finder):
    match = NS + BH + "::SkipNonMatchingBlocks"
class First(Finder):
    match = NS + BH + "::FirstMatchingBlock"
    def key(self, e, st): return e.fresh_int(st, 32, False, "hash")
    def pre3(self, e, st, a, v): return []
    def first(self, e, s0, a, v): return head(e, s0, a[1], v)
class FirstInline(First):
    match = NS + BH + "::FirstMatchingBlockInline"
class Next(Finder):
    match = NS + BH + "::NextMatchingBlock"
    def pre3(self, e, st, a, v): return [("an added block", z3.And(Z(e.s(st, a[1])) >= 0, Z(e.s(st, a[1])) <= v.last))]
    def first(self, e, s0, a, v): return None
    def post(self, e, s0, s1, a, ret):
        r = Z(e.s(s1, ret))
        return Finder.post(self, e, s0, s1, a, ret) + [("after the given block", z3.Or(r == -1, r > Z(e.s(s0, a[1]))))]

MT = "BlockHash::Match"
def mview(e, st, p): return tuple(geti(e, st, p, MT, f) for f in ("size_", "source_offset_", "target_offset_"))
def mk_match(e, st, name="best"):
    r = e.object(st, name, NS + MT); return PtrV(r, 0)
class Replace(Contract):
    match = NS + MT + "::ReplaceIfBetterMatch"
    props = ("C13", "C19")
    def setup(self, e, st, case): return [mk_match(e, st), e.fresh_int(st, 64, False, "csize"), e.fresh_int(st, 32, True, "cso"), e.fresh_int(st, 32, True, "cto")]
    def modifies(self, e, st, a): return [cell(e, a[0], MT, f) for f in ("size_", "source_offset_", "target_offset_")]
    def post(self, e, s0, s1, a, ret):
        m0, m1 = mview(e, s0, a[0]), mview(e, s1, a[0]); c = (Z(e.u(s0, a[1])), Z(e.s(s0, a[2])), Z(e.s(s0, a[3])))
        return [("the longer of the two matches is kept", z3.And(z3.Or(z3.And(*[x == y for x, y in zip(m1, c)]), z3.And(*[x == y for x, y in zip(m1, m0)])), m1[0] >= m0[0], m1[0] >= c[0]))]

def good(e, v, m, ta, t0, cand, tsize):
    """m = (size, source offset, target offset) is a true, in-bounds, maximal match through the candidate block"""
    size, so, to = m; s = so - v.start
    b = s + (cand - to)
    qf = z3.And(size >= BS, to >= 0, to <= cand, s >= 0, to + size >= cand + BS, to + size <= tsize, s + size <= v.n, b % BS == 0, b >= 0, b <= v.last * BS,
                z3.Or(to == 0, s == 0, v.sa[v.s0 + s - 1] != ta[t0 + to - 1]), z3.Or(to + size == tsize, s + size == v.n, v.sa[v.s0 + s + size] != ta[t0 + to + size]))
    return qf
def good_bytes(e, v, m, ta, t0, guard):
    size, so, to = m
    j = z3.Int("j!eq")
    return z3.ForAll([j], z3.Implies(z3.And(guard, j >= t0 + to, j < t0 + to + size), ta[j] == v.sa[j + (v.s0 + so - v.start - t0 - to)]), patterns=[ta[j]])
class Best(Contract):
    match = NS + BH + "::FindBestMatch"
    props = ("C13", "C19")
    cost = 20
    cases = ("other target", "target is the source")
    def setup(self, e, st, case):
        p = mk(e, st)
        b = getv(e, st, p, BH, "source_data_").reg if case == "target is the source" else e.buffer(st, "target", ro=True)
        c, t = e.fresh("cand"), e.fresh("tstart"); st.assume(t >= 0, c >= t)
        return [p, e.fresh_int(st, 32, False, "hash"), PtrV(b, c, b.segs[0]), PtrV(b, t, b.segs[0]), e.fresh_int(st, 64, False, "tsize"), mk_match(e, st)]
    def pre(self, e, st, a):
        v = V(e, st, a[0]); n = Z(e.u(st, a[4])); out = v.inv()
        if not rd(a[3]) or not rd(a[2]): return out + [("a target", False)]
        if a[2].reg is not a[3].reg: return out + [("candidate in the target", False)]
        c, t = Z(a[2].off.z()), Z(a[3].off.z())
        return out + [("the target window is readable", z3.And(t >= 0, t + n <= Z(a[3].reg.size), n <= INT_MAX)), ("the candidate block lies in it", z3.And(c >= t, c + BS <= t + n))]
    def modifies(self, e, st, a): return [cell(e, a[5], MT, f) for f in ("size_", "source_offset_", "target_offset_")]
    def post(self, e, s0, s1, a, ret):
        v = V(e, s0, a[0]); m0, m1 = mview(e, s0, a[5]), mview(e, s1, a[5])
        ta, t0 = arr_of(e, s0, a[3]), ix(e, a[3]); cand = Z(a[2].off.z()) - Z(a[3].off.z()); n = Z(e.u(s0, a[4]))
        same = z3.And(*[x == y for x, y in zip(m0, m1)])
        return [("the best match is kept, or replaced by one at least as long that is in bounds, maximal and goes through the candidate block", z3.Or(same, z3.And(m1[0] >= m0[0], good(e, v, m1, ta, t0, cand, n)))),
                ("the bytes of the new match are equal", good_bytes(e, v, m1, ta, t0, z3.Not(same)))]
    def loop_candidates(self, e, L):
        a = e.entry_args; s0 = e.entry; v = V(e, s0, a[0]); m0 = mview(e, s0, a[5])
        ta, t0 = arr_of(e, s0, a[3]), ix(e, a[3]); cand = Z(a[2].off.z()) - Z(a[3].off.z()); n = Z(e.u(s0, a[4]))
        out = block_cands(e, L, a[0], a[2])
        # the best match lives in *best_match, or in local copies of it
        def mq(st): return mview(e, st, a[5])
        out.append(("!good or unchanged", lambda st: z3.Or(z3.And(*[x == y for x, y in zip(m0, mq(st))]), z3.And(mq(st)[0] >= m0[0], good(e, v, mq(st), ta, t0, cand, n)))))
        out.append(("!bytes equal", lambda st: good_bytes(e, v, mq(st), ta, t0, z3.Not(z3.And(*[x == y for x, y in zip(m0, mq(st))])))))
        return out

class Init(Contract):
    match = NS + BH + "::Init"
    props = ("C13", "C19")
    cases = ("populate", "empty")
    inline_contracts = ()
    cost = 5
    def setup(self, e, st, case):
        p = mk(e, st, ready=False); st.assume(geti(e, st, p, BH, "last_block_added_") == -1)
        return [p, BoolV(case == "populate")]
    def pre(self, e, st, a):
        v = V(e, st, a[0])
        return v.src_ok() + [("a new object", z3.And(v.last == -1, B(v.htr is None and v.nxr is None and v.ltr is None)))]
    def modifies(self, e, st, a): return None
    def result(self, e, st, a): return BoolV(z3.Bool("ret!%d" % next(e.fresh_n)))
    def post(self, e, s0, s1, a, ret):
        v0, v1 = V(e, s0, a[0]), V(e, s1, a[0])
        if not v1.ok: return [("the tables exist", False)]
        return [("succeeds", B(e.boolof(ret))), ("source data is kept", z3.And(B(v1.src.reg is v0.src.reg), v1.s0 == v0.s0, v1.n == v0.n, v1.start == v0.start)),
                ("all blocks or none are added", v1.last == z3.If(B(e.boolof(a[1])), v1.nb - 1, -1))] + v1.inv()
    def apply(self, e, st, a):
        with Spec(e): pre = self.pre(e, st, a)
        for n, g in pre: e.oblige(st, g, "pre", "Init requires " + n)
        with Spec(e):
            s0 = st.snap(); v = V(e, st, a[0])
            for f, sz in (("hash_table_", None), ("next_block_table_", v.nb), ("last_block_table_", v.nb)):
                q, _, _ = fld(e, a[0], BH, f)
                if sz is None: sz = e.fresh("mask") + 1; st.assume(sz >= 1, sz <= (1 << 32)); msk = sz - 1
                vec_set(e, st, q, sz, e.fresh_arr(f))
            q, _, _ = fld(e, a[0], BH, "hash_table_mask_"); e.store(st, q, ir.IntTy(32), IntV(msk, 32, 0, (1 << 32) - 1))
            q, _, _ = fld(e, a[0], BH, "last_block_added_"); e.store(st, q, ir.IntTy(32), e.fresh_int(st, 32, True, "last"))
            ret = BoolV(True)
            for n, g in self.post(e, s0, st, a, ret): st.assume(B(g))
        return ret

CONTRACTS = [Left(), Right(), BlockEq(), BlockWords(), BlockEqInline(), TableSize(), AddBlock(), AddOne(), AddThrough(), Skip(), First(), FirstInline(), Next(), Replace(), Best(), Init()]
