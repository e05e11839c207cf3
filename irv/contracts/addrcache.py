"""VCDiffAddressCache (property C09; used by C02, C03, C12, C14)."""
from .common import *
from .varint import val, cont, Parse

CLS = "VCDiffAddressCache"
def mk_cache(e, st, reg, off0, name="cache"):
    """an arbitrary cache satisfying the representation invariant, laid into reg at off0"""
    near = e.fresh(name + ".near"); same = e.fresh(name + ".same"); nxt = e.fresh(name + ".next")
    st.assume(near >= 0, near <= 255, same >= 0, same <= 255, near + same <= 254, nxt >= 0, z3.Or(nxt < near, z3.And(near == 0, nxt == 0)))
    setinit(e, reg, off0, CLS, "near_cache_size_", IntV(near, 8, 0, 255))
    setinit(e, reg, off0, CLS, "same_cache_size_", IntV(same, 8, 0, 255))
    setinit(e, reg, off0, CLS, "next_slot_", IntV(nxt, 32, 0, 254))
    o1, _ = e.di.field(NS + CLS, "near_addresses_"); o2, _ = e.di.field(NS + CLS, "same_addresses_")
    nb = vec_init(e, st, reg, off0 + o1, name + ".near_addresses", near)
    sb = vec_init(e, st, reg, off0 + o2, name + ".same_addresses", same * 256)
    for b in (nb, sb):
        i = z3.Int("i!q"); a = b.isegs[0]
        st.assume(z3.ForAll([i], z3.And(a[i] >= 0, a[i] < INT_MAX), patterns=[a[i]]))
    return nb, sb

class View:
    """abstract view of a cache: sizes, next slot and the two address arrays"""
    def __init__(self, e, st, p):
        self.near = geti(e, st, p, CLS, "near_cache_size_"); self.same = geti(e, st, p, CLS, "same_cache_size_")
        self.next = geti(e, st, p, CLS, "next_slot_")
        np_ = e.load(st, fld(e, p, CLS, "near_addresses_")[0], ir.PTR); sp = e.load(st, fld(e, p, CLS, "same_addresses_")[0], ir.PTR)
        ne = e.load(st, e_ptr(fld(e, p, CLS, "near_addresses_")[0], 8), ir.PTR); se = e.load(st, e_ptr(fld(e, p, CLS, "same_addresses_")[0], 8), ir.PTR)
        self.np, self.sp = np_, sp
        if isinstance(np_, OpaqueV): self.na = self.sa = None; return      # a cache whose contents do not matter
        self.na = arr_of(e, st, np_) if np_.reg else None
        self.sa = arr_of(e, st, sp) if sp.reg else None
        self.ncount = Z(ne.off.add(np_.off, -1).div(4).z()); self.scount = Z(se.off.add(sp.off, -1).div(4).z())
    def inv(self):
        return [("near cache sized", self.ncount == self.near), ("same cache sized", self.scount == self.same * 256),
                ("sizes leave room for the modes", z3.And(self.near >= 0, self.same >= 0, self.near + self.same <= 254)),
                ("next slot in range", z3.Or(z3.And(self.next >= 0, self.next < self.near), z3.And(self.near == 0, self.next == 0)))]
    def decode(self, mode, enc, here):
        """RFC 3284 section 5.3 address decoding"""
        return z3.If(mode == 0, enc, z3.If(mode == 1, here - enc,
               z3.If(mode < 2 + self.near, self.na[mode - 2] + enc, self.sa[(mode - 2 - self.near) * 256 + enc])))
    def updated(self, addr, v1, st):
        """v1 is this view after RFC cache_update(addr)"""
        m = IMOD(addr, self.same * 256); nx = IMOD(self.next + 1, self.near)
        st.assume(*divmod_facts(addr, self.same * 256)); st.assume(*divmod_facts(self.next + 1, self.near))
        return [("sizes unchanged", z3.And(v1.near == self.near, v1.same == self.same)),
                ("near cache records the address in the next slot", z3.Implies(self.near > 0, z3.And(eqarr(v1.na, z3.Store(self.na, self.next, addr), self.near), v1.next == nx))),
                ("near cache untouched when absent", z3.Implies(self.near == 0, v1.next == self.next)),
                ("same cache records the address in its bucket", z3.Implies(self.same > 0, eqarr(v1.sa, z3.Store(self.sa, m, addr), self.same * 256)))]
    def equal(self, v1):
        return z3.And(v1.near == self.near, v1.same == self.same, v1.next == self.next, eqarr(v1.na, self.na, self.near), eqarr(v1.sa, self.sa, self.same * 256))

def eqarr(a, b, n):
    if a.eq(b): return z3.BoolVal(True)
    return a == b

class CacheContract(Contract):
    def obj(self, e, st):
        o = e.object(st, "cache", NS + CLS)
        mk_cache(e, st, o, 0)
        return PtrV(o, 0)
    def mods(self, e, st, p):
        v = View(e, st, p)
        return [cell(e, p, CLS, "next_slot_"), (v.np.reg, ("seg", 0)), (v.sp.reg, ("seg", 0))]
    def nonneg(self, e, st, p):
        """every cached address is a non-negative int32 (needed so that near addressing cannot overflow)"""
        v = View(e, st, p)
        i = z3.Int("i!q"); j = z3.Int("j!q")
        return [("cached near addresses are valid", z3.ForAll([i], z3.And(v.na[i] >= 0, v.na[i] < INT_MAX), patterns=[v.na[i]])),
                ("cached same addresses are valid", z3.ForAll([j], z3.And(v.sa[j] >= 0, v.sa[j] < INT_MAX), patterns=[v.sa[j]]))]

class UpdateCache(CacheContract):
    match = NS + CLS + "::UpdateCache"
    props = ("C09", "C03", "C02")
    def setup(self, e, st, case):
        return [self.obj(e, st), e.fresh_int(st, 32, True, "address")]
    def pre(self, e, st, a):
        return View(e, st, a[0]).inv() + [("address >= 0", z3.And(Z(e.s(st, a[1])) >= 0, Z(e.s(st, a[1])) < INT_MAX))] + self.nonneg(e, st, a[0])
    def modifies(self, e, st, a): return self.mods(e, st, a[0])
    def post(self, e, s0, s1, a, ret):
        v0, v1 = View(e, s0, a[0]), View(e, s1, a[0])
        return v0.updated(Z(e.s(s0, a[1])), v1, s1) + v1.inv() + self.nonneg(e, s1, a[0])

class EncodeAddress(CacheContract):
    match = NS + CLS + "::EncodeAddress"
    props = ("C09", "C14", "C01", "C19")
    ret_signed = False
    def setup(self, e, st, case):
        out = Region("encoded_addr", 4, "sym")
        out.icells[0] = (4, e.fresh_int(st, 32, True, "enc0"))
        return [self.obj(e, st), e.fresh_int(st, 32, True, "address"), e.fresh_int(st, 32, True, "here"), PtrV(out, 0)]
    def pre(self, e, st, a):
        ad, he = Z(e.s(st, a[1])), Z(e.s(st, a[2]))
        return View(e, st, a[0]).inv() + [("0 <= address < here", z3.And(ad >= 0, ad < he))] + self.nonneg(e, st, a[0])
    def modifies(self, e, st, a): return self.mods(e, st, a[0]) + [(a[3].reg, ("cell", a[3].off.c, 4))]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = View(e, s0, a[0]), View(e, s1, a[0])
        ad, he = Z(e.s(s0, a[1])), Z(e.s(s0, a[2])); m = Z(e.u(s1, ret)); enc = Z(e.s(s1, e.load(s1, a[3], ir.IntTy(32))))
        return [("mode is defined for these cache sizes", z3.And(m >= 0, m < 2 + v0.near + v0.same)),
                ("encoded value is non-negative", enc >= 0),
                ("same-cache encoding fits one byte", z3.Implies(m >= 2 + v0.near, enc < 256)),
                ("the mode and value denote exactly the address", v0.decode(m, enc, he) == ad)] + v0.updated(ad, v1, s1) + v1.inv() + self.nonneg(e, s1, a[0])
    def loop_candidates(self, e, L):
        """for any (mode byte, encoded value) pair of locals: the pair denotes the address"""
        out = []
        args, st0 = e.entry_args, e.entry
        with Spec(e):
            v0 = View(e, st0, args[0])
        ad, he = Z(args[1].t), Z(args[2].t)
        for (r, o, v) in L.ints:
            def x(st, r=r, o=o):
                y = e.cellval(st, r, o)
                if not isinstance(y, IntV): raise Unsupported("int")
                return Z(e.u(st, y)) if y.w == 8 else Z(e.s(st, y))
            if v.w == 8: out.append(("!idx<=near", lambda st, x=x: x(st) <= v0.near))
            out.append(("!mode in range", lambda st, x=x: z3.And(x(st) >= 0, x(st) < 2 + v0.near)))
            out.append(("!nonneg", lambda st, x=x: x(st) >= 0))
            for (r2, o2, v2) in L.ints:
                if r2 is r and o2 == o: continue
                def y(st, r2=r2, o2=o2):
                    z = e.cellval(st, r2, o2)
                    if not isinstance(z, IntV): raise Unsupported("int")
                    return Z(e.s(st, z)) if z.w == 32 else Z(e.u(st, z))
                out.append(("!denotes", lambda st, x=x, y=y: z3.And(x(st) >= 0, x(st) < 2 + v0.near, v0.decode(x(st), y(st), he) == ad)))
        return out

class DecodeAddress(CacheContract):
    match = NS + CLS + "::DecodeAddress"
    props = ("C09", "C02", "C03", "C04", "C19")
    def setup(self, e, st, case):
        buf = e.buffer(st, "addr_stream", ro=True)
        P = e.fresh("P"); L = e.fresh("L")
        st.assume(P >= 0, P <= buf.size, L >= 0, L <= buf.size)
        pp = Region("address_stream", 8, "sym"); pp.icells[0] = (8, PtrV(buf, P, buf.segs[0]))
        return [self.obj(e, st), e.fresh_int(st, 32, True, "here"), e.fresh_int(st, 8, False, "mode"), PtrV(pp, 0), PtrV(buf, L, buf.segs[0])]
    def pre(self, e, st, a):
        v = View(e, st, a[0]); p = e.load(st, a[3], ir.PTR)
        return v.inv() + [("here >= 0", Z(e.s(st, a[1])) >= 0), ("mode is defined for these cache sizes", Z(e.u(st, a[2])) < 2 + v.near + v.same),
                          ("stream end in the same buffer", p.reg is a[4].reg)] + self.nonneg(e, st, a[0])
    def modifies(self, e, st, a): return self.mods(e, st, a[0]) + [(a[3].reg, ("cell", a[3].off.c, 8))]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = View(e, s0, a[0]), View(e, s1, a[0])
        he, m, r = Z(e.s(s0, a[1])), Z(e.u(s0, a[2])), Z(e.s(s1, ret))
        p0, p1 = e.load(s0, a[3], ir.PTR), e.load(s1, a[3], ir.PTR)
        if p1.reg is not p0.reg: return [("position stays in the stream", False)]
        arr = arr_of(e, s0, p0); P, N, L = Z(p0.off.z()), Z(p1.off.z()), Z(a[4].off.z())
        same = m >= 2 + v0.near
        v = val(arr, P, N)
        ok = [("%s" % n, z3.Implies(r >= 0, g)) for n, g in v0.updated(r, v1, s1)]
        return [("result is an address in [0, here), RESULT_ERROR or RESULT_END_OF_DATA", z3.And(r >= -2, z3.Implies(r >= 0, r < he))),
                ("failure leaves the position unchanged", z3.Implies(r < 0, N == P)),
                ("failure leaves the cache unchanged", z3.Implies(r < 0, v0.equal(v1))),
                ("success consumes bytes before the end only", z3.Implies(r >= 0, z3.And(N > P, N <= L))),
                ("same mode consumes one byte and denotes the cached address", z3.Implies(z3.And(r >= 0, same), z3.And(N == P + 1, r == v0.decode(m, arr[P], he)))),
                ("other modes consume one varint and denote the RFC address", z3.Implies(z3.And(r >= 0, z3.Not(same)),
                    z3.And(arr[N - 1] < 128, cont(arr, P, N - 1), r == v0.decode(m, v, he)))),
                ("end of data only if the stream has no complete value", z3.Implies(r == -2, z3.Or(P >= L, z3.And(z3.Not(same), cont(arr, P, L))))),
                ("in-range same-mode address is never refused", z3.Implies(z3.And(r == -1, same), z3.Not(z3.And(v0.decode(m, arr[P], he) >= 0, v0.decode(m, arr[P], he) < he)))),
                ] + ok + v1.inv() + self.nonneg(e, s1, a[0])
    def apply(self, e, st, a):
        ret = Contract.apply(self, e, st, a)
        st.ghost["copy_address"] = Z(e.s(st, ret))
        return ret

class Init(CacheContract):
    match = NS + CLS + "::Init()"
    props = ("C09", "C03", "C19")
    cases = ("fresh object", "reinitialised object")
    def setup(self, e, st, case):
        o = e.object(st, "cache", NS + CLS)
        if case == "fresh object":
            near = e.fresh_int(st, 8, False, "near"); same = e.fresh_int(st, 8, False, "same")
            setinit(e, o, 0, CLS, "near_cache_size_", near); setinit(e, o, 0, CLS, "same_cache_size_", same)
            setinit(e, o, 0, CLS, "next_slot_", IntV(0, 32))
            for f in ("near_addresses_", "same_addresses_"):
                off, _ = e.di.field(NS + CLS, f)
                for k in (0, 8, 16): o.icells[off + k] = (8, NULLP)
        else:
            mk_cache(e, st, o, 0)
        return [PtrV(o, 0)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        n, s = geti(e, s1, a[0], CLS, "near_cache_size_"), geti(e, s1, a[0], CLS, "same_cache_size_")
        n0, s0_ = geti(e, s0, a[0], CLS, "near_cache_size_"), geti(e, s0, a[0], CLS, "same_cache_size_")
        nx = geti(e, s1, a[0], CLS, "next_slot_")
        out = [("sizes unchanged", z3.And(n == n0, s == s0_)), ("succeeds exactly when the modes fit in a byte", B(ret.b) == (n + s <= 254))]
        ok = B(ret.b)
        i = e.fresh("i")
        for f, cnt in (("near_addresses_", n), ("same_addresses_", s * 256)):
            q = fld(e, a[0], CLS, f)[0]
            b = e.load(s1, q, ir.PTR); en = e.load(s1, e_ptr(q, 8), ir.PTR)
            if b.reg is None:
                out.append((f + " may be empty only when unused", z3.Implies(ok, cnt == 0)))
                continue
            out.append((f + " has its full size", z3.Implies(z3.And(ok, cnt > 0), Z(en.off.add(b.off, -1).div(4).z()) == cnt)))
            out.append((f + " is all zero", z3.Implies(z3.And(ok, cnt > 0, i >= 0, i < cnt), arr_of(e, s1, b)[i] == 0)))
        out.append(("next slot restarts at 0", z3.Implies(ok, nx == 0)))
        return out
    def apply(self, e, st, a):
        with Spec(e):
            n, s = geti(e, st, a[0], CLS, "near_cache_size_"), geti(e, st, a[0], CLS, "same_cache_size_")
            if not e.quick(st, n + s <= 254): raise Unsupported("Init applied with sizes that may be refused")
            for f, cnt in (("near_addresses_", n), ("same_addresses_", s * 256)):
                q = fld(e, a[0], CLS, f)[0]; vec_kill(e, st, q); vec_set(e, st, q, cnt, z3.K(z3.IntSort(), z3.IntVal(0)))
            e.store(st, fld(e, a[0], CLS, "next_slot_")[0], ir.IntTy(32), IntV(0, 32))
        return BoolV(True)

CONTRACTS = [UpdateCache(), EncodeAddress(), DecodeAddress(), Init()]
