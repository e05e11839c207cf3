"""Trusted contracts of functions outside /repo (libstdc++, libc, LLVM intrinsics).

Each is listed in the evidence as an assumption whenever a proof used it.
"""
import re
import z3
from .engine import *
from . import ir

I8, I32, I64 = ir.IntTy(8), ir.IntTy(32), ir.IntTy(64)
MODELS = []
def model(pat):
    def d(fn):
        MODELS.append((re.compile(pat), fn)); return fn
    return d

STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"

# ---------------------------------------------------------------- iostream
# a stream is either a diagnostic sink (what is written to it does not matter) or a local std::ostringstream, whose contents
# are a ghost string: operator<< appends the decimal form of an unsigned integer (declen, decch) or the characters given
declen = z3.Function("decimal_length", z3.IntSort(), z3.IntSort())
decch = z3.Function("decimal_digit", z3.IntSort(), z3.IntSort(), z3.IntSort())
def oss_key(p): return ("oss", p.reg.id, p.off.z()) if isinstance(p, PtrV) and p.reg is not None and p.off.const() else None
def is_oss(st, p): return oss_key(p) is not None and oss_key(p) in st.ghost
def oss_append(e, st, p, n, ch):
    """n characters ch(k)"""
    l, arr, depth = st.ghost[oss_key(p)]
    if depth != len(st.loops): raise Unsupported("stream written in a loop")
    if isc(n) and n <= 16:
        for k in range(n): arr = z3.Store(arr, Z(tadd(l, k)), Z(ch(k)))
    else:
        na = e.fresh_arr("oss"); i = z3.Int("i!q")
        st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= l, i < l + n), ch(i - l), z3.Select(arr, i)), patterns=[z3.Select(na, i)])); arr = na
    st.ghost[oss_key(p)] = (tadd(l, n), arr, depth)
def oss_decimal(e, st, p, v):
    st.assume(declen(Z(v)) >= 1, declen(Z(v)) <= 20); oss_append(e, st, p, declen(Z(v)), lambda k: decch(Z(v), Z(k)))
OSS = r"std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> ?>::"
@model(OSS + r"basic_ostringstream\(\)")
def _ossc(e, st, a, ins):
    st.ghost[oss_key(a[0])] = (0, e.fresh_arr("oss"), len(st.loops)); return None
@model(OSS + r"~basic_ostringstream\(\)")
def _ossd(e, st, a, ins):
    st.ghost.pop(oss_key(a[0]), None); return None
@model(OSS + r"str\(\) const")
def _ossstr(e, st, a, ins):
    if not is_oss(st, a[1]): raise Unsupported("str() of an unknown stream")
    l, arr, _ = st.ghost[oss_key(a[1])]
    b = Region("str%d.buf" % next(e.fresh_n), tadd(l, 1), "heap"); b.segs.append(Seg(0, 1, tadd(l, 1))); b.isegs[0] = arr
    s_set(e, st, a[0], PtrV(b, 0), IntV(l, 64, 0, MAXSTR)); return None
@model(r".*(std::basic_ostream<char, std::char_traits<char> ?>|std::ostream)::operator<<\((unsigned long|unsigned int|unsigned short|unsigned long long|long|int|short|long long)\)")
def _os0(e, st, a, ins):
    if is_oss(st, a[0]):
        v = e.u(st, a[1])
        if not e.quick(st, B(tlt(v, 1 << (a[1].w - 1)))) and "unsigned" not in e.mod.dem(ins.a[0][1]): raise Unsupported("negative number in a stream")
        oss_decimal(e, st, a[0], v)
    return a[0]
@model(r".*(std::basic_ostream<char, std::char_traits<char> ?>|std::ostream)::operator<<\(")
def _os1(e, st, a, ins):
    if is_oss(st, a[0]): raise Unsupported("stream insertion " + e.mod.dem(ins.a[0][1]))
    return a[0]
@model(r".*std::operator<< ?<.*basic_ostream")
def _os2(e, st, a, ins):
    if is_oss(st, a[0]):
        d = e.mod.dem(ins.a[0][1])
        if d.endswith("char const*)"):
            n = _strlen(e, st, [a[1]], ins).t; arr = e.seg_arr(st, a[1].reg, seg_of(e, a[1])); o = idx_of(a[1], seg_of(e, a[1]))
            oss_append(e, st, a[0], n, lambda k: z3.Select(arr, Z(tadd(o, k))))
        elif d.endswith(", char)"): oss_append(e, st, a[0], 1, lambda k: e.u(st, a[1]))
        else: raise Unsupported("stream insertion " + d)
    return a[0]
@model(r"std::basic_ostream<char, std::char_traits<char> ?>::flush\(\)")
def _os3(e, st, a, ins): return a[0]
@model(r"std::ostream::")
def _os4(e, st, a, ins):
    if is_oss(st, a[0]): raise Unsupported("stream operation")
    return a[0]
@model(r"std::__cxx11::to_string\((unsigned long|unsigned int|unsigned long long)\)|std::to_string\((unsigned long|unsigned int|unsigned long long)\)")
def _tostr(e, st, a, ins):
    v = Z(e.u(st, a[1])); st.assume(declen(v) >= 1, declen(v) <= 20); n = declen(v); arr = e.fresh_arr("dec"); i = z3.Int("i!q")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), arr[i] == decch(v, i)), patterns=[arr[i]]))
    b = Region("str%d.buf" % next(e.fresh_n), n + 1, "heap"); b.segs.append(Seg(0, 1, n + 1)); b.isegs[0] = arr
    s_set(e, st, a[0], PtrV(b, 0), IntV(n, 64, 0, MAXSTR)); return None
# ---------------------------------------------------------------- snprintf
@model(r"^snprintf$")
def _snprintf(e, st, a, ins):
    fp = a[2]; n = _strlen(e, st, [fp], ins).t; s = seg_of(e, fp); d = fp.reg.isegs.get(("tab", s.start), fp.reg.isegs.get(s.start)); o = fp.off.c - s.start
    fmt = "".join(chr(d[o + k] % 256) for k in range(n)); out = []; args = list(a[3:]); k = 0
    while k < len(fmt):
        if fmt[k] != "%": out.append(ord(fmt[k])); k += 1; continue
        m = re.match(r"%0(\d)([xX])", fmt[k:])
        if not m or not args: raise Unsupported("snprintf format " + fmt)
        w = int(m.group(1)); v = e.u(st, args.pop(0))
        if not e.quick(st, B(tlt(v, 16 ** w))): raise Unsupported("snprintf field wider than its minimum")
        for q in range(w - 1, -1, -1):
            x = tmod(tdiv(v, 16 ** q), 16)
            al = 87 if m.group(2) == "x" else 55
            if isc(x): out.append(48 + x if x < 10 else al + x)
            else:
                h = e.fresh("hex"); st.assume(h == z3.If(x < 10, 48 + x, al + x)); out.append(h)
        k += m.end()
    size = e.u(st, a[1])
    if not isc(size): raise Unsupported("snprintf size")
    tot = len(out)
    if size > 0:
        w = min(tot, size - 1); check_range(e, st, a[0], w + 1, "write (snprintf)")
        sg = seg_of(e, a[0]); i = idx_of(a[0], sg); arr = e.seg_arr(st, a[0].reg, sg)
        for q in range(w): arr = z3.Store(arr, Z(tadd(i, q)), Z(out[q]))
        arr = z3.Store(arr, Z(tadd(i, w)), z3.IntVal(0)); e.set_seg(st, a[0].reg, sg.start, arr)
        if all(not isc(x) or x != 0 for x in out): st.ghost[("cstr", a[0].reg.id, a[0].off.z())] = (w, arr)
    return IntV(tot, 32)

# ---------------------------------------------------------------- abort
@model(r"^exit$|^abort$|^llvm\.trap$")
def _exit(e, st, a, ins):
    m = getattr(e.cur, "may_abort", False)
    if callable(m):
        o, e.spec = e.spec, True
        try: g = m(e, st)
        finally: e.spec = o
        e.oblige(st, g, "abort", "process exit only where the contract allows it")
    elif not m:
        e.oblige(st, False, "abort", "process abort (internal error) is unreachable")
    raise PathEnd()
@model(r"std::__throw_")
def _throw(e, st, a, ins):
    raise PathEnd()     # allocation failure / length_error: listed as an assumption

# ---------------------------------------------------------------- new/delete
@model(r"operator new(\[\])?\(unsigned long\)")
def _new(e, st, a, ins):
    n = e.u(st, a[0])
    r = Region("new%d" % next(e.fresh_n), n, "heap", uninit=True)
    return PtrV(r, 0)
@model(r"operator delete(\[\])?\(void\*(, unsigned long)?\)")
def _del(e, st, a, ins):
    p = a[0]
    if isinstance(p, PtrV) and p.reg is not None:
        e.oblige(st, p.reg.id not in st.dead, "mem", "no double free of " + p.reg.name)
        e.oblige(st, teq(p.off.z(), 0), "mem", "delete of an allocated pointer")
        e.oblige(st, p.reg.kind not in ("global", "stack"), "mem", "delete of heap memory only, not of " + p.reg.name)
        st.dead = st.dead | {p.reg.id}
    return None

# ---------------------------------------------------------------- memory
def check_range(e, st, p, n, what, ro=False):
    """[p, p+n) lies within its object; n term"""
    if isinstance(p, PtrV) and p.reg is None:
        e.oblige(st, teq(n, 0), "mem", what + " through null pointer"); return
    if not isinstance(p, PtrV): raise Unsupported("range on %r" % (p,))
    if p.reg.id in st.dead:
        e.oblige(st, teq(n, 0), "mem", what + " after free of " + p.reg.name); return
    o = p.off.z()
    if p.seg is not None and len(p.reg.segs) > 1:
        s = p.seg
        e.oblige(st, tand(tle(s.start, o), tle(tadd(o, n), tadd(s.start, tmul(s.count, s.es)))), "mem", what + " within " + p.reg.name)
    else:
        e.oblige(st, tand(tle(0, o), tle(tadd(o, n), p.reg.size)), "mem", what + " within " + p.reg.name)
    if ro is False and what.startswith("write") and p.reg.ro:
        e.oblige(st, teq(n, 0), "frame", "write to read-only " + p.reg.name)

def seg_of(e, p):
    if p.seg is not None: return p.seg
    if p.off.const():
        s = p.reg.seg_at(p.off.c)
        if s is not None: return s
    if len(p.reg.segs) == 1: return p.reg.segs[0]
    if not p.reg.segs and (p.reg.kind == "heap" or p.reg.uninit):
        s = Seg(0, 1, p.reg.size); p.reg.segs.append(s); return s
    raise Unsupported("byte range in structured object " + p.reg.name)

def idx_of(p, s):
    r = p.off.add(-s.start).div(s.es)
    if r is None: raise Unsupported("unaligned range")
    return r.z()

def copy_into(e, st, dst, src, n):
    """element-wise copy of n bytes between array segments (ranges already checked)"""
    if isc(n) and n == 0: return
    ds, ss = seg_of(e, dst), seg_of(e, src)
    if ds.es != ss.es: raise Unsupported("copy between different element sizes")
    es = ds.es
    if es != 1:
        l = Lin.of(n).div(es)
        if l is None: raise Unsupported("copy size not multiple of element")
        n = l.z()
    di, si = idx_of(dst, ds), idx_of(src, ss)
    da, sa = e.seg_arr(st, dst.reg, ds), e.seg_arr(st, src.reg, ss)
    if isc(n) and n <= 64:
        na = da
        for k in range(n):
            x = z3.Select(sa, Z(tadd(si, k)))
            st.assume(x >= e.elem_range(ss)[0], x <= e.elem_range(ss)[1])
            na = z3.Store(na, Z(tadd(di, k)), x)
    else:
        na = e.fresh_arr("cp")
        i = z3.Int("i!q")
        st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= di, i < di + n), z3.Select(sa, i - di + si), z3.Select(da, i)), patterns=[z3.Select(na, i)]))
        e.note_copy(st, na, da, di, n, sa, si)
    e.set_seg(st, dst.reg, ds.start, na)

def fill_into(e, st, dst, n, val):
    if isc(n) and n == 0: return
    ds = seg_of(e, dst)
    if ds.es != 1:
        l = Lin.of(n).div(ds.es)
        if l is None: raise Unsupported("fill size")
        n = l.z()
        if not (isc(val) and val in (0, 255)): raise Unsupported("fill value")
        val = 0 if val == 0 else (-1 if ds.signed else (1 << (8 * ds.es)) - 1)
    di = idx_of(dst, ds)
    da = e.seg_arr(st, dst.reg, ds)
    if isc(n) and n <= 16:
        na = da
        for k in range(n): na = z3.Store(na, Z(tadd(di, k)), Z(val))
    else:
        na = e.fresh_arr("fill")
        i = z3.Int("i!q")
        st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= di, i < di + n), Z(val), z3.Select(da, i)), patterns=[z3.Select(na, i)]))
    e.set_seg(st, dst.reg, ds.start, na)

def struct_copy(e, st, dst, src, n):
    """copy of scalar cells between structured objects of constant size"""
    r = src.reg
    cells = dict(r.icells); cells.update(st.rc(r).cells)
    so, do = src.off.c, dst.off.c
    rc = st.wrc(dst.reg)
    for o, (sz, v) in list(cells.items()):
        if so <= o and o + sz <= so + n:
            rc.cells[o - so + do] = (sz, v)
            e.note_write(st, dst.reg, ("cell", o - so + do, sz))
    for s in r.segs:
        if so <= s.start and s.start + s.es * s.count <= so + n:
            d = [x for x in dst.reg.segs if x.start == s.start - so + do]
            if not d:
                d = [Seg(s.start - so + do, s.es, s.count, s.signed, s.ptr)]; dst.reg.segs.append(d[0])
            if s.ptr: continue
            rc.segs[d[0].start] = e.seg_arr(st, r, s)
            e.note_write(st, dst.reg, ("seg", d[0].start))

def bytes_tile(p, n):
    """the n bytes at p are exactly the byte arrays of the whole object"""
    return p.off.c == 0 and not p.reg.icells and all(s.es == 1 and not s.ptr and isc(s.count) for s in p.reg.segs) and sum(s.count for s in p.reg.segs) == n and not (p.reg.digrid or {})
@model(r"^llvm\.memcpy\.|^llvm\.memmove\.|^memcpy$|^memmove$")
def _memcpy(e, st, a, ins):
    dst, src = a[0], a[1]; n = e.u(st, a[2])
    name = ins.a[0][1]
    check_range(e, st, src, n, "read (memcpy source)")
    check_range(e, st, dst, n, "write (memcpy destination)")
    if isinstance(dst, PtrV) and isinstance(src, PtrV) and dst.reg is not None and src.reg is not None:
        if "memcpy" in name and dst.reg is src.reg:
            d, s = dst.off.z(), src.off.z()
            e.oblige(st, tor(tle(tadd(d, n), s), tle(tadd(s, n), d), teq(n, 0)), "mem", "memcpy ranges do not overlap")
        def fits(p):
            g = p.reg.seg_at(p.off.c)
            return g is not None and (not isc(g.count) or p.off.c + n <= g.start + g.es * g.count)
        structured = isc(n) and dst.off.const() and src.off.const() and (src.reg.digrid is not None or dst.reg.digrid is not None or len(src.reg.segs) != 1 or len(dst.reg.segs) != 1) and not (fits(src) and fits(dst))
        if structured and len(src.reg.segs) == 1 and src.reg.segs[0].es == 1 and src.reg.digrid is None and bytes_tile(dst, n):
            # a block of bytes laid over an object made of byte arrays
            for s in dst.reg.segs: copy_into(e, st, PtrV(dst.reg, s.start, s), PtrV(src.reg, src.off.add(s.start), src.reg.segs[0]), s.count)
        elif structured: struct_copy(e, st, dst, src, n)
        else: copy_into(e, st, dst, src, n)
    return dst

@model(r"^llvm\.memset\.|^memset$")
def _memset(e, st, a, ins):
    dst = a[0]; v = e.u(st, a[1]); n = e.u(st, a[2])
    check_range(e, st, dst, n, "write (memset)")
    if isinstance(dst, PtrV) and dst.reg is not None:
        r = dst.reg
        if isc(n) and dst.off.const() and isc(v) and v == 0 and not (r.seg_at(dst.off.c) and n <= r.seg_at(dst.off.c).es * r.seg_at(dst.off.c).count):
            # zeroing a structured object
            rc = st.wrc(r)
            g = r.digrid or {}
            r.zeroed = True
            for o, k in g.items():
                if dst.off.c <= o < dst.off.c + n:
                    sz = 8 if k[0] == "ptr" else k[1]
                    rc.cells[o] = (sz, NULLP if k[0] == "ptr" else IntV(0, 8 * sz))
            for s in r.segs:
                if dst.off.c <= s.start < dst.off.c + n and (not s.ptr or s.fam is not None):
                    rc.segs[s.start] = z3.K(z3.IntSort(), z3.IntVal(0))
                elif s.ptr and dst.off.c <= s.start < dst.off.c + n:
                    for k in range(s.count): rc.cells[s.start + 8 * k] = (8, NULLP)
            e.note_write(st, r, ("all",))
        else:
            fill_into(e, st, dst, n, v)
    return dst

# ---------------------------------------------------------------- standard algorithms over pointer ranges
def prange(e, st, a, b):
    """bytes between two pointers into one object"""
    if not (isinstance(a, PtrV) and isinstance(b, PtrV) and a.reg is b.reg and a.reg is not None): raise Unsupported("range between different objects")
    n = tsub(b.off.z(), a.off.z()); e.oblige(st, tle(0, n), "mem", "the range is well-formed"); return n
ELEM = {"char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4}
def fill_elems(e, st, dst, n, v, es):
    """n bytes of elements of size es, each v"""
    check_range(e, st, dst, n, "write (fill)")
    if not dst.reg.segs and (dst.reg.kind == "heap" or dst.reg.uninit):
        # first use of fresh memory: the elements are those a plain store would see
        k = Lin.of(dst.reg.size).div(es)
        if k is None: raise Unsupported("fill of fresh memory")
        dst.reg.segs.append(Seg(0, es, k.z(), False))
    ds = seg_of(e, dst); l = Lin.of(n).div(es)
    if ds.es != es or ds.ptr or l is None: raise Unsupported("fill of other elements")
    val = Z(e.s(st, v) if ds.signed else e.u(st, v)); k = l.z(); di = idx_of(dst, ds); da = e.seg_arr(st, dst.reg, ds); na = e.fresh_arr("fill"); i = z3.Int("i!q")
    st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= di, i < di + k), val, z3.Select(da, i)), patterns=[z3.Select(na, i)]))
    e.set_seg(st, dst.reg, ds.start, na)
@model(r"^void std::fill<(char|unsigned char|short|unsigned short|int|unsigned int)\*, ")
def _fill(e, st, a, ins):
    es = ELEM[re.match(r"^void std::fill<([a-z ]+)\*", e.mod.dem(ins.a[0][1])).group(1)]
    n = prange(e, st, a[0], a[1])
    if isinstance(a[0], PtrV): fill_elems(e, st, a[0], n, e.load(st, a[2], ir.IntTy(8 * es)), es)
    return None
@model(r"^std::copy<(const char|char const|char)\*, char\*>|^char\* std::copy<(const char|char const|char)\*, char\*>")
def _scopy(e, st, a, ins):
    n = prange(e, st, a[0], a[1]); check_range(e, st, a[0], n, "read (copy source)"); check_range(e, st, a[2], n, "write (copy destination)"); copy_into(e, st, a[2], a[0], n); return e.gep_add(st, a[2], n) if isc(n) else PtrV(a[2].reg, a[2].off.add(Lin.of(n)), a[2].seg)
@model(r"^bool std::equal<(const char|char const|char)\*, (const char|char const|char)\*>\(char( const)?\*, char( const)?\*, char( const)?\*\)")
def _sequal(e, st, a, ins):
    n = prange(e, st, a[0], a[1]); r = _memcmp(e, st, [a[0], a[2], IntV(n, 64, 0, (1 << 62))], ins); return BoolV(r.t == 0)
@model(r"^memcmp$")
def _memcmp(e, st, a, ins):
    p, q = a[0], a[1]; n = e.u(st, a[2])
    check_range(e, st, p, n, "read (memcmp)"); check_range(e, st, q, n, "read (memcmp)")
    r = e.fresh_int(st, 32, True, "memcmp")
    i = z3.Int("i!q")
    if p.reg is None or q.reg is None: return IntV(0, 32)
    ps, qs = seg_of(e, p), seg_of(e, q)
    pa, qa = e.seg_arr(st, p.reg, ps), e.seg_arr(st, q.reg, qs)
    pi, qi = Z(idx_of(p, ps)), Z(idx_of(q, qs))
    if isc(n) and n <= 64:
        st.assume((r.t == 0) == z3.And(*[z3.Select(pa, pi + k) == z3.Select(qa, qi + k) for k in range(n)]))
    else:
        st.assume(z3.Implies(r.t == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(pa, pi + i) == z3.Select(qa, qi + i)), patterns=[z3.Select(pa, pi + i)])))
        w = e.fresh("w")
        st.assume(z3.Implies(r.t != 0, z3.And(w >= 0, w < n, z3.Select(pa, pi + w) != z3.Select(qa, qi + w))))
    return r

@model(r"^strlen$")
def _strlen(e, st, a, ins):
    p = a[0]
    r = p.reg
    s = seg_of(e, p)
    d = r.isegs.get(s.start)
    d = r.isegs.get(("tab", s.start), d)
    if isinstance(d, dict) and p.off.const():
        i = p.off.c - s.start; k = i
        while d[k] != 0: k += 1
        return IntV(k - i, 64)
    g = st.ghost.get(("cstr", r.id, p.off.z())) if p.off.const() else None
    if g is not None and g[1] is e.seg_arr(st, r, s): return IntV(g[0], 64)
    raise Unsupported("strlen")

@model(r"^llvm\.umul\.with\.overflow\.i64")
def _umul(e, st, a, ins):
    x, y = e.u(st, a[0]), e.u(st, a[1])
    t = tmul(x, y)
    if isc(t): return AggV([IntV(t % (1 << 64), 64), BoolV(t >= 1 << 64)])
    if e.quick(st, t < (1 << 64)): return AggV([IntV(t, 64, 0, (1 << 64) - 1), BoolV(False)])
    v = e.fresh_int(st, 64, False, "umul"); b = z3.Bool("ov!%d" % next(e.fresh_n))
    st.assume(b == (t >= (1 << 64)), z3.Implies(z3.Not(b), v.t == t))
    return AggV([v, BoolV(b)])

# ---------------------------------------------------------------- std::string
# layout: +0 char* data, +8 size_t length; abstract capacity = size(data region) - 1
def s_ptr(e, st, p): return e.load(st, p, ir.PTR)
def s_len(e, st, p): return e.u(st, e.load(st, e.gep_add(st, p, 8), I64))
def s_set(e, st, p, buf, ln):
    e.store(st, p, ir.PTR, buf)
    e.store(st, e.gep_add(st, p, 8), I64, ln if isinstance(ln, IntV) else IntV(ln, 64, 0, (1 << 62)))

MAXSTR = (1 << 62)
def str_init(e, st, reg, off, name, unbounded=False):
    """give an arbitrary std::string shape to the cells at reg+off; returns (buffer region, len term).
    unbounded: the buffer never moves (for strings that grow in a loop); sound only while no pointer into it is taken,
    which str_grow checks"""
    if unbounded:
        ln = e.fresh(name + ".len"); st.assume(ln >= 0, ln <= MAXSTR)
        b = Region(name + ".buf", 2 * MAXSTR, "heap"); b.segs.append(Seg(0, 1, 2 * MAXSTR)); b.isegs[0] = e.fresh_arr(name + ".buf"); b.unbounded = True
        reg.icells[off] = (8, PtrV(b, 0)); reg.icells[off + 8] = (8, IntV(ln, 64, 0, MAXSTR))
        return b, ln
    cap = e.fresh(name + ".cap"); ln = e.fresh(name + ".len")
    st.assume(ln >= 0, ln <= cap, cap <= MAXSTR)
    b = Region(name + ".buf", cap + 1, "heap")
    b.segs.append(Seg(0, 1, cap + 1)); b.isegs[0] = e.fresh_arr(name + ".buf")
    reg.icells[off] = (8, PtrV(b, 0)); reg.icells[off + 8] = (8, IntV(ln, 64, 0, MAXSTR))
    return b, ln

def str_grow(e, st, p, newlen):
    """make capacity for newlen; contents preserved; returns buffer pointer"""
    buf = s_ptr(e, st, p)
    ln = s_len(e, st, p)
    if getattr(buf.reg, "unbounded", False):
        if getattr(buf.reg, "taken", False): raise Unsupported("string grows after a pointer into it was taken")
        return buf
    if e.quick(st, B(tle(tadd(newlen, 1), buf.reg.size))): return buf
    cap = e.fresh("cap"); st.assume(cap >= newlen, cap <= MAXSTR + MAXSTR)
    b = Region(buf.reg.name.split("'")[0] + "'", cap + 1, "heap")
    b.segs.append(Seg(0, 1, cap + 1))
    b.isegs[0] = e.seg_arr(st, buf.reg, buf.reg.segs[0])
    st.dead = st.dead | {buf.reg.id}
    st.ghost[("moved", buf.reg.id)] = b
    nb = PtrV(b, 0)
    e.store(st, p, ir.PTR, nb)
    return nb

def str_append(e, st, p, src, n):
    check_range(e, st, src, n, "read (string append source)")
    ln = s_len(e, st, p)
    nl = tadd(ln, n)
    if e.cur is not None and hasattr(e.cur, "on_append"): e.cur.on_append(e, st, p, src, n)
    old = s_ptr(e, st, p)
    sarr = None
    # source may be inside the string itself (aliasing): copy from old contents
    if isinstance(src, PtrV) and src.reg is not None and src.reg is old.reg:
        e.oblige(st, tle(tadd(src.off.z(), n), ln), "mem", "string appended to itself: the source lies within the current contents")
        sarr = e.seg_arr(st, src.reg, seg_of(e, src))
    st.assume(tle(nl, MAXSTR))     # otherwise std::length_error
    buf = str_grow(e, st, p, nl)
    if isinstance(src, PtrV) and src.reg is not None:
        s2 = src
        if src.reg is old.reg and buf.reg is not old.reg: s2 = PtrV(buf.reg, src.off, None)
        copy_into(e, st, e_at(buf, ln), s2, n)
    e.store(st, e_ptr(p, 8), I64, IntV(nl, 64, 0, MAXSTR))
def e_at(buf, off): return PtrV(buf.reg, buf.off.add(Lin.of(off)), buf.reg.segs[0])
def e_ptr(p, k): return PtrV(p.reg, p.off.add(k), p.seg)

@model(STR + r"(data|c_str)\(\)( const)?$")
def _sdata(e, st, a, ins): return taken(st, s_ptr(e, st, a[0]))
def taken(st, p):
    if getattr(p.reg, "unbounded", False): p.reg.taken = True
    return p
@model(STR + r"(size|length)\(\) const")
def _ssize(e, st, a, ins):
    v = e.load(st, e.gep_add(st, a[0], 8), I64)
    return v
@model(STR + r"empty\(\) const")
def _sempty(e, st, a, ins): return BoolV(teq(s_len(e, st, a[0]), 0))
@model(STR + r"capacity\(\) const")
def _scap(e, st, a, ins):
    b = s_ptr(e, st, a[0])
    return IntV(tsub(b.reg.size, 1), 64, 0, (1 << 63) - 1)
@model(STR + r"clear\(\)")
def _sclear(e, st, a, ins):
    e.store(st, e_ptr(a[0], 8), I64, IntV(0, 64)); return None
@model(STR + r"append\(char const\*, unsigned long\)")
def _sapp(e, st, a, ins):
    str_append(e, st, a[0], a[1], e.u(st, a[2])); return a[0]
@model(STR + r"append\(std::__cxx11::basic_string<.*> const&\)$")
def _sapps(e, st, a, ins):
    str_append(e, st, a[0], s_ptr(e, st, a[1]), s_len(e, st, a[1])); return a[0]
@model(STR + r"append\(char const\*\)")
def _sapp1(e, st, a, ins):
    n = _strlen(e, st, [a[1]], ins).t
    str_append(e, st, a[0], a[1], n); return a[0]
@model(STR + r"append\(unsigned long, char\)")
def _sappc(e, st, a, ins):
    n = e.u(st, a[1]); ln = s_len(e, st, a[0]); nl = tadd(ln, n)
    st.assume(tle(nl, MAXSTR))
    buf = str_grow(e, st, a[0], nl)
    fill_into(e, st, e_at(buf, ln), n, e.u(st, a[2]))
    e.store(st, e_ptr(a[0], 8), I64, IntV(nl, 64, 0, MAXSTR)); return a[0]
@model(r"(.*& )?" + STR + r"append<(char const|char)\*, void>\(char( const)?\*, char( const)?\*\)")
def _sappit(e, st, a, ins):
    f, l = a[1], a[2]
    if not (isinstance(f, PtrV) and isinstance(l, PtrV) and f.reg is l.reg): raise Unsupported("string append of a range in two objects")
    n = tsub(l.off.z(), f.off.z()); e.oblige(st, tle(0, n), "mem", "string append of a range that runs forward"); str_append(e, st, a[0], f, n); return a[0]
@model(STR + r"operator\+=\(std::__cxx11::basic_string<.*> const&\)$")
def _spes(e, st, a, ins): return _sapps(e, st, a, ins)
@model(STR + r"resize\(unsigned long(, char)?\)")
def _sresize(e, st, a, ins):
    n = e.u(st, a[1]); ln = s_len(e, st, a[0]); st.assume(tle(n, MAXSTR))
    if e.quick(st, B(tle(n, ln))): e.store(st, e_ptr(a[0], 8), I64, IntV(n, 64, 0, MAXSTR)); return None
    if not e.quick(st, B(tle(ln, n))): raise Unsupported("string resize either way")
    return _sappc(e, st, [a[0], IntV(tsub(n, ln), 64, 0, MAXSTR), a[2] if len(a) > 2 else IntV(0, 8)], ins) and None
@model(STR + r"(assign|operator=)\(std::__cxx11::basic_string<.*> const&\)$")
def _sassigns(e, st, a, ins):
    src = s_ptr(e, st, a[1])
    if src.reg is s_ptr(e, st, a[0]).reg: return a[0]
    n = s_len(e, st, a[1]); e.store(st, e_ptr(a[0], 8), I64, IntV(0, 64)); str_append(e, st, a[0], src, n); return a[0]
@model(STR + r"push_back\(char\)")
def _spush(e, st, a, ins):
    ln = s_len(e, st, a[0]); nl = tadd(ln, 1)
    st.assume(tle(nl, MAXSTR))
    if e.cur is not None and hasattr(e.cur, "on_push"): e.cur.on_push(e, st, a[0], a[1])
    buf = str_grow(e, st, a[0], nl)
    p = e_at(buf, ln)
    e.store(st, p, I8, a[1])
    e.store(st, e_ptr(a[0], 8), I64, IntV(nl, 64, 0, MAXSTR)); return None
@model(STR + r"(operator\+=)\(char\)")
def _spe(e, st, a, ins):
    _spush(e, st, a, ins); return a[0]
@model(STR + r"(operator\+=)\(char const\*\)")
def _spe2(e, st, a, ins):
    _sapp1(e, st, a, ins); return a[0]
@model(STR + r"assign\(char const\*, unsigned long\)")
def _sassign(e, st, a, ins):
    # disjoint source only
    n = e.u(st, a[2])
    old = s_ptr(e, st, a[0])
    check_range(e, st, a[1], n, "read (string assign source)")
    if isinstance(a[1], PtrV) and a[1].reg is old.reg:
        # self-assignment of a suffix: contents shift down
        sa = e.seg_arr(st, old.reg, old.reg.segs[0]); off = a[1].off.z()
        na = e.fresh_arr("sh"); i = z3.Int("i!q")
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(na, i) == z3.Select(sa, i + off)), patterns=[z3.Select(na, i)]))
        e.oblige(st, tle(tadd(off, n), s_len(e, st, a[0])), "mem", "string assigned from itself: the source lies within the current contents")
        e.set_seg(st, old.reg, old.reg.segs[0].start, na)
        e.store(st, e_ptr(a[0], 8), I64, IntV(n, 64, 0, MAXSTR)); return a[0]
    e.store(st, e_ptr(a[0], 8), I64, IntV(0, 64))
    str_append(e, st, a[0], a[1], n); return a[0]
@model(STR + r"operator=\(char const\*\)")
def _seqc(e, st, a, ins):
    n = _strlen(e, st, [a[1]], ins).t
    e.store(st, e_ptr(a[0], 8), I64, IntV(0, 64))
    str_append(e, st, a[0], a[1], n); return a[0]
@model(STR + r"reserve\(unsigned long\)")
def _sres(e, st, a, ins):
    n = e.u(st, a[1])
    st.assume(tle(n, MAXSTR))
    ln = s_len(e, st, a[0])
    buf = s_ptr(e, st, a[0])
    if e.quick(st, B(tle(n, ln))): return None
    if e.quick(st, B(tle(tadd(n, 1), buf.reg.size))): return None
    cap = e.fresh("cap"); st.assume(cap >= n, cap >= tsub(buf.reg.size, 1), cap <= MAXSTR + MAXSTR)
    b = Region(buf.reg.name.split("'")[0] + "'", cap + 1, "heap")
    b.segs.append(Seg(0, 1, cap + 1)); b.isegs[0] = e.seg_arr(st, buf.reg, buf.reg.segs[0])
    st.dead = st.dead | {buf.reg.id}
    st.ghost[("moved", buf.reg.id)] = b
    e.store(st, a[0], ir.PTR, PtrV(b, 0))
    return None
@model(STR + r"operator\[\]\(unsigned long\)( const)?")
def _sidx(e, st, a, ins):
    i = e.u(st, a[1])
    e.oblige(st, tle(i, s_len(e, st, a[0])), "mem", "string index within length")
    return e_at(taken(st, s_ptr(e, st, a[0])), i)
@model(STR + r"basic_string\(\)$")
def _sctor(e, st, a, ins):
    b = Region("str%d.buf" % next(e.fresh_n), 16, "heap"); b.segs.append(Seg(0, 1, 16)); b.isegs[0] = e.fresh_arr("sso")
    s_set(e, st, a[0], PtrV(b, 0), IntV(0, 64)); return None
@model(STR + r"basic_string<.*>\(unsigned long, char, std::allocator<char> const&\)")
def _sctor2(e, st, a, ins):
    _sctor(e, st, a, ins); _sappc(e, st, [a[0], a[1], a[2]], ins); return None
@model(STR + r"basic_string<.*>\(char const\*, unsigned long, std::allocator<char> const&\)|" + STR + r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)")
def _sctor3(e, st, a, ins):
    _sctor(e, st, a, ins); str_append(e, st, a[0], a[1], e.u(st, a[2])); return None
@model(STR + r"~basic_string\(\)")
def _sdtor(e, st, a, ins):
    b = s_ptr(e, st, a[0])
    st.dead = st.dead | {b.reg.id}
    return None
@model(r"^std::allocator<char>::|^std::__new_allocator<char>::")
def _alloc(e, st, a, ins): return None

# ---------------------------------------------------------------- std::vector<int>
# layout: +0 begin, +8 end, +16 end_of_storage
VEC = r"std::vector<int, std::allocator<int> ?>::"
def vec_init(e, st, reg, off, name, size, signed=True, es=4):
    b = Region(name + ".buf", tmul(size, es), "heap")
    b.segs.append(Seg(0, es, size, signed)); b.isegs[0] = e.fresh_arr(name)
    reg.icells[off] = (8, PtrV(b, 0)); reg.icells[off + 8] = (8, PtrV(b, Lin.of(size).scale(es), b.segs[0]))
    reg.icells[off + 16] = (8, PtrV(b, Lin.of(size).scale(es), b.segs[0]))
    return b
def vec_set(e, st, p, n, arr):
    b = Region("vec%d" % next(e.fresh_n), tmul(n, 4), "heap")
    b.segs.append(Seg(0, 4, n, True)); b.isegs[0] = arr
    e.store(st, p, ir.PTR, PtrV(b, 0))
    e.store(st, e_ptr(p, 8), ir.PTR, PtrV(b, Lin.of(n).scale(4), b.segs[0]))
    e.store(st, e_ptr(p, 16), ir.PTR, PtrV(b, Lin.of(n).scale(4), b.segs[0]))
    return b
def vec_kill(e, st, p):
    b = e.load(st, p, ir.PTR)
    if isinstance(b, PtrV) and b.reg is not None: st.dead = st.dead | {b.reg.id}
    return b
@model(VEC + r"vector\(\)")
def _vctor(e, st, a, ins):
    for k in (0, 8, 16): e.store(st, e_ptr(a[0], k), ir.PTR, NULLP)
    return None
@model(VEC + r"vector\(unsigned long, int const&, std::allocator<int> const&\)")
def _vctor2(e, st, a, ins):
    n = e.u(st, a[1]); v = e.s(st, e.load(st, a[2], I32))
    st.assume(tle(n, (1 << 61) - 1))
    vec_set(e, st, a[0], n, z3.K(z3.IntSort(), Z(v))); return None
@model(VEC + r"assign\(unsigned long, int const&\)")
def _vassign(e, st, a, ins):
    n = e.u(st, a[1]); v = e.s(st, e.load(st, a[2], I32))
    st.assume(tle(n, (1 << 61) - 1))
    vec_kill(e, st, a[0]); vec_set(e, st, a[0], n, z3.K(z3.IntSort(), Z(v))); return None
@model(VEC + r"resize\(unsigned long, int const&\)")
def _vresize(e, st, a, ins):
    n = e.u(st, a[1]); v = e.s(st, e.load(st, a[2], I32))
    st.assume(tle(n, (1 << 61) - 1))
    b = e.load(st, a[0], ir.PTR); en = e.load(st, e_ptr(a[0], 8), ir.PTR)
    if b.reg is None:
        vec_set(e, st, a[0], n, z3.K(z3.IntSort(), Z(v))); return None
    old = e.seg_arr(st, b.reg, b.reg.segs[0]); cnt = en.off.add(b.off, -1).div(4).z()
    na = e.fresh_arr("rsz"); i = z3.Int("i!q")
    st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(i < cnt, z3.Select(old, i), Z(v)), patterns=[z3.Select(na, i)]))
    vec_kill(e, st, a[0]); vec_set(e, st, a[0], n, na); return None
@model(VEC + r"swap\(|" + VEC + r"operator=")
def _vswap(e, st, a, ins): raise Unsupported("vector swap/assign")
@model(VEC + r"~vector\(\)")
def _vdtor(e, st, a, ins):
    vec_kill(e, st, a[0]); return None
@model(r"std::allocator<int>::|std::__new_allocator<int>::")
def _alloci(e, st, a, ins): return None

# guard variables of local statics (Itanium C++ ABI): between acquire and release no other thread initialises or reads the
# variable, so what is written there is not a write to unsynchronised static state
@model(r"^__cxa_guard_acquire$")
def _gacq(e, st, a, ins):
    v = e.load(st, a[0], ir.IntTy(8))
    if not isinstance(v.t, int): raise Unsupported("guard variable of unknown value")
    if v.t == 0: st.ghost["guards"] = st.ghost.get("guards", 0) + 1
    return IntV(0 if v.t else 1, 32)
@model(r"^__cxa_guard_release$")
def _grel(e, st, a, ins):
    e.store(st, a[0], ir.IntTy(8), IntV(1, 8)); st.ghost["guards"] = st.ghost.get("guards", 0) - 1
    return None
