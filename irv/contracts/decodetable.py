"""VCDiffCodeTableReader (properties C12, C03, C04, C02, C11)."""
from .common import *
from .codetable import Tab, mk_table, NOOP, ADD, RUN, COPY
from .varint import val, cont
CLS = "VCDiffCodeTableReader"
NONE = 256
ERROR, END = 4, 5
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
# first position >= i (limit L) whose opcode is not a pure NOOP
SKIP = z3.Function("skip_noops", ARR, ARR, ARR, I, I, I)

def byte_at(arr, i): return z3.Select(arr, i)
def skip_unfold(t, arr, i, L):
    op = arr[i]; noop = z3.And(t.inst1[op] == NOOP, t.inst2[op] == NOOP)
    return [SKIP(arr, t.inst1, t.inst2, i, L) == z3.If(z3.And(i < L, noop), SKIP(arr, t.inst1, t.inst2, i + 1, L), i),
            z3.Implies(i + 1 >= L, SKIP(arr, t.inst1, t.inst2, i + 1, L) == i + 1)]

def mk_reader(e, st, reg, off0, buf, name="reader", max_mode=None, pos=None, table=None):
    """an arbitrary initialised reader over buf; returns dict of its parts"""
    P = e.fresh("pos") if pos is None else None; L = e.fresh("end")
    st.assume(L >= 0, L <= Z(buf.size))
    if pos is None:
        st.assume(P >= 0, P <= Z(buf.size))
        pos = Region(name + ".pos", 8, "sym"); pos.icells[0] = (8, PtrV(buf, P, buf.segs[0])); pp = PtrV(pos, 0)
    else: pp = pos
    if table is None: table = PtrV(mk_table(e, st, name + ".table"), 0)
    pend = e.fresh(name + ".pending"); lpend = e.fresh(name + ".last_pending"); ls = e.fresh(name + ".last_start")
    st.assume(pend >= 0, pend <= 65535, lpend >= 0, lpend <= 65535, ls >= 0, ls <= Z(buf.size))
    setinit(e, reg, off0, CLS, "code_table_data_", table)
    setinit(e, reg, off0, CLS, "instructions_and_sizes_", pp)
    setinit(e, reg, off0, CLS, "instructions_and_sizes_end_", PtrV(buf, L, buf.segs[0]))
    setinit(e, reg, off0, CLS, "last_instruction_start_", PtrV(buf, ls, buf.segs[0]))
    setinit(e, reg, off0, CLS, "pending_second_instruction_", IntV(pend, 16, 0, 65535))
    setinit(e, reg, off0, CLS, "last_pending_second_instruction_", IntV(lpend, 16, 0, 65535))
    return dict(P=P, L=L, pend=pend, table=table)

class RView:
    def __init__(self, e, st, p):
        self.tp = getv(e, st, p, CLS, "code_table_data_"); self.t = Tab(e, st, self.tp)
        self.pp = getv(e, st, p, CLS, "instructions_and_sizes_")
        self.pos = e.load(st, self.pp, ir.PTR)
        self.end = getv(e, st, p, CLS, "instructions_and_sizes_end_")
        self.pend = geti(e, st, p, CLS, "pending_second_instruction_"); self.lpend = geti(e, st, p, CLS, "last_pending_second_instruction_")
        self.lstart = getv(e, st, p, CLS, "last_instruction_start_")
    def wf(self, mm):
        i = z3.Int("i!q"); t = self.t
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), z3.And(t.wf1(i, mm), t.wf2(i, mm))), patterns=[t.inst1[i]])
    def inv(self):
        # the opcode is kept in the low byte (a char is stored, so bytes >= 128 appear sign-extended)
        i = z3.Int("i!q"); t = self.t
        return [("a pending opcode has a second instruction", z3.Implies(self.pend != NONE, t.inst2[self.pend % 256] != NOOP)),
                ("the table has only the four instruction types", z3.And(*[z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 256), z3.And(x[i] >= 0, x[i] <= COPY)), patterns=[x[i]]) for x in (t.inst1, t.inst2)]))]

def next_instruction(v, arr, P, L):
    """RFC 3284 section 5.4 expansion: (first position, ran out, opcode, uses second half, position after opcode, type, size, mode, pending)"""
    t = v.t
    k = SKIP(arr, t.inst1, t.inst2, P, L)
    havep = v.pend != NONE
    out = z3.And(z3.Not(havep), k >= L)
    op = z3.If(havep, v.pend % 256, arr[k])
    second = z3.Or(havep, t.inst1[op] == NOOP)
    n0 = z3.If(havep, P, k + 1)
    ty = z3.If(second, t.inst2[op], t.inst1[op]); sz = z3.If(second, t.size2[op], t.size1[op]); mo = z3.If(second, t.mode2[op], t.mode1[op])
    pend = z3.If(z3.Or(second, t.inst2[op] == NOOP), NONE, op)
    return k, out, op, second, n0, ty, sz, mo, pend

class GetNext(Contract):
    match = NS + CLS + "::GetNextInstruction"
    props = ("C12", "C03", "C04", "C02")
    cases = ("initialised", "before Init")
    def setup(self, e, st, case):
        o = e.object(st, "reader", NS + CLS)
        buf = e.buffer(st, "instructions", ro=True)
        d = mk_reader(e, st, o, 0, buf)
        self.init = case == "initialised"
        if not self.init: setinit(e, o, 0, CLS, "instructions_and_sizes_", NULLP)
        else:
            t = Tab(e, st, d["table"]); arr = buf.isegs[0]; L = d["L"]; P = d["P"]
            self.P, self.L, self.t, self.arr, self.buf = P, L, t, arr, buf
            st.assume(z3.Implies(P >= L, SKIP(arr, t.inst1, t.inst2, P, L) == P))
            def hook(s, r, seg, a, i, v):
                if r is buf: s.assume(*skip_unfold(t, arr, Z(i), L))
            e.load_hooks.append(hook)
        sz = Region("size", 4, "sym"); sz.icells[0] = (4, e.fresh_int(st, 32, True, "size0"))
        mo = Region("mode", 1, "sym"); mo.icells[0] = (1, e.fresh_int(st, 8, False, "mode0"))
        return [PtrV(o, 0), PtrV(sz, 0), PtrV(mo, 0)]
    def isnull(self, e, st, a):
        p = getv(e, st, a[0], CLS, "instructions_and_sizes_")
        return p.reg is None
    def pre(self, e, st, a):
        if self.isnull(e, st, a): return []
        v = RView(e, st, a[0])
        return v.inv() + [("end in the same buffer", v.end.reg is v.pos.reg)]
    def modifies(self, e, st, a):
        if self.isnull(e, st, a): return []
        v = RView(e, st, a[0])
        return [cell(e, a[0], CLS, f) for f in ("pending_second_instruction_", "last_pending_second_instruction_", "last_instruction_start_")] + \
               [(v.pp.reg, ("cell", v.pp.off.c, 8)), (a[1].reg, ("cell", a[1].off.c, 4)), (a[2].reg, ("cell", a[2].off.c, 1))]
    def post(self, e, s0, s1, a, ret):
        r = Z(e.s(s1, ret))
        if self.isnull(e, s0, a): return [("an uninitialised reader reports an error", r == ERROR)]
        v0, v1 = RView(e, s0, a[0]), RView(e, s1, a[0])
        if v1.pos.reg is not v0.pos.reg or v1.lstart.reg is not v0.pos.reg: return [("position stays in the stream", False)]
        arr = arr_of(e, s0, v0.pos); P, N, L = Z(v0.pos.off.z()), Z(v1.pos.off.z()), Z(v0.end.off.z())
        k, out, op, second, n0, ty, sz, mo, pend = next_instruction(v0, arr, P, L)
        def nm(x, n):
            b = z3.Bool("%s!%d" % (n, next(e.fresh_n))) if z3.is_bool(x) else e.fresh(n)
            s1.assume(b == x); return b
        k, out, op, second, n0, ty, sz, mo, pend = [nm(x, n) for x, n in zip((k, out, op, second, n0, ty, sz, mo, pend), ("k", "out", "op", "second", "n0", "ty", "sz", "mo", "pend"))]
        size = Z(e.s(s1, e.load(s1, a[1], ir.IntTy(32)))); mode = Z(e.u(s1, e.load(s1, a[2], ir.IntTy(8))))
        ok = z3.And(r != ERROR, r != END)
        return [("result is an instruction, error or end of data", z3.Or(r == ty, r == ERROR, r == END)),
                ("the instruction is the one the table defines for the next opcode or pending second half", z3.Implies(ok, z3.And(z3.Not(out), r == ty, mode == mo))),
                ("a size given by the table is returned and nothing more is consumed", z3.Implies(z3.And(ok, sz != 0), z3.And(size == sz, N == n0))),
                ("otherwise the size is the varint that follows", z3.Implies(z3.And(ok, sz == 0), z3.And(size == val(arr, n0, N), N > n0, N <= L, arr[N - 1] < 128, cont(arr, n0, N - 1)))),
                ("what is returned is an ADD, RUN or COPY", z3.Implies(ok, r != NOOP)),
                ("sizes are not negative", z3.Implies(ok, size >= 0)),
                ("the second half becomes pending exactly when the first was returned", z3.Implies(z3.Not(z3.Or(out, r == END)), z3.And((v1.pend == NONE) == (pend == NONE), z3.Implies(pend != NONE, v1.pend % 256 == pend)))),
                ("end of data only when no complete instruction is available", z3.Implies(r == END, z3.Or(out, z3.And(sz == 0, z3.Or(n0 >= L, cont(arr, n0, L)))))),
                ("end of data in the middle of an instruction rewinds to its start", z3.Implies(z3.And(r == END, z3.Not(out)), z3.And(N == P, v1.pend == v0.pend))),
                ("end of data before an opcode has skipped only NOOPs", z3.Implies(z3.And(r == END, out), z3.And(N == k, v1.pend == NONE))),
                ("running out of opcodes is end of data", z3.Implies(out, r == END)),
                ("an error is a malformed size", z3.Implies(r == ERROR, sz == 0)),
                ("the position never passes the end nor moves back", z3.And(N >= P, z3.Or(N <= L, N == P))),
                ("the opcode is a byte", z3.Implies(z3.Not(out), z3.And(op >= 0, op <= 255))),
                ("the rewind point is the position before the call", z3.And(Z(v1.lstart.off.z()) == P, v1.lpend == v0.pend)),
                ] + v1.inv()
    def loop_candidates(self, e, L_):
        out = []
        if not self.init: return out
        P, L, t, arr, buf = self.P, self.L, self.t, self.arr, self.buf
        for (r, o, v) in L_.ptrs:
            if v.reg is not buf: continue
            def p(st, r=r, o=o):
                x = e.cellval(st, r, o)
                if not isinstance(x, PtrV) or x.reg is not buf: raise Unsupported("ptr")
                return Z(x.off.z())
            out.append(("!skip", lambda st, p=p: SKIP(arr, t.inst1, t.inst2, P, L) == SKIP(arr, t.inst1, t.inst2, p(st), L)))
            out.append(("!skip at end", lambda st, p=p: z3.Implies(p(st) >= L, SKIP(arr, t.inst1, t.inst2, p(st), L) == p(st))))
            out.append(("!p<=L", lambda st, p=p: z3.Or(p(st) == P, p(st) <= L)))
        for (r, o, v) in L_.ints:
            if v.w != 16: continue
            v0 = RView(e, e.entry, e.entry_args[0])
            def x(st, r=r, o=o):
                y = e.cellval(st, r, o)
                if not isinstance(y, IntV): raise Unsupported("int")
                return Z(e.u(st, y))
            out.append(("!pending has second", lambda st, x=x: z3.Implies(x(st) != NONE, t.inst2[x(st) % 256] != NOOP)))
            for (r2, o2, vp) in L_.ptrs:
                if vp.reg is not buf: continue
                def p(st, r=r2, o=o2):
                    y = e.cellval(st, r, o)
                    if not isinstance(y, PtrV): raise Unsupported("ptr")
                    return Z(y.off.z())
                # once past the first opcode, a pending half belongs to the NOOP-first opcode just read
                out.append(("!pending is the opcode just read", lambda st, x=x, p=p: z3.Or(z3.And(p(st) == P, x(st) == v0.pend), z3.And(p(st) > P, v0.pend == NONE,
                    z3.If(x(st) == NONE, SKIP(arr, t.inst1, t.inst2, P, L) == SKIP(arr, t.inst1, t.inst2, p(st), L),
                          z3.And(SKIP(arr, t.inst1, t.inst2, P, L) == p(st) - 1, p(st) - 1 < L, arr[p(st) - 1] == x(st) % 256, t.inst1[x(st) % 256] == NOOP))))))
                out.append(("!skip or pending", lambda st, x=x, p=p: z3.Or(SKIP(arr, t.inst1, t.inst2, P, L) == SKIP(arr, t.inst1, t.inst2, p(st), L), x(st) != NONE)))
        return out
    def apply(self, e, st, a):
        if self.isnull(e, st, a): raise Unsupported("uninitialised reader")
        with Spec(e): pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            v0 = RView(e, st, a[0])
            mods = self.modifies(e, st, a)
            for r, w in mods: e.note_write(st, r, w)
            ls = fld(e, a[0], CLS, "last_instruction_start_")[0]
            e.store(st, ls, ir.PTR, v0.pos)
            e.havoc(st, [m for m in mods if not (m[0] is ls.reg and m[1][1] == ls.off.c)], "c")
            ret = e.fresh_int(st, 32, True, "inst")
            for n, g in self.post(e, s0, st, a, ret): st.assume(B(g))
        tr = getattr(e.cur, "trace", None)
        if tr is not None:
            # ghost record of what was read (see decoder.py)
            with Spec(e):
                r = Z(e.s(st, ret)); n = e.fresh("read")
                st.assume(n == gget(e, st, tr["read"]) + z3.If(z3.Or(r == ERROR, r == END), 0, 1))
                gset(e, st, tr["read"], n); gset(e, st, tr["type"], r)
                gset(e, st, tr["size"], Z(e.s(st, e.load(st, a[1], ir.IntTy(32))))); gset(e, st, tr["mode"], Z(e.u(st, e.load(st, a[2], ir.IntTy(8)))))
        return ret

class UnGet(Contract):
    match = NS + CLS + "::UnGetInstruction"
    props = ("C04", "C12")
    def setup(self, e, st, case):
        o = e.object(st, "reader", NS + CLS); buf = e.buffer(st, "instructions", ro=True)
        mk_reader(e, st, o, 0, buf)
        return [PtrV(o, 0)]
    def pre(self, e, st, a):
        v = RView(e, st, a[0])
        return [("the rewind point is not past the position", z3.And(v.lstart.reg is v.pos.reg, tle(v.lstart.off.z(), v.pos.off.z()))),
                ("at most one pending instruction", z3.Or(v.pend == NONE, v.lpend == NONE))]
    def modifies(self, e, st, a):
        v = RView(e, st, a[0]); return [cell(e, a[0], CLS, "pending_second_instruction_"), (v.pp.reg, ("cell", v.pp.off.c, 8))]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = RView(e, s0, a[0]), RView(e, s1, a[0])
        if v1.pos.reg is not v0.pos.reg: return [("position stays in the stream", False)]
        return [("the position and pending half are those before the last instruction", z3.And(Z(v1.pos.off.z()) == Z(v0.lstart.off.z()), v1.pend == v0.lpend))]
    def apply(self, e, st, a):
        ret = Contract.apply(self, e, st, a)
        tr = getattr(e.cur, "trace", None)
        if tr is not None:
            n = e.fresh("read"); st.assume(n == gget(e, st, tr["read"]) - 1); gset(e, st, tr["read"], n)
        return ret

class UseCodeTable(Contract):
    match = NS + CLS + "::UseCodeTable"
    props = ("C11", "C03")
    cases = ("first custom table", "another custom table")
    def setup(self, e, st, case):
        o = e.object(st, "reader", NS + CLS); buf = e.buffer(st, "instructions", ro=True)
        old = None
        if case == "another custom table":
            r = mk_table(e, st, "old_table"); r.kind = "heap"; old = PtrV(r, 0)
        mk_reader(e, st, o, 0, buf, table=old)
        off, _ = e.di.field(NS + CLS, "non_default_code_table_data_")
        o.icells[off] = (8, old or NULLP)
        t = mk_table(e, st, "new_table"); t.ro = True
        return [PtrV(o, 0), PtrV(t, 0), e.fresh_int(st, 8, False, "max_mode")]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        t = Tab(e, s0, a[1])
        g = s1.ghost.get(("valid", t.key()))
        if g is None: return [("the table is validated", False)]
        tp0, tp1 = getv(e, s0, a[0], CLS, "code_table_data_"), getv(e, s1, a[0], CLS, "code_table_data_")
        out = [("the table is accepted exactly when it is valid for the given modes", z3.And(B(ret.b) == g[0], g[1] == Z(e.u(s0, a[2]))))]
        same = tp0.reg is tp1.reg
        if not same: out.append(("an invalid table does not replace the one in use", B(ret.b)))
        t1 = Tab(e, s1, tp1); i = e.fresh("i"); t0 = Tab(e, s0, tp0)
        for n in ("inst1", "inst2", "size1", "size2", "mode1", "mode2"):
            x, y, z = getattr(t1, n), getattr(t, n), getattr(t0, n)
            out.append(("an accepted table is used: %s" % n, z3.Implies(z3.And(B(ret.b), i >= 0, i < 256), x[i] == y[i])))
            if same: out.append(("an invalid table leaves the one in use: %s" % n, z3.Implies(z3.And(z3.Not(B(ret.b)), i >= 0, i < 256), x[i] == z[i])))
        nd = e.load(s1, fld(e, a[0], CLS, "non_default_code_table_data_")[0], ir.PTR)
        out.append(("the table in use is alive", tp1.reg.id not in s1.dead and (tp1.reg is nd.reg or same)))
        return out

class UseDefault(Contract):
    match = NS + CLS + "::UseDefaultCodeTable"
    props = ("C11", "C06")
    cases = ("default in use", "custom in use")
    def setup(self, e, st, case):
        from .codetable import DEFAULT
        o = e.object(st, "reader", NS + CLS); buf = e.buffer(st, "instructions", ro=True)
        old = None
        if case == "custom in use":
            r = mk_table(e, st, "old_table"); r.kind = "heap"; old = PtrV(r, 0)
        mk_reader(e, st, o, 0, buf, table=old or PtrV(e.global_region(st, DEFAULT), 0))
        off, _ = e.di.field(NS + CLS, "non_default_code_table_data_")
        o.icells[off] = (8, old or NULLP)
        return [PtrV(o, 0)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        from .codetable import DEFAULT
        tp = getv(e, s1, a[0], CLS, "code_table_data_"); nd = e.load(s1, fld(e, a[0], CLS, "non_default_code_table_data_")[0], ir.PTR)
        return [("the default table is in use", tp.reg is e.globals_r.get(DEFAULT) and tp.off.const() and tp.off.c == 0), ("no custom table is kept", nd.reg is None)]
    def apply(self, e, st, a):
        from .codetable import DEFAULT
        with Spec(e):
            q = fld(e, a[0], CLS, "non_default_code_table_data_")[0]; nd = e.load(st, q, ir.PTR)
            if not isinstance(nd, PtrV): raise Unsupported("custom table owner unknown")
            if nd.reg is not None: st.dead = st.dead | {nd.reg.id}
            e.store(st, q, ir.PTR, NULLP); e.store(st, fld(e, a[0], CLS, "code_table_data_")[0], ir.PTR, PtrV(e.global_region(st, DEFAULT), 0))
        return None

class ReaderInit(Contract):
    match = NS + CLS + "::Init"
    props = ("C12", "C04", "C03")
    def setup(self, e, st, case):
        o = e.object(st, "reader", NS + CLS); buf = e.buffer(st, "instructions", ro=True); mk_reader(e, st, o, 0, buf)
        b2 = e.buffer(st, "new_instructions", ro=True); P, L = e.fresh("P"), e.fresh("L"); st.assume(P >= 0, P <= b2.size, L >= 0, L <= b2.size)
        pp = Region("pos", 8, "sym"); pp.icells[0] = (8, PtrV(b2, P, b2.segs[0]))
        return [PtrV(o, 0), PtrV(pp, 0), PtrV(b2, L, b2.segs[0])]
    def modifies(self, e, st, a):
        return [cell(e, a[0], CLS, f) for f in ("instructions_and_sizes_", "instructions_and_sizes_end_", "last_instruction_start_", "pending_second_instruction_", "last_pending_second_instruction_")]
    keep_pending = False
    def post(self, e, s0, s1, a, ret):
        pp = getv(e, s1, a[0], CLS, "instructions_and_sizes_"); en = getv(e, s1, a[0], CLS, "instructions_and_sizes_end_"); ls = getv(e, s1, a[0], CLS, "last_instruction_start_")
        p0, p1 = geti(e, s0, a[0], CLS, "pending_second_instruction_"), geti(e, s1, a[0], CLS, "pending_second_instruction_")
        lp = geti(e, s1, a[0], CLS, "last_pending_second_instruction_")
        out = [("the stream is the one given", pp.reg is a[1].reg and en.reg is a[2].reg and pp.off.c == a[1].off.c), ("the end is the one given", teq(en.off.z(), a[2].off.z()))]
        if self.keep_pending:
            pos = e.load(s0, a[1], ir.PTR)
            return out + [("a pending second instruction is kept", z3.And(p1 == p0, lp == p0)), ("the rewind point is the new position", ls.reg is pos.reg and teq(ls.off.z(), pos.off.z()))]
        return out + [("nothing is pending", z3.And(p1 == NONE, lp == NONE)), ("there is no rewind point", ls.reg is None)]
    def apply(self, e, st, a):
        """both methods only assign fields, so the call-site form is the assignment itself"""
        def f(n): return fld(e, a[0], CLS, n)[0]
        with Spec(e):
            p0 = e.load(st, f("pending_second_instruction_"), ir.IntTy(16)) if self.keep_pending else IntV(NONE, 16)
            pos = e.load(st, a[1], ir.PTR) if self.keep_pending else NULLP
            e.store(st, f("instructions_and_sizes_"), ir.PTR, a[1]); e.store(st, f("instructions_and_sizes_end_"), ir.PTR, a[2])
            e.store(st, f("last_instruction_start_"), ir.PTR, pos)
            e.store(st, f("pending_second_instruction_"), ir.IntTy(16), p0); e.store(st, f("last_pending_second_instruction_"), ir.IntTy(16), p0)
        return None
class UpdatePointers(ReaderInit):
    match = NS + CLS + "::UpdatePointers"
    props = ("C12", "C04")
    keep_pending = True

CONTRACTS = [GetNext(), UnGet(), UseCodeTable(), UseDefault(), ReaderInit(), UpdatePointers()]
