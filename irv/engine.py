"""Symbolic-execution VC generator for LLVM IR with contracts and loop invariants.

Every function under contract is executed symbolically from an arbitrary state
satisfying its precondition; calls to functions under contract are replaced by
the contract (pre checked, frame havocked, post assumed), calls to functions
without a contract are inlined, loops are cut at their header by an inductive
invariant (or unrolled completely when the trip count is bounded by operand
width), and each memory access, signed operation, reachable abort, callee
precondition, invariant and postcondition becomes a proof obligation that is
discharged by z3 (cvc5 as second back end) for all inputs.
"""
import time, itertools, re
import z3
from . import ir
from .ir import IRError

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ terms
def isc(x): return isinstance(x, int)
def Z(x): return z3.IntVal(x) if isinstance(x, int) else x
def tadd(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return Z(a) + Z(b)
def tsub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    if not isc(a) and not isc(b) and a.eq(b): return 0
    return Z(a) - Z(b)
def tmul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(a): a, b = b, a
    if isc(b):
        if b == 1: return a
        if b == 0: return 0
    return Z(a) * Z(b)
def tdiv(a, c):
    """floor division by a positive constant"""
    if isc(a): return a // c
    if c == 1: return a
    return a / z3.IntVal(c)
def tmod(a, c):
    if isc(a): return a % c
    return a % z3.IntVal(c)
def teq(a, b):
    if isc(a) and isc(b): return a == b
    return Z(a) == Z(b)
def tle(a, b):
    if isc(a) and isc(b): return a <= b
    return Z(a) <= Z(b)
def tlt(a, b):
    if isc(a) and isc(b): return a < b
    return Z(a) < Z(b)
def tand(*xs):
    r = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def tor(*xs):
    r = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def tnot(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def timp(a, b): return tor(tnot(a), b)
def tite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isc(a) and isc(b) and a == b: return a
    return z3.If(c, Z(a), Z(b))
def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x

# division by a symbolic divisor: abstract functions with their elementary bounds
IDIV = z3.Function("idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function("imod", z3.IntSort(), z3.IntSort(), z3.IntSort())
def divmod_facts(x, y):
    x, y = Z(x), Z(y)
    q, r = IDIV(x, y), IMOD(x, y)
    return [z3.Implies(z3.And(x >= 0, y > 0), z3.And(r >= 0, r < y, q >= 0, q <= x, r <= x, z3.Implies(x < y, z3.And(r == x, q == 0)), z3.Implies(x >= y, q >= 1), z3.Implies(x == y, r == 0)))]

# bitwise and of two unknowns: abstract, with its elementary bounds
BAND = z3.Function("band", z3.IntSort(), z3.IntSort(), z3.IntSort())

class Lin:
    """linear form over z3 Int terms: const + sum coef*term"""
    __slots__ = ("c", "m")
    def __init__(self, c=0, m=None):
        self.c = c; self.m = m or {}
    @staticmethod
    def of(x):
        if isinstance(x, Lin): return x
        if isc(x): return Lin(x)
        x = z3.simplify(x) if False else x
        if z3.is_int_value(x): return Lin(x.as_long())
        # decompose sums and constant multiples so that forms stay canonical
        if z3.is_add(x):
            r = Lin(0)
            for ch in x.children(): r = r.add(Lin.of(ch))
            return r
        if z3.is_sub(x):
            ch = x.children(); r = Lin.of(ch[0])
            for y in ch[1:]: r = r.add(Lin.of(y).scale(-1))
            return r
        if z3.is_mul(x) and len(x.children()) == 2:
            a, b = x.children()
            if z3.is_int_value(a): return Lin.of(b).scale(a.as_long())
            if z3.is_int_value(b): return Lin.of(a).scale(b.as_long())
        return Lin(0, {x.get_id(): (1, x)})
    def add(self, o, k=1):
        o = Lin.of(o)
        m = dict(self.m)
        for i, (c, t) in o.m.items():
            if i in m:
                n = m[i][0] + k * c
                if n: m[i] = (n, t)
                else: del m[i]
            else:
                m[i] = (k * c, t)
        return Lin(self.c + k * o.c, m)
    def scale(self, k):
        if k == 0: return Lin(0)
        return Lin(self.c * k, {i: (c * k, t) for i, (c, t) in self.m.items()})
    def const(self): return not self.m
    def div(self, k):
        if self.c % k or any(c % k for c, _ in self.m.values()): return None
        return Lin(self.c // k, {i: (c // k, t) for i, (c, t) in self.m.items()})
    def z(self):
        if not self.m: return self.c
        r = None
        for c, t in self.m.values():
            x = t if c == 1 else z3.IntVal(c) * t
            r = x if r is None else r + x
        if self.c: r = r + self.c
        return r

# ------------------------------------------------------------------ values
class IntV:
    __slots__ = ("t", "w", "lo", "hi", "b")
    def __init__(self, t, w, lo=None, hi=None, b=None):
        if not isc(t) and z3.is_int_value(t): t = t.as_long()
        self.t, self.w = t, w
        if isc(t): lo = hi = t
        self.lo, self.hi, self.b = lo, hi, b
    def __repr__(self): return "i%d:%s" % (self.w, self.t)
class BoolV:
    __slots__ = ("b",)
    def __init__(self, b): self.b = b
    def __repr__(self): return "bool:%s" % (self.b,)
class PtrV:
    __slots__ = ("reg", "off", "seg")
    def __init__(self, reg, off=0, seg=None):
        self.reg = reg; self.off = Lin.of(off); self.seg = seg
    def isnull(self): return self.reg is None
    def __repr__(self): return "ptr(%s,%s)" % (self.reg.name if self.reg else None, self.off.z())
class PIntV:
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
class FnV:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
class UndefV:
    pass
UNDEF = UndefV()
class AggV:
    __slots__ = ("v",)
    def __init__(self, v): self.v = tuple(v)
class OpaqueV:
    """non-null pointer to an object outside the model (iostream etc.)"""
    __slots__ = ("tag",)
    def __init__(self, tag): self.tag = tag
NULLP = PtrV(None, 0)

class Seg:
    """an array inside an object; fam: for an array of pointers, the family of rows its elements point to"""
    __slots__ = ("start", "es", "count", "signed", "ptr", "fam")
    def __init__(self, start, es, count, signed=False, ptr=False, fam=None):
        self.start, self.es, self.count, self.signed, self.ptr, self.fam = start, es, count, signed, ptr, fam

class Fork(Exception):
    """the current instruction needs to know whether cond holds"""
    def __init__(self, cond): self.cond = cond
AA = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
class Family:
    """equally sized arrays reached through an array of pointers: row h >= 1 is an object, handle 0 is the null pointer.
    The contents of all rows are one array of arrays; a row joins the family when its pointer is first stored."""
    def __init__(self, name, es=None, count=None, signed=False, child=None):
        self.name, self.es, self.count, self.signed, self.child = name, es, count, signed, child
        self.reg = Region(name + ".rows", 0, "heap"); self.reg.nested = True; self.reg.isegs[0] = z3.Const("%s.rows!%d" % (name, self.reg.id), AA); self.reg.segs.append(Seg(0, 1, 1 << 62))
        self.cnt = Region("ghost." + name + ".count", 8, "heap"); self.cnt.digrid = {0: ("int", 8, True)}; self.cnt.icells[0] = (8, IntV(z3.Int("%s.count!%d" % (name, self.reg.id)), 64, -(1 << 63), (1 << 63) - 1))
        self.rows = {}
    def count_of(self, st): return Z((st.rc(self.cnt).cells.get(0) or self.cnt.icells[0])[1].t)
    def mem(self, st):
        a = st.rc(self.reg).segs.get(0)
        return self.reg.isegs[0] if a is None else a
    def row(self, h):
        k = h.get_id()
        if k not in self.rows:
            r = Region("%s row" % self.name, tmul(self.count, self.es), "heap"); r.row = (self, h); r.segs.append(Seg(0, self.es, self.count, self.signed, self.child is not None, self.child)); self.rows[k] = (h, r)
        return self.rows[k][1]

class Region:
    _ids = itertools.count(1)
    sink = None
    def __init__(self, name, size, kind, uninit=False, ro=False, di=None):
        self.id = next(Region._ids); self.name = name; self.size = size; self.kind = kind
        self.uninit, self.ro, self.di = uninit, ro, di
        self.segs = []; self.icells = {}; self.isegs = {}
        self.digrid = None; self.owner = None; self.lty = None; self.var = None
        if Region.sink is not None: Region.sink.append(self)
    def seg_at(self, off):
        for s in self.segs:
            if isc(s.count):
                if s.start <= off < s.start + s.es * s.count: return s
            elif off >= s.start: return s
        return None

class RC:
    __slots__ = ("cells", "segs")
    def __init__(self, cells=None, segs=None):
        self.cells = cells or {}; self.segs = segs or {}
    def copy(self): return RC(dict(self.cells), dict(self.segs))

class Frame:
    _ids = itertools.count(1)
    __slots__ = ("fn", "blk", "idx", "regs", "prev", "rreg", "uid", "allocas")
    def __init__(self, fn):
        self.fn = fn; self.blk = fn.entry; self.idx = 0; self.regs = {}; self.prev = None; self.rreg = None
        self.uid = next(Frame._ids); self.allocas = ()
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.idx, f.regs, f.prev, f.rreg, f.uid, f.allocas = self.fn, self.blk, self.idx, dict(self.regs), self.prev, self.rreg, self.uid, self.allocas
        return f

class LoopCtx:
    __slots__ = ("frame", "header", "body", "mode", "collect", "info")
    def __init__(self, frame, header, body, mode, collect, info=None):
        self.frame, self.header, self.body, self.mode, self.collect, self.info = frame, header, body, mode, collect, info

class State:
    def __init__(self, eng):
        self.eng = eng; self.pc = []; self.qpc = []; self.mem = {}; self.frames = []; self.loops = []; self.dead = frozenset()
        self.ghost = {}; self.trail = []
        self.unroll = {}
        self.writes = None
    def copy(self):
        s = State.__new__(State)
        s.eng = self.eng; s.pc = list(self.pc); s.qpc = list(self.qpc); s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]; s.loops = list(self.loops); s.dead = self.dead
        s.ghost = dict(self.ghost); s.trail = list(self.trail); s.unroll = dict(self.unroll); s.writes = set(self.writes) if self.writes is not None else None
        return s
    def snap(self):
        """cheap memory snapshot (no frames)"""
        s = State.__new__(State)
        s.eng = self.eng; s.pc = self.pc; s.qpc = self.qpc; s.mem = dict(self.mem); s.frames = []; s.loops = []; s.dead = self.dead
        s.ghost = dict(self.ghost); s.trail = []; s.unroll = {}; s.writes = None
        return s
    def assume(self, *fs):
        for f in fs:
            if f is True: continue
            if isinstance(f, bool): f = z3.BoolVal(f)
            if z3.is_quantifier(f) or (z3.is_expr(f) and has_quant(f)): self.qpc.append(f)
            else: self.pc.append(f)
    # ---- memory
    def rc(self, reg):
        return self.mem.get(reg.id) or RC()
    def wrc(self, reg):
        r = self.mem.get(reg.id)
        r = r.copy() if r else RC()
        self.mem[reg.id] = r
        return r

_hq = {}
def has_quant(f):
    if isinstance(f, bool): return False
    st = [f]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

_syms = {}
def arrays_of(f):
    """ids of the uninterpreted arrays and functions in f"""
    k = f.get_id()
    if k in _syms: return _syms[k][1]
    out = set(); st = [f]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() or z3.is_array(x)): out.add(x.decl().name())
        st.extend(x.children())
    _syms[k] = (f, out)
    return out
def relevant(qs, goal):
    """the quantified hypotheses connected to the goal through arrays or functions"""
    syms = set(arrays_of(goal)); left = list(qs); out = []
    while True:
        hit = [q for q in left if arrays_of(q) & syms]
        if not hit: return out
        out += hit; left = [q for q in left if not any(q is h for h in hit)]
        for q in hit: syms |= arrays_of(q)

def _base_arrays(a):
    """array constants a select on a may reach"""
    out = []; st = [a]
    while st:
        x = st.pop()
        if z3.is_store(x): st.append(x.arg(0))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: st += [x.arg(1), x.arg(2)]
        elif z3.is_const(x): out.append(x.decl().name())
    return out
_sel = {}
def _selects(f):
    """(array name, index) of the ground selects of f, and the universal quantifiers in positive position"""
    k = f.get_id()
    if k in _sel: return _sel[k][1]
    out = {}; st = [f]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen or z3.is_quantifier(x): continue
        seen.add(i)
        if z3.is_select(x) and x.num_args() == 2:
            for n in _base_arrays(x.arg(0)): out[(n, x.arg(1).get_id())] = (n, x.arg(1))
        st.extend(x.children())
    _sel[k] = (f, list(out.values()))
    return _sel[k][1]
_tmpl = {}
def _templates(h):
    """universal hypotheses of one variable as (guard list, quantifier, [(array, offset)]): guards => body[t - offset] for every ground select of array at t"""
    k = h.get_id()
    if k in _tmpl: return _tmpl[k][1]
    out = []
    def go(x, guards):
        if z3.is_and(x):
            for c in x.children(): go(c, guards)
        elif z3.is_implies(x): go(x.arg(1), guards + [x.arg(0)]) if not has_quant(x.arg(0)) else None
        elif z3.is_quantifier(x) and x.is_forall() and x.num_vars() == 1:
            trig = {}; st = [x.body()]; seen = set()
            while st:
                y = st.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_quantifier(y): return
                if z3.is_select(y) and y.num_args() == 2:
                    o = z3.simplify(z3.substitute_vars(y.arg(1), z3.IntVal(0))); o1 = z3.simplify(z3.substitute_vars(y.arg(1), z3.IntVal(1)) - z3.substitute_vars(y.arg(1), z3.IntVal(0)))
                    if z3.is_int_value(o1) and o1.as_long() == 1:
                        for n in _base_arrays(y.arg(0)): trig[(n, o.get_id())] = (n, o)
                st.extend(y.children())
            pats = [x.pattern(i).arg(0) for i in range(x.num_patterns()) if x.pattern(i).num_args() == 1]
            want = set(n for p in pats if z3.is_select(p) for n in _base_arrays(p.arg(0)))
            ts = [v for v in trig.values() if not want or v[0] in want]
            if ts: out.append((guards, x, ts))
        elif not has_quant(x): out.append((guards, None, x))
    go(h, [])
    _tmpl[k] = (h, out)
    return out
_nnf = None
def ground(qs, goal, limit=600):
    """quantifier-free consequences of the hypotheses qs and of not(goal) (skolemised), by instantiating at the selects that occur;
    None when the negated goal keeps a quantifier"""
    global _nnf
    if _nnf is None: _nnf = z3.Tactic("nnf")
    neg = list(_nnf(z3.Not(goal))[0])
    out = []; tm = []
    for h in qs:
        for g, q, ts in _templates(h):
            if q is None: out.append(z3.Implies(z3.And(*g), ts) if g else ts)
            else: tm.append((g, q, ts))
    for f in neg:
        if has_quant(f):
            for g, q, ts in _templates(f):
                if q is None: out.append(z3.Implies(z3.And(*g), ts) if g else ts)
                else: tm.append((g, q, ts))
        else: out.append(f)
    keep = []; done = set(); todo = [f for f in neg if not has_quant(f)]
    if not todo: return None
    n = 0
    for rnd in range(6):
        sel = {}
        for f in todo:
            for a, ix in _selects(f): sel.setdefault(a, {})[ix.get_id()] = ix
        todo = []
        for j, (g, q, ts) in enumerate(tm):
            for a, o in ts:
                for ix in list(sel.get(a, {}).values()):
                    t = z3.simplify(ix - o); k = (j, t.get_id())
                    if k in done: continue
                    done.add(k); keep.append(t); n += 1
                    b = z3.substitute_vars(q.body(), t); f = z3.Implies(z3.And(*g), b) if g else b
                    out.append(f); todo.append(f)
                    if n >= limit: return out
        if not todo: break
    return out

class Oblig:
    __slots__ = ("name", "kind", "fn", "line", "status", "time", "detail", "backend", "smt")
    def __init__(self, name, kind, fn, line):
        self.name, self.kind, self.fn, self.line = name, kind, fn, line
        self.status = None; self.time = 0.0; self.detail = ""; self.backend = "z3"; self.smt = None
    def key(self): return "%s: %s: %s" % (self.fn, self.kind, self.name)

class PathEnd(Exception):
    pass
class SpecError(Exception):
    pass

class Engine:
    def __init__(self, mod, di, contracts=None, models=None, deadline=None, log=None):
        self.mod, self.di = mod, di
        self.contracts = contracts or {}    # mangled -> contract
        self.models = models or []          # list of (regex, fn)
        self.record = True; self.spec = False; self.terms = []
        self.obligs = []
        self.fresh_n = itertools.count()
        self.globals_r = {}
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", 4000)
        self.stack = []
        self.nq = 0; self.tq = 0.0
        self.rotate = False      # cut loops behind their first exit test instead of at their header
        self.cur = None          # contract being verified
        self.max_paths = 20000
        self.paths = 0
        self.deadline = deadline
        self.log = log or (lambda *a: None)
        self.load_hooks = []
        self.axioms = []         # global axioms (may be quantified)
        self.inline_depth = 40
        self.assumed = set()     # trusted models/contracts used
        self.inlined = set(); self.used_contracts = set(); self.used_mangled = set()
        self.qtimeout = 20000
        self.model_cache = {}
        self.loop_notes = []
        self.cand_extra = None
        self.fnname = "?"
        self.dropped = []
        self.unroll_max = 16; self.patience = 1
        self.havoc_cache = {}; self.spec_use = False

    # -------------------------------------------------- fresh
    def fresh(self, name="v"):
        return z3.Int("%s!%d" % (name, next(self.fresh_n)))
    def fresh_int(self, st, w, signed, name="v"):
        v = self.fresh(name)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        st.assume(v >= lo, v <= hi)
        return IntV(v, w, lo, hi)
    def fresh_arr(self, name="a"):
        return z3.Array("%s!%d" % (name, next(self.fresh_n)), z3.IntSort(), z3.IntSort())

    # -------------------------------------------------- solver
    def _sync(self, pc):
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and self.stack[k] is pc[k]: k += 1
        if len(self.stack) > k:
            self.solver.pop(len(self.stack) - k)
            del self.stack[k:]
        for f in pc[k:]:
            self.solver.push(); self.solver.add(f); self.stack.append(f)
    def check_sat(self, st, extra=None):
        if self.deadline and time.time() > self.deadline: raise Unsupported("deadline")
        self.nq += 1; t = time.time()
        self._sync(st.pc)
        if extra is not None:
            self.solver.push(); self.solver.add(extra)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        self.tq += time.time() - t
        return r
    def quick(self, st, f):
        """pc |= f  (quantifier-free part only)"""
        if isinstance(f, bool): return f
        return self.check_sat(st, z3.Not(f)) == z3.unsat
    def feasible(self, st):
        return self.check_sat(st) != z3.unsat
    def full_prove(self, st, f, timeout=None):
        """(status, backend, model/None)"""
        if f is True: return "proved", "trivial", None
        if isinstance(f, bool): f = z3.BoolVal(f)
        if self.deadline and time.time() > self.deadline: return "unknown", "deadline", None
        neg = z3.Not(f)
        if not has_quant(f):
            r = self.check_sat(st, neg)
            if r == z3.unsat: return "proved", "z3", None
            if r == z3.sat and not st.qpc and not self.axioms:
                self._sync(st.pc); self.solver.push(); self.solver.add(neg); self.solver.check()
                try: m = self.solver.model()
                except z3.Z3Exception: m = None
                self.solver.pop()
                return "failed", "z3", m
        t = time.time()
        last = None
        nbad = sum(1 for o in self.obligs if o.status != "proved")
        if nbad >= 8: raise Unsupported("stopped after %d undischarged obligations" % nbad)
        tmo = (timeout or self.qtimeout) // (4 if nbad >= 2 else 1)
        for rel, cfg in ((False, {"auto_config": False, "mbqi": False}), (None, None), (True, {}), (False, {}), (False, {"arith.solver": 2})):
            if rel is None:
                if has_quant(f) and self.by_instances(st, f, tmo // 8): return "proved", "z3", None
                continue
            s = z3.Solver()
            s.set("timeout", tmo // (4 if rel else 1 if not cfg else 2 if "mbqi" not in cfg or not has_quant(f) else 8))
            for k, v in cfg.items():
                try: s.set(k, v)
                except z3.Z3Exception: pass
            for a in st.pc: s.add(a)
            # a second attempt keeps only the quantified hypotheses that are about the arrays the goal is about
            for a in (relevant(self.axioms + st.qpc, f) if rel else self.axioms + st.qpc): s.add(a)
            s.add(neg)
            r = s.check(); self.nq += 1
            if r == z3.unsat:
                self.tq += time.time() - t
                return "proved", "z3", None
            if r == z3.sat and not rel:
                self.tq += time.time() - t
                return "failed", "z3", s.model()
            last = s
            if self.deadline and time.time() > self.deadline: break
        self.tq += time.time() - t
        if self.cvc5(last, 8 if nbad < 2 else 3) == "unsat":
            return "proved", "cvc5", None
        return "unknown", "z3+cvc5", None
    def cvc5(self, s, tmo=8):
        import subprocess, tempfile, os
        txt = "(set-logic ALL)\n" + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix=".smt2"); os.write(fd, txt.encode()); os.close(fd)
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % (tmo * 1000), p], capture_output=True, text=True, timeout=tmo + 5)
            o = r.stdout.strip().split("\n")[0]
        except Exception:
            o = "unknown"
        finally:
            os.unlink(p)
        return o

    # -------------------------------------------------- obligations
    def here(self, st):
        if st.frames:
            f = st.frames[-1]
            b = f.fn.blocks[f.blk]
            i = b.ins[min(f.idx, len(b.ins) - 1)]
            return self.short(f.fn.name), self.di.line(i.dbg) if i.dbg else None
        return self.fnname, None
    def short(self, mangled):
        d = self.mod.dem(mangled)
        return d.split("(")[0].split(" ")[-1] if "operator" not in d else d[:80]
    def oblige(self, st, f, kind, desc):
        if self.spec:
            if f is False: raise SpecError(desc)
            return True
        if f is True and kind in ("mem", "nsw", "div"):
            # trivially true by construction: still an obligation, discharged syntactically
            if self.record:
                fn, line = self.here(st)
                o = Oblig(desc, kind, fn, line); o.status = "proved"; o.backend = "syntactic"
                self.obligs.append(o)
            return True
        if self.record:
            fn, line = self.here(st)
            o = Oblig(desc, kind, fn, line)
            t = time.time()
            o.status, o.backend, m = self.full_prove(st, f)
            o.time = time.time() - t
            if o.status != "proved":
                o.detail = self.describe(st, m, f)
                if self.cur is not None and hasattr(self.cur, "on_fail"): self.cur.on_fail(self, st, o, m)
            self.obligs.append(o)
            ok = o.status == "proved"
        else:
            ok = None
        st.assume(f)
        if f is False: raise PathEnd()
        if ok is False and not self.feasible(st): raise PathEnd()
        return ok
    def oblige_at(self, st, f, kind, desc, fn):
        """obligation at function exit; does not constrain the state"""
        if not self.record: return
        o = Oblig(desc, kind, fn, None); t = time.time()
        o.status, o.backend, m = self.full_prove(st, f)
        o.time = time.time() - t
        if o.status != "proved":
            o.detail = self.describe(st, m, B(f))
            if self.cur is not None and hasattr(self.cur, "on_fail"): self.cur.on_fail(self, st, o, m)
        self.obligs.append(o)
    def init_tracking(self):
        Region.sink = self.tracked
    def stop_tracking(self):
        Region.sink = None
    def note_copy(self, st, na, da, di, n, sa, si):
        for h in getattr(self, "copy_hooks", ()): h(st, na, da, di, n, sa, si)
    def describe(self, st, m, f):
        s = "obligation: %s\npath: %s\n" % (str(f)[:2000], " -> ".join(st.trail[-40:]))
        if m is not None:
            try:
                ds = sorted((str(d), str(m[d])[:200]) for d in m.decls())
                s += "counterexample: " + ", ".join("%s=%s" % x for x in ds[:150])
            except Exception as e:
                s += "counterexample: <%s>" % e
        return s

    # -------------------------------------------------- canonical forms
    def u(self, st, v):
        """unsigned canonical term of an IntV"""
        if v.lo is not None and v.lo >= 0 and v.hi < (1 << v.w): return v.t
        if isc(v.t): return v.t % (1 << v.w)
        if (v.lo is not None and v.lo >= -(1 << v.w) and v.hi < (1 << v.w)):
            if self.quick(st, v.t >= 0): return v.t
            if self.quick(st, v.t < 0): return v.t + (1 << v.w)
            return z3.If(v.t < 0, v.t + (1 << v.w), v.t)
        return v.t % (1 << v.w)
    def s(self, st, v):
        h = 1 << (v.w - 1)
        if v.lo is not None and v.lo >= -h and v.hi < h: return v.t
        if isc(v.t):
            x = v.t % (1 << v.w); return x - (1 << v.w) if x >= h else x
        if v.lo is not None and v.lo >= 0 and v.hi < 2 * h:
            if self.quick(st, v.t < h): return v.t
            return z3.If(v.t >= h, v.t - 2 * h, v.t)
        x = v.t % (1 << v.w)
        return z3.If(x >= h, x - 2 * h, x)
    def uiv(self, st, v):
        """(term, lo, hi) unsigned"""
        t = self.u(st, v)
        if v.lo is not None and v.lo >= 0 and v.hi < (1 << v.w): return t, v.lo, v.hi
        if t is v.t and v.hi is not None: return t, 0, min(v.hi, (1 << v.w) - 1)
        return t, 0, (1 << v.w) - 1
    def siv(self, st, v):
        t = self.s(st, v); h = 1 << (v.w - 1)
        if v.lo is not None and v.lo >= -h and v.hi < h: return t, v.lo, v.hi
        return t, -h, h - 1
    def norm(self, st, t, w, lo, hi):
        """normalise mathematical term t (lo<=t<=hi if known) to a canonical form of width w"""
        M = 1 << w; h = M >> 1
        if isc(t): 
            t %= M
            return IntV(t, w)
        if lo is not None and lo >= 0 and hi < M: return IntV(t, w, lo, hi)
        if lo is not None and lo >= -h and hi < h: return IntV(t, w, lo, hi)
        if self.quick(st, z3.And(t >= 0, t < M)): return IntV(t, w, max(0, lo if lo is not None else 0), min(M - 1, hi if hi is not None else M - 1))
        if self.quick(st, z3.And(t >= -h, t < h)): return IntV(t, w, -h, h - 1)
        if lo is not None and lo >= -M and hi < 2 * M:
            r = t
            if hi >= M: r = z3.If(t >= M, t - M, r)
            if lo < 0: r = z3.If(t < 0, t + M, r)
            x = self.fresh("nrm"); st.assume(x == r, x >= 0, x < M)
            return IntV(x, w, 0, M - 1)
        x = self.fresh("nrm"); q = self.fresh("q")
        st.assume(t == q * M + x, x >= 0, x < M)
        return IntV(x, w, 0, M - 1)

    # -------------------------------------------------- regions
    def new_region(self, name, size, kind, **kw):
        r = Region(name, size, kind, **kw)
        return r
    def buffer(self, st, name, es=1, signed=False, size=None, ro=False, maxsize=1 << 62):
        """symbolic array region of symbolic byte size"""
        if size is None:
            n = self.fresh(name + ".n"); st.assume(n >= 0, n <= maxsize // es)
        else:
            n = size
        r = Region(name, tmul(n, es), "sym", ro=ro)
        s = Seg(0, es, n, signed); r.segs.append(s)
        r.isegs[0] = z3.Array("%s.a!%d" % (name, next(self.fresh_n)), z3.IntSort(), z3.IntSort())
        return r
    def object(self, st, name, cls, kind="sym", uninit=False):
        k = cls if cls.startswith("!") else self.di.struct(cls)
        if k is None: raise Unsupported("class %s not found" % cls)
        r = Region(name, self.di.size(k), kind, di=k, uninit=uninit)
        self._grid(r)
        return r
    def _grid(self, r):
        r.digrid = {}
        for path, off, kind in self.di.flatten(r.di):
            if kind[0] == "array":
                es = kind[1]
                if es is not None and kind[3] > 0:
                    r.segs.append(Seg(off, kind[2], kind[3], es[0] == "int" and es[2], es[0] == "ptr"))
            else:
                r.digrid[off] = kind
    def global_region(self, st, name):
        if name in self.globals_r: return self.globals_r[name]
        g = self.mod.glob(name)
        if g is None: raise Unsupported("global " + name)
        sz = self.mod.size(g.ty)
        r = Region("@" + name, sz, "global", ro=g.const)
        self.globals_r[name] = r
        if name.startswith(("_ZTI", "_ZTS")): r.opaque = True; return r      # run-time type information
        for (o, es, n) in self.mod.array_segs(g.ty): r.segs.append(Seg(o, es, n, False))
        t = self.mod.resolve(g.ty)
        if t.k == "struct" and g.const and not r.segs and all(self.mod.resolve(x).k == "int" and self.mod.resolve(x).a == 8 for x in t.a): r.segs.append(Seg(0, 1, sz, False))
        if g.init is not None and g.const:
            self._init(st, r, 0, g.ty, g.init)
        elif g.init is not None:
            if "g_fatal_error_occurred" in name: self._init(st, r, 0, g.ty, g.init); return r    # set only just before the process ends: see contract.verify
            # a static variable: its value at function entry is whatever earlier calls left there
            r.digrid = {0: ("int", sz, False)} if t.k == "int" else None
        else:
            r.opaque = True
        return r
    def _init(self, st, r, off, ty, v):
        t = self.mod.resolve(ty)
        if t.k == "int":
            x = 0 if v[0] == "zero" else v[1] if v[0] == "int" else None
            if x is None: raise Unsupported("init")
            s = r.seg_at(off)
            x %= (1 << t.a)
            if s is not None: r.isegs.setdefault(s.start, {})[(off - s.start) // s.es] = x
            else: r.icells[off] = (self.mod.size(t), IntV(x, max(8, t.a)))
        elif t.k == "ptr":
            if v[0] in ("null", "zero"): val = NULLP
            else: val = self.operand(st, ir.PTR, v)
            s = r.seg_at(off)
            if s is not None: s.ptr = True
            r.icells[off] = (8, val)
        elif t.k == "arr":
            es = self.mod.size(t.b)
            for i in range(t.a):
                if v[0] == "zero": self._init(st, r, off + i * es, t.b, ("zero",))
                elif v[0] == "bytes": self._init(st, r, off + i, t.b, ("int", v[1][i]))
                else: self._init(st, r, off + i * es, t.b, v[1][i][1])
        elif t.k == "struct":
            for i, x in enumerate(t.a):
                self._init(st, r, off + self.mod.field_off(t, i), x, ("zero",) if v[0] == "zero" else v[1][i][1])
        else:
            raise Unsupported("init type")

    # -------------------------------------------------- pointers
    def gep_add(self, st, p, delta, inb=True, desc="pointer arithmetic"):
        """p + delta bytes (delta int/term/Lin)"""
        d = Lin.of(delta)
        if d.const() and d.c == 0: return p
        if isinstance(p, OpaqueV): return p
        if not isinstance(p, PtrV): raise Unsupported("gep on %r" % (p,))
        seg = p.seg
        if p.reg is None:
            if inb: self.oblige(st, teq(d.z(), 0), "mem", "arithmetic on null pointer")
            return p
        if seg is None and p.off.const() and not d.const():
            seg = p.reg.seg_at(p.off.c)
        off = p.off.add(d)
        if off.const(): seg = None if seg is None or p.reg.seg_at(off.c) is not None else seg
        q = PtrV(p.reg, off, seg)
        if inb:
            o = off.z()
            # one element before the start is tolerated (formed, never dereferenced, by varint encoding)
            lo = -1
            if off.const() and isc(p.reg.size):
                self.oblige(st, lo <= o <= p.reg.size, "mem", desc)
            else:
                self.oblige(st, tand(tle(lo, o), tle(o, p.reg.size)), "mem", desc + " stays within " + p.reg.name)
        return q

    def locate(self, st, p, size, what):
        """check access and return ('cell', off) or ('seg', seg, index term)"""
        if isinstance(p, OpaqueV): raise Unsupported("access to opaque object " + p.tag)
        if p is UNDEF:
            self.oblige(st, False, "mem", what + " through uninitialised pointer")
        if not isinstance(p, PtrV): raise Unsupported("access through %r" % (p,))
        if p.reg is None:
            self.oblige(st, False, "mem", what + " through null pointer")
            raise PathEnd()
        r = p.reg
        if r.id in st.dead:
            self.oblige(st, False, "mem", what + " after free of " + r.name)
            raise PathEnd()
        o = p.off
        if getattr(r, "opaque", False): raise Unsupported("opaque global " + r.name)
        if o.const():
            s = r.seg_at(o.c)
            inb = (o.c >= 0 and o.c + size <= r.size) if isc(r.size) else tand(o.c >= 0, tle(o.c + size, r.size))
            self.oblige(st, inb, "mem", "%s within %s" % (what, r.name))
            if s is None and not r.segs and r.kind == "heap" and not isc(r.size):
                s = Seg(0, size, None); s.count = tdiv(r.size, size); r.segs.append(s)
            if s is not None and (not s.ptr or s.fam is not None):
                if (o.c - s.start) % s.es or size != s.es:
                    return ("segx", s, o.c - s.start)
                return ("seg", s, (o.c - s.start) // s.es)
            return ("cell", o.c)
        s = p.seg
        if s is None:
            if len(r.segs) == 1: s = r.segs[0]
            elif not r.segs and (r.kind in ("heap",) or r.uninit):
                s = Seg(0, size, tdiv(r.size, size)); r.segs.append(s)
            else: raise Unsupported("symbolic offset into %s" % r.name)
        rel = o.add(-s.start)
        z = rel.z()
        self.oblige(st, tand(tle(0, z), tle(tadd(z, size), tmul(s.count, s.es))), "mem", "%s within %s" % (what, r.name))
        if size != s.es:
            return ("segx", s, z)
        idx = rel.div(s.es)
        if idx is None:
            self.oblige(st, teq(tmod(z, s.es), 0), "mem", "aligned %s in %s" % (what, r.name))
            idx = tdiv(z, s.es)
        else:
            idx = idx.z()
        return ("seg", s, idx)

    def absorbed(self, st, r):
        """the family row that r has become, if any"""
        return st.ghost.get(("absorbed", r.id), r)
    def set_seg(self, st, r, start, arr):
        r = self.absorbed(st, r); row = getattr(r, "row", None)
        if row is None:
            st.wrc(r).segs[start] = arr; self.note_write(st, r, ("seg", start)); return
        fam, h = row
        st.wrc(fam.reg).segs[0] = z3.Store(fam.mem(st), h, arr); self.note_write(st, fam.reg, ("seg", 0))
    def handle(self, st, fam, v):
        """the handle of a pointer stored into a pointer array"""
        if v.reg is None: return 0
        if not (v.off.const() and v.off.c == 0): raise Unsupported("interior pointer stored in a pointer array")
        r = self.absorbed(st, v.reg); row = getattr(r, "row", None)
        if row is not None:
            if row[0] is not fam: raise Unsupported("pointer into another family")
            return row[1]
        if r.kind != "heap": raise Unsupported("pointer to %s stored in a pointer array" % r.name)
        if r.segs:
            if len(r.segs) != 1 or r.segs[0].start: raise Unsupported("row shape")
            if fam.es is None: fam.es, fam.count, fam.signed = r.segs[0].es, r.segs[0].count, r.segs[0].signed
            if r.segs[0].es != fam.es: raise Unsupported("row element size")
            arr = self.seg_arr(st, r, r.segs[0])
        else:
            if fam.es is None: raise Unsupported("row of unknown shape")
            arr = self.fresh_arr("row")
        same = teq(r.size, tmul(fam.count, fam.es))
        if same is not True and not self.quick(st, B(same)): raise Unsupported("rows of different sizes")
        h = self.fresh("row"); st.assume(h == fam.count_of(st) + 1, h >= 1)
        st.wrc(fam.cnt).cells[0] = (8, IntV(h, 64, -(1 << 63), (1 << 63) - 1)); self.note_write(st, fam.cnt, ("cell", 0, 8))
        st.ghost[("absorbed", r.id)] = fam.row(h)
        st.wrc(fam.reg).segs[0] = z3.Store(fam.mem(st), h, arr); self.note_write(st, fam.reg, ("seg", 0))
        return h

    def seg_arr(self, st, r, s):
        r = self.absorbed(st, r)
        row = getattr(r, "row", None)
        if row is not None:
            if s.es != row[0].es: raise Unsupported("row accessed with another element size")
            return z3.Select(row[0].mem(st), row[1])
        a = st.rc(r).segs.get(s.start)
        if a is None:
            a = r.isegs.get(s.start)
            if a is None or isinstance(a, dict):
                d = a
                a = z3.Array("%s.%d.a!%d" % (r.name, s.start, next(self.fresh_n)), z3.IntSort(), z3.IntSort())
                if isinstance(d, dict):
                    # constant global table: array given by its entries
                    r.isegs[("tab", s.start)] = d
                    k = a
                    for i, v in sorted(d.items()):
                        k = z3.Store(k, i, v)
                    a = k
                r.isegs[s.start] = a
        return a

    def elem_range(self, s):
        w = 8 * s.es
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s.signed else (0, (1 << w) - 1)

    def load(self, st, p, ty, what="read"):
        ty = self.mod.resolve(ty) if isinstance(ty, ir.Ty) else ty
        size = self.mod.size(ty)
        loc = self.locate(st, p, size, what)
        r = p.reg
        if loc[0] == "seg":
            s, i = loc[1], loc[2]
            if r.uninit and ("init", s.start) not in st.ghost.get(("seginit", r.id), ()):
                pass
            tab = r.isegs.get(("tab", s.start)) if st.rc(r).segs.get(s.start) is None else None
            if tab is None and isinstance(r.isegs.get(s.start), dict) and st.rc(r).segs.get(s.start) is None:
                tab = r.isegs[s.start]
            if tab is not None and isc(i): 
                v = tab[i]
                return IntV(v, 8 * s.es) if ty.a != 1 else BoolV(v != 0)
            if r.uninit and self.absorbed(st, r) is r and s.start not in st.rc(r).segs and s.start not in r.isegs:
                self.oblige(st, False, "uninit", "read of uninitialised memory in " + r.name)
                raise PathEnd()
            a = self.seg_arr(st, r, s)
            lo, hi = self.elem_range(s)
            t = z3.Select(a, Z(i))
            if s.fam is not None:
                if ty.k != "ptr": raise Unsupported("pointer array read as integers")
                if self.quick(st, t == 0) or self.holds(st, t == 0): return NULLP
                if self.quick(st, t != 0) or self.holds(st, t != 0): return PtrV(s.fam.row(t), 0)
                raise Fork(t == 0)
            t2 = z3.simplify(t)
            if z3.is_int_value(t2): return IntV(t2.as_long(), 8 * s.es)
            st.assume(t >= lo, t <= hi)
            for h in self.load_hooks: h(st, r, s, a, i, t)
            return IntV(t, 8 * s.es, lo, hi)
        if loc[0] == "segx":
            s, z = loc[1], loc[2]
            if s.es == 1 and ty.k == "int":
                # little-endian composition of bytes
                acc = 0
                a = self.seg_arr(st, r, s)
                for k in range(size):
                    b = z3.Select(a, Z(tadd(z, k))); st.assume(b >= 0, b <= 255)
                    acc = tadd(acc, tmul(b, 1 << (8 * k)))
                return IntV(acc, 8 * size, 0, (1 << (8 * size)) - 1)
            raise Unsupported("mixed-size access in " + r.name)
        off = loc[1]
        c = st.rc(r).cells.get(off)
        if c is None: c = r.icells.get(off)
        if c is None:
            if r.uninit:
                for o2, (sz2, _) in st.rc(r).cells.items():
                    if o2 < off < o2 + sz2: raise Unsupported("partial cell read in " + r.name)
                return UNDEF
            c = (size, self.lazy(st, r, off, ty, size))
            r.icells[off] = c
        if c[0] != size:
            raise Unsupported("cell size mismatch in %s at %d" % (r.name, off))
        v = c[1]
        if isinstance(v, IntV) and not isc(v.t) and off in r.icells and r.icells[off] is c:
            # range facts of symbolic initial cells
            st.assume(v.t >= v.lo, v.t <= v.hi)
        if ty.k == "int" and isinstance(v, PtrV): return PIntV(v)
        if ty.k == "ptr" and isinstance(v, IntV):
            if isc(v.t) and v.t == 0: return NULLP
            raise Unsupported("int as pointer")
        return v

    def lazy(self, st, r, off, ty, size):
        kind = (r.digrid or {}).get(off)
        nm = "%s+%d" % (r.name, off)
        if ty.k == "ptr": raise Unsupported("pointer field at %s+%d has no shape" % (r.name, off))
        signed = bool(kind and kind[0] == "int" and kind[2])
        w = 8 * size
        if kind and kind[0] == "bool":
            b = z3.Bool("%s!%d" % (nm, next(self.fresh_n)))
            return IntV(z3.If(b, 1, 0), 8, 0, 1, b)
        v = z3.Int("%s!%d" % (nm, next(self.fresh_n)))
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return IntV(v, w, lo, hi)

    def note_write(self, st, r, what):
        if st.writes is not None:
            st.writes.add((r, what))
        if r.kind == "global" and not st.ghost.get("guards"): st.ghost["statics"] = st.ghost.get("statics", frozenset()) | {r.name}

    def store(self, st, p, ty, v, what="write"):
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        loc = self.locate(st, p, size, what)
        r = p.reg
        if r.ro:
            self.oblige(st, False, "frame", "write to read-only " + r.name)
        if loc[0] == "seg":
            s, i = loc[1], loc[2]
            if isinstance(v, PtrV) and s.es == 8 and (s.fam is not None or r.kind == "heap"):
                if s.fam is None:
                    s.fam = Family(r.name); s.fam.cnt.icells[0] = (8, IntV(0, 64))
                s.ptr = True
                t = self.handle(st, s.fam, v)
                self.set_seg(st, r, s.start, z3.Store(self.seg_arr(st, r, s), Z(i), Z(t))); return
            if isinstance(v, PtrV) or isinstance(v, FnV): raise Unsupported("pointer into int array")
            if v is UNDEF: raise Unsupported("undef into array")
            if isinstance(v, BoolV): v = IntV(tite(v.b, 1, 0), 8, 0, 1)
            t = self.s(st, v) if s.signed else self.u(st, v)
            new = r.uninit and s.start not in st.rc(r).segs and s.start not in r.isegs
            a = self.seg_arr(st, r, s)
            self.set_seg(st, r, s.start, z3.Store(a, Z(i), Z(t)))
            return
        if loc[0] == "segx":
            raise Unsupported("mixed-size write in " + r.name)
        off = loc[1]
        rc = st.wrc(r)
        for o2 in list(rc.cells):
            if o2 != off and o2 < off + size and off < o2 + rc.cells[o2][0]: raise Unsupported("overlapping cell write")
        rc.cells[off] = (size, v)
        self.note_write(st, r, ("cell", off, size))

    # -------------------------------------------------- operands
    def operand(self, st, ty, v):
        k = v[0]
        if k == "reg": return st.frames[-1].regs[v[1]]
        if k == "int":
            t = self.mod.resolve(ty)
            if t.a == 1: return BoolV(bool(v[1]))
            return IntV(v[1], t.a)
        if k == "null": return NULLP
        if k == "undef": return UNDEF
        if k == "zero":
            t = self.mod.resolve(ty)
            if t.k == "ptr": return NULLP
            if t.k == "int": return IntV(0, t.a)
            raise Unsupported("zeroinitializer operand")
        if k == "glob":
            n = v[1]
            n = self.mod.aliases.get(n, n)
            if n in self.mod.funcs or n in self.mod.decls: return FnV(n)
            return PtrV(self.global_region(st, n), 0)
        if k == "cgep":
            base = self.operand(st, ir.PTR, v[2][0][1])
            return self.gep(st, base, v[1], v[2][1:], True)
        if k == "ccast":
            x = self.operand(st, v[2], v[3])
            if v[1] == "ptrtoint": return PIntV(x)
            return x
        if k == "agg":
            return AggV([self.operand(st, t, x) for t, x in v[1]])
        raise Unsupported("operand %r" % (v,))

    def gep(self, st, base, bt, idx, inb):
        t = bt; d = Lin(0); first = True
        for ity, iv in idx:
            x = self.operand(st, ity, iv)
            if first:
                sc = self.mod.size(t); first = False
            else:
                rt = self.mod.resolve(t)
                if rt.k == "struct":
                    i = x.t
                    d = d.add(self.mod.field_off(rt, i)); t = rt.a[i]
                    continue
                t = rt.b; sc = self.mod.size(t)
                # entering an array member: bind the pointer to that member's segment
                if not isc(x.t) and isinstance(base, PtrV) and base.reg is not None:
                    base = self.gep_add(st, base, d, inb); d = Lin(0)
            if isinstance(x, PIntV): raise Unsupported("gep index ptr")
            if x is UNDEF:
                self.oblige(st, False, "uninit", "uninitialised index"); raise PathEnd()
            xt = self.s(st, x)
            d = d.add(Lin.of(xt).scale(sc))
        return self.gep_add(st, base, d, inb)

    # -------------------------------------------------- booleans
    def boolof(self, v):
        if isinstance(v, BoolV): return v.b
        raise Unsupported("bool expected: %r" % (v,))

    def icmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            self.oblige(st, False, "uninit", "comparison of uninitialised value"); raise PathEnd()
        if isinstance(a, BoolV) and isinstance(b, IntV): b = BoolV(bool(b.t))
        if isinstance(b, BoolV) and isinstance(a, IntV): a = BoolV(bool(a.t))
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            e = (B(a.b) == B(b.b)) if not (isinstance(a.b, bool) and isinstance(b.b, bool)) else a.b == b.b
            return e if pred == "eq" else tnot(e)
        if isinstance(a, PIntV): a = a.p
        if isinstance(b, PIntV): b = b.p
        if isinstance(a, (PtrV, FnV, OpaqueV)) or isinstance(b, (PtrV, FnV, OpaqueV)):
            if isinstance(a, IntV) and isc(a.t) and a.t == 0: a = NULLP
            if isinstance(b, IntV) and isc(b.t) and b.t == 0: b = NULLP
            def isnull(x): return isinstance(x, PtrV) and x.reg is None
            if isinstance(a, (FnV, OpaqueV)) or isinstance(b, (FnV, OpaqueV)):
                same = (a is b) or (isinstance(a, FnV) and isinstance(b, FnV) and a.name == b.name)
                if isnull(a) or isnull(b): same = False
                if pred == "eq": return same
                if pred == "ne": return not same
                raise Unsupported("fn compare")
            if a.reg is b.reg:
                x, y = a.off.z(), b.off.z()
                d = a.off.add(b.off, -1)
                if d.const(): x, y = d.c, 0
            else:
                if pred in ("eq", "ne"):
                    if isnull(a) or isnull(b):
                        return pred == "ne"
                    # distinct objects: equality is unspecified only one past the end
                    return pred == "ne"
                if isnull(a) or isnull(b):
                    x = 0 if isnull(a) else 1; y = 0 if isnull(b) else 1
                else:
                    self.oblige(st, False, "mem", "relational comparison of pointers into different objects %s, %s" % (a.reg.name, b.reg.name))
                    raise PathEnd()
            return {"eq": teq(x, y), "ne": tnot(teq(x, y)), "ult": tlt(x, y), "ule": tle(x, y), "ugt": tlt(y, x), "uge": tle(y, x)}[pred]
        if pred in ("eq", "ne"):
            M = 1 << a.w; h = M >> 1
            def inr(v, lo, hi): return v.lo is not None and v.lo >= lo and v.hi <= hi
            if (inr(a, 0, M - 1) and inr(b, 0, M - 1)) or (inr(a, -h, h - 1) and inr(b, -h, h - 1)):
                x, y = a.t, b.t
            elif inr(a, -h, h - 1) or inr(b, -h, h - 1):
                x, y = self.s(st, a), self.s(st, b)
            else:
                x, y = self.u(st, a), self.u(st, b)
            e = teq(x, y)
            return e if pred == "eq" else tnot(e)
        if pred[0] == "u": x, y = self.u(st, a), self.u(st, b)
        else: x, y = self.s(st, a), self.s(st, b)
        return {"lt": tlt(x, y), "le": tle(x, y), "gt": tlt(y, x), "ge": tle(y, x)}[pred[1:]]

    # -------------------------------------------------- arithmetic
    def binop(self, st, op, w, a, b, flags):
        if a is UNDEF or b is UNDEF:
            self.oblige(st, False, "uninit", "arithmetic on uninitialised value"); raise PathEnd()
        if w == 1:
            x, y = self.boolof(a), self.boolof(b)
            if op == "xor":
                if y is True: return BoolV(tnot(x))
                if y is False: return BoolV(x)
                return BoolV(z3.Xor(B(x), B(y)))
            if op == "and": return BoolV(tand(x, y))
            if op == "or": return BoolV(tor(x, y))
            raise Unsupported("i1 " + op)
        if isinstance(a, PIntV) or isinstance(b, PIntV):
            if op == "sub" and isinstance(a, PIntV) and isinstance(b, PIntV):
                if a.p.reg is not b.p.reg:
                    self.oblige(st, False, "mem", "difference of pointers into different objects"); raise PathEnd()
                d = a.p.off.add(b.p.off, -1)
                return IntV(d.z(), w, -(1 << 62), 1 << 62)
            raise Unsupported("ptrtoint arithmetic")
        M = 1 << w; h = M >> 1
        def combine(f, a_, b_):
            # interval of f over corners
            xs = [f(p, q) for p in (a_[1], a_[2]) for q in (b_[1], b_[2])]
            return min(xs), max(xs)
        if op in ("add", "sub", "mul"):
            f = {"add": tadd, "sub": tsub, "mul": tmul}[op]
            pf = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
            if "nsw" in flags:
                A, Bv = self.siv(st, a), self.siv(st, b)
                t = f(A[0], Bv[0]); lo, hi = combine(pf, A, Bv)
                if lo >= -h and hi < h:
                    self.oblige(st, True, "nsw", "signed %s does not overflow" % op)
                elif isc(t):
                    self.oblige(st, -h <= t < h, "nsw", "signed %s does not overflow" % op)
                else:
                    self.oblige(st, z3.And(t >= -h, t < h), "nsw", "signed %s does not overflow" % op)
                return IntV(t, w, max(lo, -h), min(hi, h - 1))
            # modular: any congruent representative works; prefer unsigned, but keep negative constants small
            def rep(v):
                if isc(v.t):
                    x = v.t % M
                    y = x - M if x >= h and op != "mul" and x >= M - (1 << 20) else x
                    return (y, y, y)
                return self.uiv(st, v)
            A, Bv = rep(a), rep(b)
            t = f(A[0], Bv[0]); lo, hi = combine(pf, A, Bv)
            return self.norm(st, t, w, lo, hi)
        if op in ("udiv", "urem"):
            A, Bv = self.uiv(st, a), self.uiv(st, b)
            self.oblige(st, tnot(teq(Bv[0], 0)), "div", "divisor is not zero")
            if isc(A[0]) and isc(Bv[0]): return IntV(A[0] // Bv[0] if op == "udiv" else A[0] % Bv[0], w)
            if isc(Bv[0]):
                q = Z(A[0]) / Z(Bv[0]); r = Z(A[0]) % Z(Bv[0])
            else:
                q, r = IDIV(Z(A[0]), Bv[0]), IMOD(Z(A[0]), Bv[0]); st.assume(*divmod_facts(A[0], Bv[0]))
            if op == "udiv": return IntV(q, w, 0, A[2] // max(1, Bv[1]))
            return IntV(r, w, 0, min(A[2], max(0, Bv[2] - 1)))
        if op in ("sdiv", "srem"):
            A, Bv = self.siv(st, a), self.siv(st, b)
            self.oblige(st, tnot(teq(Bv[0], 0)), "div", "divisor is not zero")
            if "exact" in flags and isc(Bv[0]) and not isc(A[0]):
                l = Lin.of(A[0]).div(Bv[0])
                if l is not None: return IntV(l.z(), w, -(abs(A[1]) // Bv[0]) - 1, abs(A[2]) // Bv[0] + 1)
            if isc(A[0]) and isc(Bv[0]):
                q = abs(A[0]) // abs(Bv[0]); q = q if (A[0] < 0) == (Bv[0] < 0) else -q
                return IntV(q if op == "sdiv" else A[0] - q * Bv[0], w)
            self.oblige(st, tnot(tand(teq(A[0], -h), teq(Bv[0], -1))), "div", "signed division does not overflow")
            x, y = Z(A[0]), Z(Bv[0])
            if (A[1] >= 0 or self.quick(st, x >= 0)) and (Bv[1] > 0 or self.quick(st, y > 0)):
                if isc(Bv[0]): q, r = x / y, x % y
                else:
                    q, r = IDIV(x, y), IMOD(x, y); st.assume(*divmod_facts(x, y))
                return IntV(q, w, 0, max(0, A[2])) if op == "sdiv" else IntV(r, w, 0, max(0, A[2]))
            if not isc(Bv[0]) : raise Unsupported("sdiv by negative")
            ay = abs(Bv[0])
            qa = z3.If(x >= 0, x / ay, -((-x) / ay))
            q = qa if Bv[0] > 0 else -qa
            if op == "sdiv": return IntV(q, w, -h, h - 1)
            return IntV(x - q * y, w, -h, h - 1)
        if op in ("shl", "lshr", "ashr"):
            if not isc(b.t):
                # case split on a small range
                lo, hi = b.lo, b.hi
                if lo is not None and 0 <= lo and hi < w and hi - lo <= 8:
                    acc = None
                    for k in range(lo, hi + 1):
                        x = self.binop(st, op, w, a, IntV(k, w), ())
                        acc = x if acc is None else IntV(z3.If(Z(b.t) == k, Z(self.u(st, x)), Z(self.u(st, acc))), w, 0, M - 1)
                    return acc
                raise Unsupported("variable shift")
            k = b.t
            self.oblige(st, 0 <= k < w, "nsw", "shift amount in range")
            if op == "shl":
                A = self.uiv(st, a) if not (a.lo is not None and a.lo >= 0) else (a.t, a.lo, a.hi)
                return self.norm(st, tmul(A[0], 1 << k), w, A[1] << k, A[2] << k)
            if op == "lshr":
                A = self.uiv(st, a); return IntV(tdiv(A[0], 1 << k), w, A[1] >> k, A[2] >> k)
            A = self.siv(st, a); return IntV(tdiv(A[0], 1 << k), w, A[1] >> k, A[2] >> k)
        if op == "and":
            if isc(a.t) and not isc(b.t): a, b = b, a
            if isc(a.t) and isc(b.t): return IntV((a.t % M) & (b.t % M), w)
            if isc(b.t):
                m = b.t % M
                if m == 0: return IntV(0, w)
                if m == M - 1: return a
                # contiguous mask (2^k-1)<<s
                sft = (m & -m).bit_length() - 1
                if (m >> sft) & ((m >> sft) + 1) == 0:
                    k = (m >> sft).bit_length()
                    if sft + k == w:
                        A = self.uiv(st, a)
                        return IntV(tmul(tdiv(A[0], 1 << sft), 1 << sft), w, 0, A[2])
                    if a.lo is not None and a.lo >= 0 and a.hi <= m and sft == 0: return a
                    return IntV(tmul(tmod(tdiv(a.t, 1 << sft), 1 << k), 1 << sft), w, 0, m)
                # general mask: sum of bits
                acc = 0
                for k in range(w):
                    if m >> k & 1: acc = tadd(acc, tmul(tmod(tdiv(a.t, 1 << k), 2), 1 << k))
                return IntV(acc, w, 0, m)
            # x & (x-1): power-of-two test and other variable masks, through bit-vectors
            x, y = Z(self.u(st, a)), Z(self.u(st, b))
            r = BAND(x, y)
            st.assume(r >= 0, r <= x, r <= y)
            return IntV(r, w, 0, (1 << w) - 1)
        if op == "or":
            if isc(a.t) and not isc(b.t): a, b = b, a
            if isc(a.t) and isc(b.t): return IntV((a.t % M) | (b.t % M), w)
            if isc(b.t):
                m = b.t % M
                A = self.uiv(st, a)
                low = (m & -m)
                if A[2] < low: return IntV(tadd(A[0], m), w, A[1] + m, A[2] + m)
                acc = A[0]
                for k in range(w):
                    if m >> k & 1: acc = tadd(acc, tmul(tsub(1, tmod(tdiv(A[0], 1 << k), 2)), 1 << k))
                return IntV(acc, w, 0, M - 1)
            A, Bv = self.uiv(st, a), self.uiv(st, b)
            for (P, Q) in ((A, Bv), (Bv, A)):
                k = Q[2].bit_length()
                cands = [k] if k < w else []
                for kk in (16, 8, 7):
                    if kk not in cands: cands.append(kk)
                for kk in cands:
                    if self.quick(st, z3.And(Z(Q[0]) < (1 << kk), Z(P[0]) % (1 << kk) == 0)):
                        return IntV(tadd(P[0], Q[0]), w, 0, M - 1)
            return self.bv(st, op, w, a, b)
        if op == "xor":
            if isc(b.t) and b.t % M == M - 1:
                A = self.siv(st, a); return IntV(tsub(-1, A[0]), w, -1 - A[2], -1 - A[1])
            if isc(a.t) and isc(b.t): return IntV((a.t % M) ^ (b.t % M), w)
            return self.bv(st, op, w, a, b)
        raise Unsupported(op)

    def bv(self, st, op, w, a, b):
        x = z3.Int2BV(Z(self.u(st, a)), w); y = z3.Int2BV(Z(self.u(st, b)), w)
        r = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
        t = z3.BV2Int(r)
        v = self.fresh("bv"); st.assume(v == t, v >= 0, v < (1 << w))
        if op == "and":
            st.assume(v <= self.u(st, a), v <= self.u(st, b))
        return IntV(v, w, 0, (1 << w) - 1)

    def cast(self, st, op, ft, tt, v):
        if v is UNDEF: return UNDEF
        if op == "ptrtoint": return PIntV(v)
        if op == "inttoptr":
            if isinstance(v, PIntV): return v.p
            raise Unsupported("inttoptr")
        if op == "bitcast": return v
        if isinstance(v, PIntV): raise Unsupported("cast of pointer int")
        if op == "zext":
            if isinstance(v, BoolV):
                return IntV(tite(v.b, 1, 0), tt.a, 0, 1, v.b)
            t, lo, hi = self.uiv(st, v)
            return IntV(t, tt.a, lo, hi, v.b)
        if op == "sext":
            if isinstance(v, BoolV): return IntV(tite(v.b, -1, 0), tt.a, -1, 0)
            t, lo, hi = self.siv(st, v)
            return IntV(t, tt.a, lo, hi)
        if op == "trunc":
            if tt.a == 1:
                if v.b is not None: return BoolV(v.b)
                if isc(v.t): return BoolV(bool(v.t & 1))
                return BoolV(z3.simplify(v.t % 2 == 1))
            if v.b is not None: return IntV(v.t, tt.a, 0, 1, v.b)
            if v.lo is not None and v.lo >= -(1 << tt.a) and v.hi < (2 << tt.a): return self.norm(st, v.t, tt.a, v.lo, v.hi)
            if isc(v.t): return IntV(v.t % (1 << tt.a), tt.a)
            h = 1 << (tt.a - 1)
            if self.quick(st, z3.And(v.t >= 0, v.t < 2 * h)): return IntV(v.t, tt.a, 0, 2 * h - 1)
            if self.quick(st, z3.And(v.t >= -h, v.t < h)): return IntV(v.t, tt.a, -h, h - 1)
            return IntV(v.t % (1 << tt.a), tt.a, 0, 2 * h - 1)
        raise Unsupported("cast " + op)

    # ================================================================= run
    def call_frame(self, st, fn, args, rreg=None):
        f = Frame(fn)
        for (t, n), v in zip(fn.params, args): f.regs[n] = v
        f.rreg = rreg
        st.frames.append(f)
        return f

    def run(self, st0, base_depth, on_ret):
        """explore all paths from st0 until frame depth drops to base_depth; on_ret(st, val)"""
        work = [st0]
        while work:
            st = work.pop()
            try:
                self.step_path(st, work, base_depth, on_ret)
            except PathEnd:
                continue

    def step_path(self, st, work, base_depth, on_ret):
        while True:
            if self.deadline and time.time() > self.deadline: raise Unsupported("deadline")
            f = st.frames[-1]
            blk = f.fn.blocks[f.blk]
            ins = blk.ins[f.idx]
            op = ins.op
            if op == "alloca":
                r = Region("%s.%s" % (self.short(f.fn.name).split("::")[-1], ins.res[1:]), self.mod.size(ins.ty) if ins.a is None else None, "stack", uninit=True)
                if ins.a is not None: raise Unsupported("dynamic alloca")
                for (o, es, n) in self.mod.array_segs(ins.ty): r.segs.append(Seg(o, es, n, False, False))
                r.owner = f.uid
                r.var = ins.res
                dv = f.fn.declares.get(ins.res)
                if dv:
                    r.di = self.di.node(dv).get("type")
                r.lty = ins.ty
                f.regs[ins.res] = PtrV(r, 0)
                f.allocas = f.allocas + (r,)
            elif op == "load":
                p = self.operand(st, ir.PTR, ins.a)
                try: f.regs[ins.res] = self.load(st, p, ins.ty)
                except Fork as fk:
                    s2 = st.copy(); s2.assume(fk.cond); work.append(s2); st.assume(z3.Not(fk.cond)); continue
            elif op == "store":
                v = self.operand(st, ins.ty, ins.a[0]); p = self.operand(st, ir.PTR, ins.a[1])
                self.store(st, p, ins.ty, v)
            elif op == "gep":
                b = self.operand(st, ir.PTR, ins.a[0][1])
                if b is UNDEF:
                    self.oblige(st, False, "uninit", "arithmetic on uninitialised pointer"); raise PathEnd()
                f.regs[ins.res] = self.gep(st, b, ins.ty, ins.a[1:], "inbounds" in ins.flags)
            elif op == "float":
                f.regs[ins.res] = OpaqueV("floating-point value")
            elif op == "bin":
                o, a, b = ins.a
                f.regs[ins.res] = self.binop(st, o, ins.ty.a, self.operand(st, ins.ty, a), self.operand(st, ins.ty, b), ins.flags)
            elif op == "icmp":
                pr, a, b = ins.a
                f.regs[ins.res] = BoolV(self.icmp(st, pr, self.operand(st, ins.ty, a), self.operand(st, ins.ty, b)))
            elif op == "cast":
                o, t, v = ins.a
                f.regs[ins.res] = self.cast(st, o, self.mod.resolve(t), self.mod.resolve(ins.ty), self.operand(st, t, v))
            elif op == "phi":
                for v, b in ins.a:
                    if b == f.prev:
                        f.regs[ins.res] = self.operand(st, ins.ty, v); break
                else: raise Unsupported("phi")
            elif op == "select":
                c = self.boolof(self.operand(st, ir.IntTy(1), ins.a[0]))
                a = self.operand(st, ins.ty, ins.a[1]); b = self.operand(st, ins.ty, ins.a[2])
                if c is True or (not isinstance(c, bool) and self.quick(st, c)): f.regs[ins.res] = a
                elif c is False or self.quick(st, z3.Not(c)): f.regs[ins.res] = b
                else:
                    s2 = st.copy(); s2.assume(z3.Not(c)); s2.frames[-1].regs[ins.res] = b; s2.frames[-1].idx += 1
                    work.append(s2)
                    st.assume(c); f.regs[ins.res] = a
            elif op == "freeze":
                f.regs[ins.res] = self.operand(st, ins.ty, ins.a)
            elif op == "extractvalue":
                v = self.operand(st, ins.ty, ins.a[0])
                for i in ins.a[1]: v = v.v[i]
                f.regs[ins.res] = v
            elif op == "insertvalue":
                v = self.operand(st, ins.ty, ins.a[0]); x = self.operand(st, None, ins.a[1])
                l = list(v.v) if isinstance(v, AggV) else [UNDEF] * len(self.mod.resolve(ins.ty).a)
                l[ins.a[2][0]] = x; f.regs[ins.res] = AggV(l)
            elif op == "br":
                if len(ins.a) == 1:
                    if self.jump(st, ins.a[0], work): return
                    continue
                cv = self.operand(st, ir.IntTy(1), ins.a[0])
                if cv is UNDEF:
                    self.oblige(st, False, "uninit", "branch on uninitialised value"); raise PathEnd()
                c = self.boolof(cv)
                self.branch(st, [(c, ins.a[1]), (tnot(c), ins.a[2])], work)
                return
            elif op == "switch":
                v = self.operand(st, ins.ty, ins.a[0])
                if v is UNDEF:
                    self.oblige(st, False, "uninit", "switch on uninitialised value"); raise PathEnd()
                alts = []; w = ins.ty.a
                conds = []
                for cv, l in ins.a[2]:
                    c = self.icmp(st, "eq", v, IntV(cv, w))
                    conds.append(c); alts.append((c, l))
                alts.append((tand(*[tnot(c) for c in conds]), ins.a[1]))
                self.branch(st, alts, work)
                return
            elif op == "ret":
                v = None if ins.a is None else self.operand(st, ins.ty, ins.a)
                done = self.do_ret(st, v, base_depth, on_ret)
                if done: return
                continue
            elif op == "unreachable":
                raise PathEnd()
            elif op == "call":
                if self.do_call(st, ins, work): return
                continue
            else:
                raise Unsupported("instruction %s %s" % (op, ins.a))
            f.idx += 1

    def do_ret(self, st, v, base_depth, on_ret):
        f = st.frames.pop()
        # leave loops of that frame
        while st.loops and st.loops[-1].frame == f.uid:
            l = st.loops.pop()
            if l.mode != "final":
                l.collect("exit", st); raise PathEnd()
        st.dead = st.dead | frozenset(r.id for r in f.allocas)
        if len(st.frames) == base_depth:
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported("path limit")
            on_ret(st, v)
            return True
        g = st.frames[-1]
        if f.rreg is not None: g.regs[f.rreg] = v
        g.idx += 1
        return False

    def branch(self, st, alts, work):
        live = []
        for c, l in alts:
            if c is False: continue
            if c is True:
                live = [(c, l)]; break
            live.append((c, l))
        outs = []
        for i, (c, l) in enumerate(live):
            if c is True:
                outs.append((c, l)); continue
            r = self.check_sat(st, c)
            if r != z3.unsat: outs.append((c, l))
        if not outs: return
        for i, (c, l) in enumerate(outs):
            s = st if i == len(outs) - 1 else st.copy()
            if c is not True and len(outs) > 1: s.assume(c)
            elif c is not True: s.assume(c)
            try:
                if not self.jump(s, l, work): work.append(s)
            except PathEnd:
                pass

    def jump(self, st, label, work):
        """returns True if the path was consumed"""
        f = st.frames[-1]
        f.prev = f.blk
        st.trail.append("%s:%s" % (f.fn.name[-24:] if False else self.short(f.fn.name).split("::")[-1], label))
        # leaving loops
        while st.loops and st.loops[-1].frame == f.uid and label not in st.loops[-1].body:
            l = st.loops.pop()
            if l.mode != "final":
                l.collect("exit", st); raise PathEnd()
        f.blk = label; f.idx = 0
        loops = f.fn.loops()
        head = label
        if self.rotate:
            cuts = f.fn.cuts()
            if label in cuts and not self.unroll_policy(st, f, label): return False
            for h, b in cuts.items():
                if b == label and not self.unroll_policy(st, f, h): head = h; break
        if head is not label:
            if st.loops and st.loops[-1].frame == f.uid and st.loops[-1].header == label:
                st.loops[-1].collect("back", st); raise PathEnd()
            self.enter_loop(st, f, label, loops[head])
        elif label in loops:
            if st.loops and st.loops[-1].frame == f.uid and st.loops[-1].header == label:
                l = st.loops[-1]
                l.collect("back", st); raise PathEnd()
            un = self.unroll_policy(st, f, label)
            if un:
                k = (f.uid, label)
                # count only while the back edge is taken
                if f.prev in loops[label]:
                    st.unroll[k] = st.unroll.get(k, 0) + 1
                    if st.unroll[k] > un: raise Unsupported("unroll limit %d in %s" % (un, f.fn.name))
                else:
                    st.unroll[k] = 0
                return False
            self.enter_loop(st, f, label, loops[label])
        return False

    def unroll_policy(self, st, f, label):
        if self.cur is not None and hasattr(self.cur, "unroll"):
            u = self.cur.unroll
            if callable(u): return u(self, st, f, label)
            if isinstance(u, dict):
                for k, v in u.items():
                    if k in self.mod.dem(f.fn.name): return v
                return 0
            return u
        return 0

    # ------------------------------------------------------- loops
    def havoc_val(self, st, v, name):
        if isinstance(v, IntV):
            w = v.w
            # keep the signedness of the representation by interval
            M = 1 << w; h = M >> 1
            if v.b is not None and not isc(v.t) or (v.lo is not None and (v.lo, v.hi) in ((0, 1),)) and w == 8:
                b = z3.Bool("%s!%d" % (name, next(self.fresh_n)))
                return IntV(z3.If(b, 1, 0), 8, 0, 1, b)
            return None
        return None

    def cell_signed(self, r, off, size, v):
        """signedness for havocking an integer cell"""
        if r.digrid and off in r.digrid:
            k = r.digrid[off]
            if k[0] == "bool": return "bool"
            if k[0] == "int": return k[2]
        if r.di and r.kind == "stack":
            k = self.di.scalar(r.di)
            if k:
                if k[0] == "bool": return "bool"
                if k[0] == "int" and k[1] == size: return k[2]
            elif r.digrid is None:
                r.digrid = {}
                try:
                    for path, o, kind in self.di.flatten(r.di):
                        if kind[0] != "array": r.digrid[o] = kind
                except Exception: pass
                if off in r.digrid: return self.cell_signed(r, off, size, v)
        if isinstance(v, IntV) and isc(v.t) and v.t < 0: return True
        if isinstance(v, IntV) and v.lo is not None and v.hi is not None and v.hi >= (1 << (v.w - 1)): return False
        if isinstance(v, IntV) and v.lo is not None and v.lo < 0: return True
        return size <= 4 and size > 1

    def havoc(self, st, locs, tag="h"):
        """havoc memory locations: (region, ('cell',off,size)) or (region, ('seg',start))"""
        for r, w in locs:
            if r.id in st.dead: continue
            rc = st.wrc(r)
            if w[0] == "seg":
                rc.segs[w[1]] = self.fresh_arr(r.name + "." + tag) if not getattr(r, "nested", False) else z3.Const("%s.%s!%d" % (r.name, tag, next(self.fresh_n)), AA)
            else:
                off, size = w[1], w[2]
                c = rc.cells.get(off) or r.icells.get(off)
                if c is None:
                    continue      # uninitialised stays uninitialised
                v = c[1]
                nm = "%s.%s" % (r.name, tag)
                if isinstance(v, PtrV):
                    if v.reg is None:
                        if tag in ("m", "k", "i"):      # loop head: no shape is assumed, any use is refused
                            rc.cells[off] = (size, OpaqueV("pointer that was null before the loop")); continue
                        raise Unsupported("pointer havoc of null in " + r.name)
                    x = self.fresh(nm)
                    es = 1
                    if v.seg is not None: es = v.seg.es
                    elif len(v.reg.segs) == 1: es = v.reg.segs[0].es
                    if es != 1:
                        # keep the offset congruent: off = off0 + es*k
                        nv = PtrV(v.reg, v.off.add(Lin.of(x).scale(es)), v.seg or v.reg.segs[0])
                    else:
                        nv = PtrV(v.reg, Lin.of(x), v.seg or (v.reg.seg_at(v.off.c) if v.off.const() else None) or (v.reg.segs[0] if len(v.reg.segs) == 1 else None))
                    st.assume(tle(0, nv.off.z()), tle(nv.off.z(), v.reg.size))
                    rc.cells[off] = (size, nv)
                elif isinstance(v, IntV) or isinstance(v, BoolV):
                    sg = self.cell_signed(r, off, size, v)
                    if sg == "bool" or isinstance(v, BoolV):
                        b = z3.Bool("%s!%d" % (nm, next(self.fresh_n)))
                        rc.cells[off] = (size, BoolV(b) if isinstance(v, BoolV) else IntV(z3.If(b, 1, 0), 8, 0, 1, b))
                    else:
                        rc.cells[off] = (size, self.fresh_int(st, 8 * size, sg, nm))
                elif v is UNDEF:
                    pass
                elif isinstance(v, OpaqueV):
                    pass
                elif isinstance(v, PIntV):
                    raise Unsupported("havoc ptrint")
                else:
                    raise Unsupported("havoc %r" % (v,))

    def enter_loop(self, st, f, header, body):
        """replace st (at loop entry) by an arbitrary iteration state satisfying the invariant"""
        rec = self.record
        if re.match(r"(\S+ )*std::|(\S+ )*__gnu_cxx::", self.mod.dem(f.fn.name).split("(")[0]): raise Unsupported("loop inside library template " + self.mod.dem(f.fn.name)[:80])
        # --- 1. modified set
        M = set()
        entry = st.copy()
        for rnd in range(12):
            W = set()
            self.record = False
            s = entry.copy(); s.writes = set()
            try:
                self.havoc(s, sorted(M, key=lambda x: (x[0].id, str(x[1]))), "m")
                outer = s.writes
                sf = s.frames[-1]
                known = set(s.mem)
                pre_regions = self.live_regions(entry)
                # what a path that leaves the loop writes does not reach the loop head
                def coll(kind, s2, W=W):
                    if kind == "back": W.update(s2.writes)
                s.loops.append(LoopCtx(sf.uid, header, body, "discover", coll))
                self.run_loop_body(s)
            finally:
                self.record = rec
            W2 = set((r, w) for (r, w) in W if r.id in pre_regions)
            if W2 <= M: break
            M |= W2
        else:
            raise Unsupported("loop modified set does not stabilise in " + f.fn.name)
        if entry.writes is not None: entry.writes.update(M)
        if st.writes is not None: st.writes.update(M)
        if not st.ghost.get("guards"):
            w = frozenset(r.name for r, _ in M if r.kind == "global")
            if w:
                for x in (st, entry): x.ghost["statics"] = x.ghost.get("statics", frozenset()) | w
        M = sorted(M, key=lambda x: (x[0].id, str(x[1])))
        # an integer cell may hold its value in either representative (signed or unsigned); candidates compare values, so
        # every state they are evaluated in holds the representative that havoc uses at the loop head
        signs = {}
        for r, w in M:
            if w[0] == "cell" and r.id not in entry.dead:
                v = self.cellval(entry, r, w[1])
                if isinstance(v, IntV) and v.b is None: signs[(r, w[1])] = self.cell_signed(r, w[1], w[2], v)
        def canon(x):
            for (r, off), sg in signs.items():
                if r.id in x.dead: continue
                v = self.cellval(x, r, off)
                if not isinstance(v, IntV) or v.b is not None or sg == "bool": continue
                t = self.s(x, v) if sg else self.u(x, v)
                if t is not v.t: x.wrc(r).cells[off] = (v.w // 8, IntV(t, v.w, *((-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1) if sg else (0, (1 << v.w) - 1))))
        canon(entry); canon(st)
        # --- 2. candidate invariants (Houdini)
        cands = self.candidates(entry, f, header, body, M)
        live = []
        esnap = entry
        for nm, fn in cands:
            try:
                g = fn(entry)
            except (Unsupported, KeyError, AttributeError, TypeError) as e:
                continue
            if g is None: continue
            if g is True or (isinstance(g, bool) and g) or (self.holds(entry, g) if nm.startswith("!") or has_quant(g) else self.quick(entry, g)):
                live.append((nm, fn))
            elif nm.startswith("!"):
                self.dropped.append((self.short(f.fn.name), header, nm, "not established"))
        self.record = False
        try:
            for rnd in range(30):
                s = entry.copy(); s.writes = None
                self.havoc(s, M, "k")
                bad = False
                for nm, fn in live:
                    g = fn(s)
                    if g is not None: s.assume(g)
                drop = set()
                def coll(kind, s2, drop=drop):
                    if kind != "back": return
                    canon(s2)
                    todo = []
                    for i, (nm, fn) in enumerate(live):
                        if i in drop: continue
                        try: g = fn(s2)
                        except Unsupported: drop.add(i); continue
                        if g is None or (isinstance(g, bool) and not g): drop.add(i); continue
                        if g is True: continue
                        todo.append((i, g))
                    # fast: conjunction first
                    qf = [(i, g) for i, g in todo if not has_quant(g)]
                    if qf:
                        if self.check_sat(s2, z3.Not(z3.And(*[g for _, g in qf]))) != z3.unsat:
                            for i, g in qf:
                                if not (self.holds(s2, g) if live[i][0].startswith("!") else self.quick(s2, g)): drop.add(i)
                    for i, g in todo:
                        if has_quant(g) and i not in drop:
                            if not self.holds(s2, g): drop.add(i)
                sf = s.frames[-1]
                s.loops.append(LoopCtx(sf.uid, header, body, "houdini", coll))
                self.run_loop_body(s)
                if not drop: break
                for i in drop:
                    if live[i][0].startswith("!"): self.dropped.append((self.short(f.fn.name), header, live[i][0], "not preserved"))
                live = [c for i, c in enumerate(live) if i not in drop]
            else:
                raise Unsupported("houdini did not converge")
        finally:
            self.record = rec
        # --- 3. arbitrary iteration
        self.havoc(st, M, "i")
        for nm, fn in live:
            g = fn(st)
            if g is not None: st.assume(g)
        hs = st.snap()
        var = []
        for r, w in M:
            if w[0] == "cell":
                c = (st.rc(r).cells.get(w[1]) or r.icells.get(w[1]))
                if c is not None and isinstance(c[1], (IntV, PtrV)): var.append((r, w[1], c[1]))
        fnm = self.short(f.fn.name)
        eng = self
        tab = {"fn": fnm, "header": header, "alive": None, "paths": 0, "hs": hs}
        if self.record: self.terms.append(tab)
        def fin(kind, s2):
            if kind != "back": return
            if not eng.record: return
            canon(s2)
            # the shape assumed by havoc at the loop head is itself inductive
            for r, off, v0 in var:
                if r.id in s2.dead: continue
                v1 = eng.cellval(s2, r, off)
                if type(v1) is not type(v0) or (isinstance(v0, PtrV) and v1.reg is not v0.reg):
                    if not eng.feasible(s2): return
                    raise Unsupported("loop changes the shape of %s+%d in %s" % (r.name, off, fnm))
                if isinstance(v0, PtrV) and not eng.quick(s2, B(tand(tle(0, v1.off.z()), tle(v1.off.z(), v0.reg.size)))):
                    raise Unsupported("loop pointer leaves its object in " + fnm)
            # invariants re-established (all Houdini survivors are inductive; recorded as obligations)
            o = Oblig("loop invariant (%d conjuncts) preserved" % len(live), "inv", fnm, None); o.status = "proved"; o.backend = "z3-houdini"; eng.obligs.append(o)
            eng.termination(s2, var, tab)
        if self.record:
            o = Oblig("loop invariant (%d conjuncts) established" % len(live), "inv", fnm, None); o.status = "proved"; o.backend = "z3-houdini"; self.obligs.append(o)
            self.loop_notes.append((fnm, header, [nm for nm, _ in live]))
        st.loops.append(LoopCtx(st.frames[-1].uid, header, body, "final", fin))

    def live_regions(self, st):
        """ids of regions that exist at this point: everything known except those created later"""
        mx = next(Region._ids)
        class Below:
            def __contains__(s, x): return x < mx
        return Below()

    def by_instances(self, st, f, tmo):
        """proof from a finite set of instances of the quantified hypotheses (selected by this engine, decided by z3)"""
        t = time.time()
        try: fs = ground(self.axioms + st.qpc, f)
        except z3.Z3Exception: fs = None
        if fs is None: return False
        s = z3.Solver(); s.set("timeout", tmo)
        for a in st.pc: s.add(a)
        for a in fs: s.add(a)
        r = s.check(); self.nq += 1; self.tq += time.time() - t
        return r == z3.unsat
    def holds(self, st, g, timeout=3000):
        if isinstance(g, bool): return g
        if not has_quant(g):
            if self.quick(st, g): return True
            if not st.qpc and not self.axioms: return False
        r = None
        for cfg in (0, None, 1, 2) if has_quant(g) else (0,):
            if cfg is None:
                if self.by_instances(st, g, timeout * self.patience // 2): return True
                continue
            s = z3.Solver(); s.set("timeout", timeout * self.patience)
            if cfg == 0: s.set("auto_config", False); s.set("mbqi", False)
            for a in st.pc: s.add(a)
            for a in (relevant(self.axioms + st.qpc, g) if cfg == 1 else self.axioms + st.qpc): s.add(a)
            s.add(z3.Not(g))
            self.nq += 1; t = time.time()
            r = s.check(); self.tq += time.time() - t
            if r != z3.unknown: break
        return r == z3.unsat

    def run_loop_body(self, s):
        depth = 0
        work = [s]
        while work:
            x = work.pop()
            try:
                self.step_path(x, work, -1, lambda *_: None)
            except PathEnd:
                continue

    def termination(self, s2, var, tab):
        """some machine integer or in-object pointer moves strictly in one direction on every back edge"""
        if self.cur is not None and hasattr(self.cur, "variant"):
            g = self.cur.variant(self, tab["hs"], s2, tab["fn"], tab["header"])
            if g is not None and self.holds(s2, g):
                tab["paths"] += 1; return
        mv = set()
        for r, off, v0 in var:
            c = s2.rc(r).cells.get(off) or r.icells.get(off)
            if c is None: continue
            v1 = c[1]
            a, b = self.num(v0), self.num(v1)
            if a is None or b is None: continue
            if isinstance(v0, PtrV) and v1.reg is not v0.reg: continue
            if tab["alive"] is not None and not any((r.id, off, d) in tab["alive"] for d in "+-"): continue
            if self.quick(s2, tlt(a, b)): mv.add((r.id, off, "+"))
            elif self.quick(s2, tlt(b, a)): mv.add((r.id, off, "-"))
        tab["paths"] += 1
        tab["alive"] = mv if tab["alive"] is None else tab["alive"] & mv
        if not tab["alive"]: tab["bad"] = " -> ".join(s2.trail[-20:])
    def finish_terms(self):
        for tab in self.terms:
            if not tab["paths"]: continue
            o = Oblig("loop terminates (strictly monotone bounded quantity over every back edge)", "term", tab["fn"], None)
            ok = tab["alive"] is None or bool(tab["alive"])
            o.status = "proved" if ok else "unknown"
            if not ok: o.detail = "no ranking quantity found for loop %s; path %s" % (tab["header"], tab.get("bad"))
            self.obligs.append(o)
        self.terms = []

    def num(self, v):
        if isinstance(v, IntV): return v.t
        if isinstance(v, PtrV): return v.off.z()
        return None

    # ---------------- candidates
    def cellval(self, st, r, off):
        c = st.rc(r).cells.get(off) or r.icells.get(off)
        return None if c is None else c[1]

    def candidates(self, entry, f, header, body, M):
        out = []
        eng = self
        cells = [(r, w[1]) for r, w in M if w[0] == "cell"]
        mset = set((r.id, o) for r, o in cells)
        def val(st, r, o):
            v = eng.cellval(st, r, o)
            if v is None: return None
            return eng.num(v)
        ints = []; ptrs = []; bools = []
        for r, o in cells:
            if r.id in entry.dead: continue
            v = self.cellval(entry, r, o)
            if isinstance(v, IntV):
                if v.b is not None: bools.append((r, o))
                else: ints.append((r, o, v))
            elif isinstance(v, PtrV) and v.reg is not None: ptrs.append((r, o, v))
        # pointer region stays the same
        def samereg(r, o, v0):
            def g(st):
                v = eng.cellval(st, r, o)
                if not isinstance(v, PtrV) or v.reg is not v0.reg: return False
                return True
            return g
        # unmodified comparison partners: allocas of this frame, fields of objects reachable
        consts = []
        for rr in f.allocas:
            if rr.id in entry.dead: continue
            for o, (sz, v) in entry.rc(rr).cells.items():
                if (rr.id, o) in mset: continue
                if isinstance(v, IntV): consts.append(("i", v.t, rr.name))
                elif isinstance(v, PtrV) and v.reg is not None and not v.reg.kind == "stack": consts.append(("p", v, rr.name))
        for rid, rc in entry.mem.items():
            pass
        objs = set()
        for rr in f.allocas:
            for o, (sz, v) in entry.rc(rr).cells.items():
                if isinstance(v, PtrV) and v.reg is not None and v.reg.id not in entry.dead: objs.add(v.reg)
        for rr in objs:
            allc = dict(rr.icells); allc.update(entry.rc(rr).cells)
            for o, (sz, v) in allc.items():
                if (rr.id, o) in mset: continue
                if isinstance(v, IntV) and v.b is None: consts.append(("i", v.t, "%s+%d" % (rr.name, o)))
                elif isinstance(v, PtrV) and v.reg is not None: consts.append(("p", v, "%s+%d" % (rr.name, o)))
        # literals compared against inside the loop
        lits = set()
        def scan(fn, blocks, depth):
            for bl in blocks:
                for i in fn.blocks[bl].ins:
                    if i.op == "icmp":
                        for x in i.a[1:]:
                            if x[0] == "int" and x[1] not in (0, 1): lits.add(x[1])
                    elif i.op == "call" and depth < 2 and i.a[0][0] == "glob":
                        g = eng.mod.aliases.get(i.a[0][1], i.a[0][1])
                        if g not in eng.contracts and eng.find_model(g, eng.mod.dem(g)) is None and eng.mod.func(g) is not None:
                            scan(eng.mod.func(g), eng.mod.func(g).blocks, depth + 1)
        scan(f.fn, body, 0)
        if len(lits) <= 8:
            for c in sorted(lits): consts.append(("i", c, "literal"))
        for r, o, v0 in ints + ptrs:
            a0 = self.num(v0); nm = "%s+%d" % (r.name, o)
            isp = isinstance(v0, PtrV)
            def get(st, r=r, o=o, v0=v0):
                v = eng.cellval(st, r, o)
                if v is None or type(v) is not type(v0): raise Unsupported("cell changed type")
                if isinstance(v0, PtrV) and v.reg is not v0.reg: raise Unsupported("cell changed region")
                return eng.num(v)
            out.append((nm + ">=entry", lambda st, get=get, a0=a0: tle(a0, get(st))))
            out.append((nm + "<=entry", lambda st, get=get, a0=a0: tle(get(st), a0)))
            if not isp:
                out.append((nm + ">=0", lambda st, get=get: tle(0, get(st))))
                out.append((nm + ">0", lambda st, get=get: tlt(0, get(st))))
            seen = set()
            for kind, c, cn in consts:
                if isp and kind == "p" and c.reg is v0.reg: ct = c.off.z()
                elif not isp and kind == "i": ct = c
                else: continue
                key = ct if isc(ct) else ct.get_id()
                if key in seen: continue
                seen.add(key)
                out.append((nm + "<=" + cn, lambda st, get=get, ct=ct: tle(get(st), ct)))
                out.append((nm + "<" + cn, lambda st, get=get, ct=ct: tlt(get(st), ct)))
                out.append((nm + ">=" + cn, lambda st, get=get, ct=ct: tle(ct, get(st))))
        allm = ints + ptrs
        def scale(v): 
            if isinstance(v, PtrV):
                s = v.seg or (v.reg.segs[0] if len(v.reg.segs) == 1 else None)
                return s.es if s else 1
            return 1
        for i in range(len(allm)):
            for j in range(i + 1, len(allm)):
                r1, o1, v1 = allm[i]; r2, o2, v2 = allm[j]
                a1, a2 = self.num(v1), self.num(v2)
                s1, s2 = scale(v1), scale(v2)
                def d(st, r1=r1, o1=o1, r2=r2, o2=o2, a1=a1, a2=a2, s1=s1, s2=s2, k=1, v1=v1, v2=v2):
                    x, y = eng.cellval(st, r1, o1), eng.cellval(st, r2, o2)
                    if type(x) is not type(v1) or type(y) is not type(v2): raise Unsupported("type")
                    if isinstance(v1, PtrV) and x.reg is not v1.reg: raise Unsupported("reg")
                    if isinstance(v2, PtrV) and y.reg is not v2.reg: raise Unsupported("reg")
                    return teq(tmul(tsub(eng.num(x), a1), s2), tmul(tmul(tsub(eng.num(y), a2), s1), k))
                out.append(("%s-%s lockstep" % (r1.name, r2.name), d))
                out.append(("%s-%s antistep" % (r1.name, r2.name), lambda st, d=d: d(st, k=-1)))
                # ordering between two modified quantities
                if isinstance(v1, PtrV) == isinstance(v2, PtrV) and (not isinstance(v1, PtrV) or v1.reg is v2.reg):
                    def le(st, r1=r1, o1=o1, r2=r2, o2=o2, sw=False, strict=False):
                        x, y = eng.cellval(st, r1, o1), eng.cellval(st, r2, o2)
                        if not isinstance(x, (IntV, PtrV)) or type(x) is not type(y): raise Unsupported("type")
                        a, b = eng.num(x), eng.num(y)
                        if sw: a, b = b, a
                        return tlt(a, b) if strict else tle(a, b)
                    out.append(("%s<=%s" % (r1.name, r2.name), le))
                    out.append(("%s>=%s" % (r1.name, r2.name), lambda st, le=le: le(st, sw=True)))
                    out.append(("%s<%s" % (r1.name, r2.name), lambda st, le=le: le(st, strict=True)))
                    out.append(("%s>%s" % (r1.name, r2.name), lambda st, le=le: le(st, sw=True, strict=True)))
        for r, o in bools:
            v0 = self.cellval(entry, r, o)
            out.append(("%s unchanged" % r.name, lambda st, r=r, o=o, v0=v0: B(eng.cellval(st, r, o).b) == B(v0.b)))
        if self.cur is not None and hasattr(self.cur, "loop_candidates"):
            L = LoopView(self, entry, f, header, body, M, ints, ptrs)
            for nm, fn in self.cur.loop_candidates(self, L) or []:
                out.append((nm, fn))
        return out

    # ------------------------------------------------------- calls
    def do_call(self, st, ins, work):
        """returns True if the path was consumed"""
        f = st.frames[-1]
        callee, cargs = ins.a
        cv = self.operand(st, ir.PTR, callee)
        args = [self.operand(st, t, v) for t, v in cargs]
        if isinstance(cv, (PtrV, OpaqueV)) or cv is UNDEF:
            raise Unsupported("indirect call %r" % (cv,))
        if isinstance(cv, VirtFn):
            outs = cv.call(self, st, args)
            return self.finish_call(st, ins, outs, work)
        name = self.mod.aliases.get(cv.name, cv.name)
        dem = self.mod.dem(name)
        h = self.cur.summary(dem) if hasattr(self.cur, "summary") else None
        if h is not None:
            self.assumed.add("summary: " + dem[:140])
            return self.finish_call(st, ins, h(self, st, args, ins), work)
        c = self.contracts.get(name)
        if c is not None and not (self.cur is not None and name in getattr(self.cur, "inline", ())) and not (self.cur is c and not getattr(c, "recursive", False) and False):
            self.used_contracts.add(self.short(name)); self.used_mangled.add(name)
            outs = c.apply(self, st, args)
            return self.finish_call(st, ins, outs, work)
        m = self.find_model(name, dem)
        if m is not None:
            outs = m(self, st, args, ins)
            return self.finish_call(st, ins, outs, work)
        fn = self.mod.func(name)
        if fn is None: raise Unsupported("external function " + dem)
        if len(st.frames) > self.inline_depth: raise Unsupported("inline depth")
        if sum(1 for g in st.frames if g.fn is fn) > 2: raise Unsupported("recursion " + dem)
        self.inlined.add(self.short(name))
        self.call_frame(st, fn, args, ins.res)
        st.trail.append("call " + self.short(name).split("::")[-1])
        if fn.entry in fn.loops(): raise Unsupported("entry loop")
        return False

    def finish_call(self, st, ins, outs, work):
        """outs: None | value | list of (state, value)"""
        if not isinstance(outs, list): outs = [(st, outs)]
        for s, v in outs[1:]:
            g = s.frames[-1]
            if ins.res is not None: g.regs[ins.res] = v
            g.idx += 1
            work.append(s)
        if not outs: raise PathEnd()
        s, v = outs[0]
        g = s.frames[-1]
        if ins.res is not None: g.regs[ins.res] = v
        g.idx += 1
        if s is not st:
            work.append(s); return True
        return False

    def find_model(self, name, dem):
        k = ("m", name)
        if k not in self.model_cache:
            r = None
            for pat, fn in self.models:
                if pat.match(dem):
                    r = fn; break
            self.model_cache[k] = r
        m = self.model_cache[k]
        if m is not None: self.assumed.add(dem[:140])
        return m

class VirtFn:
    """a virtual-table slot of an abstract interface object"""
    def __init__(self, fn): self.fn = fn
    def call(self, eng, st, args): return self.fn(eng, st, args)

class LoopView:
    def __init__(self, eng, entry, frame, header, body, M, ints, ptrs):
        self.eng, self.entry, self.frame, self.header, self.body, self.M, self.ints, self.ptrs = eng, entry, frame, header, body, M, ints, ptrs
        self.fname = eng.mod.dem(frame.fn.name)
        self.locals = tuple(r for g in entry.frames for r in g.allocas if r.id not in entry.dead)   # of every active call
