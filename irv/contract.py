"""Contract base class and the per-function verification driver."""
import json, os, time, traceback
import z3
from . import ir
from .engine import *
from .models import MODELS

SIGS = None
def signature(mod, n):
    f = mod.func(n)
    return [str(f.ret), [[str(p[0]), str(p[1])] for p in f.params]]
def resolve(mod, c):
    """the functions a contract speaks about. A function whose parameters changed (their types, or the order of the same names) is another
    function: its contract is lost, and its callers are verified against its body."""
    global SIGS
    if SIGS is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")
        SIGS = json.load(open(p)) if os.path.exists(p) else {}
    out = []
    for n in mod.find(c.match):
        want = SIGS.get(c.match)
        if want:
            s = signature(mod, n)
            ok = False
            for w in want:
                if w[0] != s[0] or [x[0] for x in w[1]] != [x[0] for x in s[1]]: continue
                a, b = [x[1] for x in w[1]], [x[1] for x in s[1]]
                if a != b and sorted(a) == sorted(b): continue
                ok = True
            if not ok: continue
        out.append(n)
    return out

class Contract:
    """One function under contract.

    match    demangled name ('ns::Cls::Method'), optionally with parameter list
    cases    names of the input shapes that together cover the precondition
    setup    builds an arbitrary state of that shape, returns argument values
    pre      list of (name, formula) over the state at entry
    modifies locations the function may change (frame)
    post     list of (name, formula) relating entry and exit states
    """
    match = None
    cases = ("any",)
    may_abort = False
    props = ()
    static_ok = ()      # static variables the function may write
    trusted = False
    def setup(self, e, st, case): raise NotImplementedError
    def pre(self, e, st, a): return []
    def modifies(self, e, st, a): return []
    def post(self, e, s0, s1, a, ret): return []
    def result(self, e, st, a):
        fn = e.mod.func(self.mangled) or e.mod.decls[self.mangled]
        t = fn.ret
        if t.k == "void": return None
        if t.k == "int":
            if t.a == 1: return BoolV(z3.Bool("ret!%d" % next(e.fresh_n)))
            return e.fresh_int(st, t.a, self.ret_signed, "ret")
        raise Unsupported("result of " + self.match)
    ret_signed = True
    # ---- use at call sites
    def apply(self, e, st, a):
        with Spec(e):
            pre = list(self.pre(e, st, a))
        for n, g in pre: e.oblige(st, g, "pre", "%s requires %s" % (self.label, n))
        s0 = st.snap()
        with Spec(e):
            mods = self.modifies(e, st, a)
            for r, w in mods: e.note_write(st, r, w)
            e.havoc(st, mods, "c")
            ret = self.result(e, st, a)
            for n, g in self.post(e, s0, st, a, ret): st.assume(B(g))
        return ret
    @property
    def label(self): return self.match.split("::")[-1].split("(")[0] if "<" not in self.match else self.match.split("open_vcdiff::")[-1]

class Spec:
    def __init__(self, e): self.e = e
    def __enter__(self):
        self.o = self.e.spec; self.e.spec = True
    def __exit__(self, *x): self.e.spec = self.o

class Result:
    def __init__(self, c):
        self.contract = c.match; self.label = c.label; self.props = c.props
        self.obligs = []; self.error = None; self.missing = False
        self.inlined = set(); self.used = set(); self.assumed = set(); self.time = 0; self.solver = 0; self.queries = 0; self.paths = 0
        self.loops = []; self.reach = 0; self.dropped = []; self.used_mangled = set(); self.idx = 0

def merge(a, b):
    """results of two cases of one contract"""
    a.obligs += b.obligs; a.error = a.error or b.error; a.missing |= b.missing
    a.inlined |= b.inlined; a.used |= b.used; a.assumed |= b.assumed; a.used_mangled |= b.used_mangled
    a.time += b.time; a.solver += b.solver; a.queries += b.queries; a.paths += b.paths; a.reach += b.reach
    a.loops += b.loops; a.dropped += b.dropped
    return a

def frame_check(e, s0, st, allowed):
    """locations outside 'allowed' that changed in pre-existing regions -> list of (name, formula)"""
    out = []
    al = set((r.id, w[0], w[1] if len(w) > 1 else None) for r, w in allowed)
    allregs = set(r.id for r, w in allowed if w[0] == "all")
    for r in e.tracked:
        if r.id in allregs: continue
        a, b = s0.rc(r), st.rc(r)
        if a is b: continue
        for o, (sz, v) in b.cells.items():
            if (r.id, "cell", o) in al: continue
            c = a.cells.get(o) or r.icells.get(o)
            if c is not None and c[1] is v: continue
            if c is None:
                out.append(("%s+%d unchanged" % (r.name, o), False)); continue
            w = c[1]
            if isinstance(v, IntV) and isinstance(w, IntV): out.append(("%s+%d unchanged" % (r.name, o), teq(e.u(st, v), e.u(st, w))))
            elif isinstance(v, PtrV) and isinstance(w, PtrV): out.append(("%s+%d unchanged" % (r.name, o), v.reg is w.reg and teq(v.off.z(), w.off.z())))
            else: out.append(("%s+%d unchanged" % (r.name, o), False))
        for s, arr in b.segs.items():
            if (r.id, "seg", s) in al: continue
            o = a.segs.get(s)
            if o is None: o = r.isegs.get(s)
            if o is arr: continue
            if o is None or isinstance(o, dict): out.append(("%s contents unchanged" % r.name, False)); continue
            i = z3.Int("fr!%d" % next(e.fresh_n))
            seg = [x for x in r.segs if x.start == s][0]
            out.append(("%s contents unchanged" % r.name, z3.Implies(z3.And(i >= 0, i < Z(seg.count)), z3.Select(arr, i) == z3.Select(o, i))))
    return out

def verify(mod, di, contract, registry, budget=300, log=None, models=None, post_filter=None, only_case=None, patience=1, rotate=False):
    res = Result(contract)
    t0 = time.time()
    names = resolve(mod, contract)
    if not names:
        res.missing = True; res.error = "function not found: " + contract.match
        return res
    for mangled in names:
        contract.mangled = mangled
        fn = mod.func(mangled)
        for case in contract.cases:
            if only_case is not None and case != only_case: continue
            e = Engine(mod, di, contracts=registry, models=models or MODELS, deadline=t0 + budget, log=log)
            e.patience = patience; e.rotate = rotate
            e.cur = contract; e.fnname = contract.label
            e.tracked = []
            # the function itself is verified against its body
            regy = dict(registry); regy.pop(mangled, None)
            for k in getattr(contract, "inline_contracts", ()):
                for mm in mod.find(k): regy.pop(mm, None)
            e.contracts = regy
            try:
                st = State(e)
                e.init_tracking()
                with Spec(e):
                    args = contract.setup(e, st, case)
                    for n, g in contract.pre(e, st, args): st.assume(B(g))
                if not e.feasible(st):
                    o = Oblig("precondition is satisfiable (case %s)" % case, "vacuity", contract.label, None); o.status = "failed"; res.obligs.append(o)
                    continue
                s0 = st.snap()
                e.entry_args, e.entry = args, s0
                e.stop_tracking()
                nret = [0]
                def on_ret(s1, v, case=case):
                    if e.feasible(s1): nret[0] += 1
                    with Spec(e):
                        posts = list(contract.post(e, s0, s1, args, v))
                        mods = contract.modifies(e, s0, args)
                        fr = frame_check(e, s0, s1, mods) if mods is not None else []
                    for n, g in posts: 
                        if post_filter and not post_filter(n): continue
                        e.oblige_at(s1, g, "post", "[%s] ensures %s" % (case, n), contract.label)
                    for n in sorted(s1.ghost.get("statics", ())):
                        if "g_fatal_error_occurred" in n: e.oblige_at(s1, False, "frame", "[%s] no fatal error is pending" % case, contract.label)
                        elif not any(x in n for x in contract.static_ok): e.oblige_at(s1, False, "frame", "{C16,C19} [%s] no static variable is written: %s" % (case, n), contract.label)
                    if not s1.ghost.get("statics"): e.oblige_at(s1, True, "frame", "{C16,C19} [%s] no static variable is written" % case, contract.label)
                    for n, g in fr: e.oblige_at(s1, g, "frame", "[%s] frame: %s" % (case, n), contract.label)
                e.call_frame(st, fn, args)
                e.run(st, 0, on_ret)
                e.finish_terms()
                if nret[0] == 0 and not getattr(contract, "no_return_ok", False):
                    o = Oblig("some execution returns (case %s)" % case, "vacuity", contract.label, None); o.status = "failed"; e.obligs.append(o)
                res.reach += nret[0]
            except (Unsupported, IRError) as x:
                res.error = "[%s] %s" % (case, x)
            except SpecError as x:
                res.error = "[%s] specification not evaluable: %s" % (case, x)
            except RecursionError as x:
                res.error = "[%s] recursion" % case
            except z3.Z3Exception as x:
                res.error = "[%s] z3: %s" % (case, x)
            except Exception as x:
                res.error = "[%s] internal: %s" % (case, traceback.format_exc()[-1500:])
            for o in e.obligs: res.obligs.append(o)
            res.inlined |= e.inlined; res.used |= e.used_contracts; res.used_mangled |= e.used_mangled; res.assumed |= e.assumed
            res.solver += e.tq; res.queries += e.nq; res.paths += e.paths; res.loops += e.loop_notes; res.dropped += e.dropped
    res.time = time.time() - t0
    return res
