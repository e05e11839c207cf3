"""Parser for the subset of textual LLVM-18 IR that clang -O0 emits for open-vcdiff.

The IR is produced from /repo's current sources on every run; nothing here is
hand-written code of the program under verification.
"""
import re, subprocess, functools

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        return "%s(%r,%r)" % (self.k, self.a, self.b)

VOID = Ty("void"); PTR = Ty("ptr"); LABEL = Ty("label"); META = Ty("metadata")
_ints = {}
def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]

_tok = re.compile(r'''\s*(?:(c"(?:[^"])*")|("(?:[^"])*")|([%@](?:"[^"]*"|[-A-Za-z$._0-9]+))|(![A-Za-z0-9_.]*(?:\([^()]*\))?)|([-+]?\d+(?:\.\d+e[-+]\d+)?)|(0x[0-9A-Fa-f]+)|([A-Za-z_][A-Za-z0-9_.]*)|(\.\.\.)|([][{}()<>,=*:|#]))''')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: %r" % s[i:i + 60])
        t = m.group(0).strip()
        out.append(t)
        i = m.end()
    return out

PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "nocapture", "returned",
               "readonly", "writeonly", "readnone", "immarg", "nest", "noreturn", "dso_local", "local_unnamed_addr",
               "unnamed_addr", "fastcc", "ccc", "tail", "musttail", "notail", "allocptr", "allocalign", "swiftself", "nounwind",
               "weak_odr", "linkonce_odr", "internal", "private", "external", "hidden", "protected", "linkonce", "weak", "mustprogress", "dead_on_unwind", "writable"}

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if self.peek() != x:
            raise IRError("expected %r got %r in %r" % (x, self.peek(), self.t))
        self.i += 1
    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.i += 1
            elif p in ("align",) :
                self.i += 1
                if self.eat("("):
                    self.next(); self.expect(")")
                else:
                    self.next()
            elif p in ("dereferenceable", "dereferenceable_or_null", "captures", "memory", "sret", "byval", "range", "initializes", "elementtype"):
                self.i += 1
                d = 0
                if self.peek() == "(":
                    while True:
                        x = self.next()
                        if x == "(": d += 1
                        if x == ")":
                            d -= 1
                            if d == 0: break
            else:
                return
    def type(self):
        x = self.next()
        if x == "ptr": return PTR
        if x == "void": return VOID
        if x == "label": return LABEL
        if x == "metadata": return META
        if x in ("float", "double", "x86_fp80"): return Ty("fp", x)
        if re.match(r"^i\d+$", x): return IntTy(int(x[1:]))
        if x == "[":
            n = int(self.next()); self.expect("x"); t = self.type(); self.expect("]")
            return Ty("arr", n, t)
        if x == "{":
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"): break
                    self.expect(",")
            return Ty("struct", fs, False)
        if x == "<":
            if self.eat("{"):
                fs = []
                if not self.eat("}"):
                    while True:
                        fs.append(self.type())
                        if self.eat("}"): break
                        self.expect(",")
                self.expect(">")
                return Ty("struct", fs, True)
            n = int(self.next()); self.expect("x"); t = self.type(); self.expect(">")
            return Ty("vec", n, t)
        if x[0] == "%":
            return Ty("named", x)
        raise IRError("type? %r in %r" % (x, self.t))
    def value(self, ty):
        """operand"""
        x = self.next()
        if x[0] == "%": return ("reg", x)
        if x[0] == "@": return ("glob", x[1:])
        if x == "null": return ("null",)
        if x == "true": return ("int", 1)
        if x == "false": return ("int", 0)
        if x in ("undef", "poison"): return ("undef",)
        if x == "zeroinitializer": return ("zero",)
        if re.match(r"^[-+]?\d+$", x): return ("int", int(x))
        if re.match(r"^[-+]?\d", x): return ("fp", x)
        if x == "getelementptr":
            self.eat("inbounds")
            self.expect("(")
            bt = self.type(); self.expect(",")
            ops = []
            while True:
                self.eat("inrange")
                t = self.type(); v = self.value(t); ops.append((t, v))
                if self.eat(")"): break
                self.expect(",")
            return ("cgep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            self.expect("("); t = self.type(); v = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
            return ("ccast", x, t, v, t2)
        if x[0:2] == 'c"':
            return ("bytes", cstr(x))
        if x == "[" or x == "{" or x == "<":
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next(); close = "}"
            els = []
            if not self.eat(close):
                while True:
                    t = self.type(); v = self.value(t); els.append((t, v))
                    if self.eat(close): break
                    self.expect(",")
            if x == "<" and close == "}":
                self.expect(">")
            return ("agg", els)
        raise IRError("value? %r in %r" % (x, self.t))
    def tv(self):
        self.skip_attrs(); t = self.type(); self.skip_attrs(); v = self.value(t); return t, v

def cstr(x):
    s = x[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Instr:
    __slots__ = ("op", "res", "ty", "a", "dbg", "txt", "flags")
    def __init__(self, op, res=None, ty=None, a=None, flags=()):
        self.op, self.res, self.ty, self.a, self.flags = op, res, ty, a, flags
        self.dbg = None
    def __repr__(self):
        return "%s=%s %r %r" % (self.res, self.op, self.ty, self.a)

class Block:
    def __init__(self, name):
        self.name = name; self.ins = []
    def succs(self):
        t = self.ins[-1]
        if t.op == "br": return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == "switch": return [t.a[1]] + [l for _, l in t.a[2]]
        return []

class Func:
    def __init__(self, name, ret, params, varargs=False):
        self.name, self.ret, self.params, self.varargs = name, ret, params, varargs
        self.blocks = {}; self.entry = None; self.raw = None; self._loops = None; self._cuts = None; self.dbg = None
        self.declares = {}     # alloca reg -> DILocalVariable id
    @property
    def parsed(self):
        return self.entry is not None
    # ---------- loops
    def loops(self):
        """header -> set of block names in the natural loop"""
        if self._loops is not None:
            return self._loops
        names = list(self.blocks)
        idx = {n: i for i, n in enumerate(names)}
        preds = {n: [] for n in names}
        for n in names:
            for s in self.blocks[n].succs():
                preds[s].append(n)
        # reachable
        reach = set(); st = [self.entry]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st += self.blocks[x].succs()
        order = [n for n in names if n in reach]
        allb = set(order)
        dom = {n: set(allb) for n in order}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == self.entry: continue
                ps = [p for p in preds[n] if p in reach]
                nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
                nd = nd | {n}
                if nd != dom[n]:
                    dom[n] = nd; ch = True
        loops = {}
        for n in order:
            for s in self.blocks[n].succs():
                if s in dom[n]:
                    body = loops.setdefault(s, {s})
                    stk = [n]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x)
                        stk += [p for p in preds[x] if p in reach]
        self._loops = loops
        return loops

    def cuts(self):
        """header -> another block of the loop that every iteration passes, behind the first exit test (the loop, rotated); loops without one are absent"""
        if self._cuts is None:
            self._cuts = {}
            loops = self.loops()
            for h, body in loops.items():
                seen, order = {h}, [h]
                for x in order:
                    for s in self.blocks[x].succs():
                        if s in body and s not in seen: seen.add(s); order.append(s)
                for x in order:
                    ss = self.blocks[x].succs()
                    if not any(s not in body for s in ss): continue
                    b = [s for s in ss if s in body and s != h and s not in loops]
                    if len(b) != 1: continue
                    # without b the header must not reach itself
                    st = [s for s in self.blocks[h].succs() if s in body and s != b[0]]; vis = set()
                    while st:
                        y = st.pop()
                        if y in vis: continue
                        vis.add(y); st += [s for s in self.blocks[y].succs() if s in body and s != b[0]]
                    if h not in vis: self._cuts[h] = b[0]; break
            if len(set(self._cuts.values())) != len(self._cuts): self._cuts = {}
        return self._cuts

class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const

class Module:
    def __init__(self, text):
        self.types = {}; self.funcs = {}; self.globals = {}; self.decls = {}; self.aliases = {}; self.md = {}
        self._parse(text)
        self._layout = {}
        self._dem = None

    def _parse(self, text):
        lines = text.split("\n")
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = self._header(l)
                f.raw = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j + 1; continue
            if l.startswith("declare"):
                f = self._header(l); self.decls[f.name] = f
            elif l.startswith("%"):
                m = re.match(r'^(%(?:"[^"]*"|\S+)) = type (.*)$', l)
                if m:
                    if m.group(2).strip() == "opaque":
                        self.types[m.group(1)] = Ty("struct", [], False)
                    else:
                        self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
            elif l.startswith("@"):
                self._global(l)
            elif l.startswith("!"):
                m = re.match(r"^(![0-9]+) = (.*)$", l)
                if m: self.md[m.group(1)] = m.group(2)
            i += 1

    def _global(self, l):
        m = re.match(r'^@("[^"]*"|[-A-Za-z$._0-9]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        if " alias " in rest.split("(")[0] or re.search(r"\balias\b", rest[:80]):
            tgt = re.findall(r"@([-A-Za-z$._0-9]+)", rest)
            self.aliases[name] = tgt[-1]
            return
        m = re.search(r"\b(global|constant)\b (.*)$", rest)
        if not m: return
        const = m.group(1) == "constant"
        self.globals[name] = Global(name, None, m.group(2), const)
        if "external" in rest[:m.start()]:
            self.globals[name].init = None
            self.globals[name].ty = P(tokenize(m.group(2)), self).type()

    def glob(self, name):
        g = self.globals.get(name)
        if g is None: return None
        if g.ty is None:
            s = g.init
            s = re.sub(r", align \d+.*$", "", s)
            s = re.sub(r", comdat.*$", "", s)
            s = re.sub(r", !dbg.*$", "", s)
            p = P(tokenize(s), self)
            g.ty = p.type(); g.init = p.value(g.ty)
        return g

    def _header(self, l):
        l = re.sub(r"!dbg (!\d+)", r"", l) if False else l
        m = re.search(r"@(\"[^\"]*\"|[-A-Za-z$._0-9]+)\(", l)
        name = m.group(1)
        pre = l[:m.start()]
        # return type: tokens between attributes and name
        toks = tokenize(pre)[1:]
        p = P(toks, self)
        p.skip_attrs()
        while p.peek() in ("dso_local",): p.next(); p.skip_attrs()
        try:
            ret = p.type()
        except IRError:
            ret = VOID
        # params
        rest = l[m.end():]
        depth = 1; k = 0
        inq = False
        while depth:
            c = rest[k]
            if c == '"': inq = not inq
            if not inq:
                if c == "(": depth += 1
                elif c == ")": depth -= 1
            k += 1
        ps = rest[:k - 1]
        tail = rest[k:]
        p = P(tokenize(ps), self)
        params = []; va = False; cnt = 0
        while p.peek() is not None:
            if p.eat("..."):
                va = True; break
            p.skip_attrs(); t = p.type(); p.skip_attrs()
            nm = None
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()
            else:
                nm = "%" + str(cnt)
            cnt += 1
            params.append((t, nm))
            if not p.eat(","): break
        f = Func(name, ret, params, va)
        md = re.search(r"!dbg (!\d+)", tail)
        if md: f.dbg = md.group(1)
        return f

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is not None and not f.parsed:
            self._body(f)
        return f

    def _body(self, f):
        cur = None
        lines = f.raw
        # join multi-line switch
        joined = []; i = 0
        while i < len(lines):
            l = lines[i]
            if re.match(r"^\s+switch ", l):
                while "]" not in lines[i]:
                    i += 1; l += " " + lines[i].strip()
            joined.append(l); i += 1
        for l in joined:
            if not l.strip(): continue
            if l[0] not in " \t":
                m = re.match(r'^("[^"]*"|[-A-Za-z$._0-9]+):', l)
                if not m: raise IRError("label? " + l)
                cur = Block(m.group(1)); f.blocks[cur.name] = cur
                if f.entry is None: f.entry = cur.name
                continue
            if cur is None:
                nm = str(len(f.params))
                cur = Block(nm); f.blocks[nm] = cur; f.entry = nm
            ins = self._instr(l, f)
            if ins is not None:
                cur.ins.append(ins)

    def _instr(self, l, f):
        dbg = None
        m = re.search(r", !dbg (!\d+)", l)
        if m: dbg = m.group(1)
        s = re.sub(r", ![a-zA-Z_.]+ !\d+", "", l).strip()
        if "@llvm.dbg." in s:
            m = re.search(r"llvm\.dbg\.declare\(metadata ptr (%\S+?), metadata (!\d+)", l)
            if m: f.declares[m.group(1)] = m.group(2)
            return None
        if "@llvm.lifetime" in s or "@llvm.assume" in s: return None
        res = None
        m = re.match(r'^(%(?:"[^"]*"|[-A-Za-z$._0-9]+)) = (.*)$', s)
        if m: res, s = m.group(1), m.group(2)
        p = P(tokenize(s), self)
        op = p.next()
        ins = None
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            t = p.type(); cnt = None
            if p.eat(",") and p.peek() != "align":
                ct = p.type(); cnt = (ct, p.value(ct))
            ins = Instr("alloca", res, t, cnt)
        elif op == "load":
            p.eat("volatile"); p.eat("atomic"); t = p.type(); p.expect(","); pt = p.type(); v = p.value(pt)
            ins = Instr("load", res, t, v)
        elif op == "store":
            p.eat("volatile"); p.eat("atomic"); t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); q = p.value(pt)
            ins = Instr("store", None, t, (v, q))
        elif op == "getelementptr":
            fl = []
            while p.peek() in ("inbounds", "nuw", "nusw"): fl.append(p.next())
            bt = p.type(); p.expect(",")
            ops = []
            while True:
                t = p.type(); v = p.value(t); ops.append((t, v))
                if not p.eat(","): break
            ins = Instr("gep", res, bt, ops, tuple(fl))
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            fl = []
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"): fl.append(p.next())
            t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            ins = Instr("bin", res, t, (op, a, b), tuple(fl))
        elif op == "icmp":
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            ins = Instr("icmp", res, t, (pred, a, b))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            p.eat("nneg")
            t = p.type(); v = p.value(t); p.expect("to"); t2 = p.type()
            ins = Instr("cast", res, t2, (op, t, v))
        elif op == "br":
            if p.peek() == "label":
                p.next(); ins = Instr("br", None, None, (p.next()[1:],))
            else:
                t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); a = p.next()[1:]; p.expect(","); p.expect("label"); b = p.next()[1:]
                ins = Instr("br", None, None, (c, a, b))
        elif op == "switch":
            t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = p.next()[1:]; p.expect("[")
            cases = []
            while not p.eat("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); cases.append((cv[1], p.next()[1:]))
            ins = Instr("switch", None, t, (v, d, cases))
        elif op == "ret":
            t = p.type()
            ins = Instr("ret", None, t, None if t.k == "void" else p.value(t))
        elif op == "unreachable":
            ins = Instr("unreachable")
        elif op == "phi":
            t = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(t); p.expect(","); b = p.next()[1:]; p.expect("]"); inc.append((v, b))
                if not p.eat(","): break
            ins = Instr("phi", res, t, inc)
        elif op == "select":
            ct, c = p.tv(); p.expect(","); t, a = p.tv(); p.expect(","); t2, b = p.tv()
            ins = Instr("select", res, t, (c, a, b))
        elif op == "extractvalue":
            t = p.type(); v = p.value(t); idx = []
            while p.eat(","): idx.append(int(p.next()))
            ins = Instr("extractvalue", res, t, (v, idx))
        elif op == "insertvalue":
            t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.eat(","): idx.append(int(p.next()))
            ins = Instr("insertvalue", res, t, (v, v2, idx))
        elif op in ("call",):
            p.skip_attrs()
            rt = p.type()
            # optional function type  ret (args)
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.eat(")"):
                while True:
                    p.skip_attrs(); t = p.type(); p.skip_attrs()
                    if t.k == "metadata":
                        p.next(); v = ("undef",)
                    else:
                        v = p.value(t)
                    args.append((t, v))
                    if p.eat(")"): break
                    p.expect(",")
            ins = Instr("call", res, rt, (callee, args))
        elif op in ("uitofp", "sitofp", "fadd", "fsub", "fmul", "fdiv", "fpext", "fptrunc"):
            ins = Instr("float", res, None, l.strip())      # a floating-point value: only ever printed, never computed with
        elif op == "freeze":
            t = p.type(); v = p.value(t); ins = Instr("freeze", res, t, v)
        else:
            ins = Instr("unsupported", res, None, l.strip())
        ins.dbg = dbg
        return ins

    # ------------------------------------------------------- layout
    def resolve(self, t):
        while t.k == "named":
            if t.a not in self.types: raise IRError("unknown type " + t.a)
            t = self.types[t.a]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t.k == "int": return max(1, min(8, (t.a + 7) // 8)) if t.a != 128 else 16
        if t.k == "ptr": return 8
        if t.k == "arr": return self.align(t.b)
        if t.k == "struct":
            return 1 if t.b or not t.a else max(self.align(x) for x in t.a)
        if t.k == "fp": return 8
        raise IRError("align %r" % t)
    def size(self, t):
        t = self.resolve(t)
        if t.k == "int": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a, (t.a + 7) // 8)
        if t.k == "ptr": return 8
        if t.k == "arr": return t.a * self.size(t.b)
        if t.k == "struct": return self._slayout(t)[1]
        if t.k == "fp": return 8
        raise IRError("size %r" % t)
    def _slayout(self, t):
        k = id(t)
        if k in self._layout: return self._layout[k][1:]
        off = 0; offs = []
        for x in t.a:
            if not t.b:
                a = self.align(x); off = (off + a - 1) // a * a
            offs.append(off); off += self.size(x)
        if not t.b and t.a:
            a = self.align(t); off = (off + a - 1) // a * a
        self._layout[k] = (t, offs, off)
        return offs, off
    def field_off(self, t, i):
        return self._slayout(self.resolve(t))[0][i]
    def array_segs(self, t, base=0):
        """[(start, elemsize, count)] for arrays of scalars embedded in type t, in order"""
        t = self.resolve(t); out = []
        if t.k == "arr":
            e = self.resolve(t.b)
            if e.k in ("int", "ptr"):
                out.append((base, self.size(e), t.a))
            else:
                for j in range(min(t.a, 64)):
                    out += self.array_segs(e, base + j * self.size(e))
        elif t.k == "struct":
            for o, x in zip(self._slayout(t)[0], t.a):
                out += self.array_segs(x, base + o)
        return out

    # -------------------------------------------------- demangling
    def demangled(self):
        if self._dem is None:
            names = sorted(set(list(self.funcs) + list(self.decls) + list(self.aliases)))
            r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
            dn = r.stdout.split("\n")
            self._dem = dict(zip(names, dn))
        return self._dem
    def dem(self, name):
        return self.demangled().get(name, name)
    def find(self, pat):
        """defined functions whose demangled name starts with pat + '('  (pat may carry its own parameter list)"""
        out = []
        for n, d in self.demangled().items():
            if n in self.funcs or n in self.aliases:
                d2 = d.replace(" const", "") if not pat.endswith(" const") else d
                if d == pat or (("(" not in pat) and (d.split("(")[0] == pat or (d.split("(")[0].endswith(" " + pat) and "operator" not in d))):
                    if n not in self.aliases: out.append(n)
        return out

# ------------------------------------------------------------ debug info
class DI:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}
        self.structs = {}   # qualified name -> md id
        for k, v in mod.md.items():
            if "!DICompositeType(" in v and ("DW_TAG_structure_type" in v or "DW_TAG_class_type" in v or "DW_TAG_union_type" in v):
                d = self.node(k)
                if "name" in d and "elements" in d and d.get("flags", "").find("DIFlagFwdDecl") < 0:
                    q = self.qual(k)
                    self.structs.setdefault(q, k)
    def node(self, k):
        if k in self.cache: return self.cache[k]
        s = self.mod.md.get(k, "")
        m = re.match(r"^(?:distinct )?!(\w+)\((.*)\)$", s)
        d = {}
        if m:
            d["_kind"] = m.group(1)
            body = m.group(2)
            # split on top-level commas
            parts = []; depth = 0; cur = ""; q = False
            for c in body:
                if c == '"': q = not q
                if not q:
                    if c in "({": depth += 1
                    elif c in ")}": depth -= 1
                if c == "," and depth == 0 and not q:
                    parts.append(cur); cur = ""
                else:
                    cur += c
            parts.append(cur)
            for pp in parts:
                if ":" in pp:
                    a, b = pp.split(":", 1)
                    b = b.strip()
                    if b.startswith('"'): b = b[1:-1]
                    d[a.strip()] = b
        elif s.startswith("!{") or s.startswith("distinct !{"):
            d["_kind"] = "list"
            d["items"] = re.findall(r"!\d+", s)
        self.cache[k] = d
        return d
    def qual(self, k):
        d = self.node(k); n = d.get("name", "")
        sc = d.get("scope")
        while sc and sc.startswith("!"):
            sd = self.node(sc)
            if sd.get("_kind") == "DINamespace":
                if sd.get("name") and sd.get("exportSymbols") != "true": n = sd["name"] + "::" + n
                elif not sd.get("name"): n = "(anonymous namespace)::" + n
            elif sd.get("_kind") == "DICompositeType":
                n = sd.get("name", "?") + "::" + n
            else:
                break
            sc = sd.get("scope")
        return n
    def strip(self, k):
        """strip typedef/cv"""
        while k and k != "null":
            d = self.node(k)
            if d.get("_kind") == "DIDerivedType" and d.get("tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type", "DW_TAG_restrict_type"):
                k = d.get("baseType")
            else:
                return k
        return None
    def size(self, k):
        k = self.strip(k)
        d = self.node(k)
        if "size" in d: return int(d["size"]) // 8
        if d.get("tag") in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"): return 8
        return 0
    def scalar(self, k):
        """('int',size,signed)|('bool',1)|('ptr',pointee)|None"""
        k = self.strip(k)
        if k is None: return None
        d = self.node(k)
        if d["_kind"] == "DIBasicType":
            e = d.get("encoding", "")
            sz = int(d.get("size", "0")) // 8
            if e == "DW_ATE_boolean": return ("bool", 1)
            if e == "DW_ATE_float": return ("fp", sz)
            return ("int", sz, e in ("DW_ATE_signed", "DW_ATE_signed_char"))
        if d.get("tag") in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
            return ("ptr", d.get("baseType"))
        if d.get("tag") == "DW_TAG_enumeration_type":
            sz = int(d.get("size", "32")) // 8
            b = self.scalar(d["baseType"]) if d.get("baseType") else ("int", sz, True)
            return ("int", sz, b[2] if len(b) > 2 else False)
        return None
    def members(self, k):
        """[(name, offset_bytes, type id)] direct members and bases"""
        k = self.strip(k)
        d = self.node(k); out = []
        el = d.get("elements")
        if not el or el == "null": return out
        for m in self.node(el).get("items", []):
            e = self.node(m)
            if e.get("_kind") != "DIDerivedType": continue
            if e.get("tag") == "DW_TAG_member" and "DIFlagStaticMember" not in e.get("flags", "") and "extraData" not in e:
                out.append((e.get("name", ""), int(e.get("offset", "0")) // 8, e["baseType"]))
            elif e.get("tag") == "DW_TAG_member" and "DIFlagStaticMember" not in e.get("flags", ""):
                out.append((e.get("name", ""), int(e.get("offset", "0")) // 8, e["baseType"]))
            elif e.get("tag") == "DW_TAG_inheritance":
                out.append(("<base>", int(e.get("offset", "0")) // 8, e["baseType"]))
        return out
    def flatten(self, k, base=0, prefix=""):
        """yield (path, offset, kind) where kind is scalar() tuple or ('array', elemscalar, elemsize, count)"""
        k = self.strip(k)
        if k is None: return
        d = self.node(k)
        if d.get("tag") == "DW_TAG_array_type":
            n = 1
            for it in self.node(d["elements"]).get("items", []):
                c = self.node(it).get("count", "0")
                n *= int(c) if re.match(r"^\d+$", c) else 0
            es = self.scalar(d["baseType"]); sz = self.size(d["baseType"])
            yield (prefix, base, ("array", es, sz, n, d["baseType"]))
            return
        s = self.scalar(k)
        if s is not None:
            yield (prefix, base, s); return
        if d.get("tag") == "DW_TAG_union_type":
            yield (prefix, base, ("union", self.size(k))); return
        for n, o, t in self.members(k):
            p2 = prefix if n == "<base>" else ((prefix + "." + n) if prefix else n)
            yield from self.flatten(t, base + o, p2)
    def struct(self, name):
        return self.structs.get(name)
    def field(self, name, path):
        k = self.struct(name)
        if k is None: raise IRError("no struct " + name)
        return self.field_of(k, path)
    def field_of(self, k, path):
        """(offset, type id) of a dotted path, descending through bases"""
        off = 0
        for part in path.split("."):
            r = self._find(k, part)
            if r is None: raise IRError("no field %s in %s" % (part, self.qual(self.strip(k))))
            off += r[0]; k = r[1]
        return off, k
    def _find(self, k, part):
        for n, o, t in self.members(k):
            if n == part: return o, t
        for n, o, t in self.members(k):
            if n == "<base>":
                r = self._find(t, part)
                if r: return o + r[0], r[1]
        return None
    def line(self, k):
        d = self.node(k) if k else {}
        return d.get("line")
