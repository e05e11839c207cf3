"""VCDiffStreamingEncoder, VCDiffEncoder (properties C14, C15, C16, C07, C01): which calls reach the writer and the engine,
in which order and with which arguments.

The writer is an interface here; each virtual call is recorded in a ghost event list (these functions have no loops, so the
list is concrete on every path)."""
from .common import *
from .window import Out, OView
from . import engine_, addrcache
from .engine_ import mk_engine, engine_inv, EN, WVT
from .adler import ADLER
from .codetable import DEFAULT
SE, IM, VE, HD = "VCDiffStreamingEncoder", "VCDiffStreamingEncoderImpl", "VCDiffEncoder", "HashedDictionary"
I8, I32 = ir.IntTy(8), ir.IntTy(32)

def ev(st, *x): st.ghost["events"] = st.ghost.get("events", ()) + (x,)
def evs(st, *names): return [x for x in st.ghost.get("events", ()) if not names or x[0] in names]
def same(p, q): return isinstance(p, PtrV) and isinstance(q, PtrV) and p.reg is q.reg and (p.reg is None or Z(p.off.z()) == Z(q.off.z()))
def fresh_bool(e, nm): return z3.Bool("%s!%d" % (nm, next(e.fresh_n)))
def mk_coder(e, st):
    def rec(name):
        def h(e, st, a): ev(st, name, *a[1:]); return None
        return h
    def ask(name):
        def h(e, st, a): b = fresh_bool(e, name); ev(st, name, *a[1:], b); return BoolV(b)
        return h
    def init(e, st, a): ev(st, "Init", *a[1:]); return BoolV(True)
    hs = {n: rec(n) for n in ("Add", "Copy", "Run", "Output", "WriteHeader", "AddChecksum", "FinishEncoding")}
    hs.update({n: ask(n) for n in ("VerifyDictionary", "VerifyChunk")}); hs["Init"] = init
    return mk_iface(e, st, "coder", WVT, hs)
def mk_enc(e, st):
    """a streaming encoder in any state"""
    o = e.object(st, "encoder", NS + SE); im = e.object(st, "encoder_impl", NS + IM); eng, d, D = mk_engine(e, st); co = mk_coder(e, st)
    setinit(e, o, 0, SE, "impl_", PtrV(im, 0)); im.icells[e.di.field(NS + IM, "engine_")[0]] = (8, eng); im.icells[e.di.field(NS + IM, "coder_")[0]] = (8, co)
    fe = e.fresh_int(st, 32, True, "format_extensions"); setinit(e, im, 0, IM, "format_extensions_", fe); st.assume(fe.t >= 0)
    for f in ("look_for_target_matches_", "encode_chunk_allowed_"):
        b = fresh_bool(e, f); setinit(e, im, 0, IM, f, IntV(z3.If(b, 1, 0), 8, 0, 1, b))
    return dict(p=PtrV(o, 0), im=PtrV(im, 0), eng=eng, D=D, dict=PtrV(d, 0, d.segs[0]), co=co)
class EncV:
    def __init__(self, e, st, p):
        self.im = getv(e, st, p, SE, "impl_"); self.eng = getv(e, st, self.im, IM, "engine_")
        self.fe = Z(e.u(st, getv(e, st, self.im, IM, "format_extensions_"))); self.look = geti(e, st, self.im, IM, "look_for_target_matches_"); self.allowed = geti(e, st, self.im, IM, "encode_chunk_allowed_")
        self.co = e.load(st, PtrV(self.im.reg, self.im.off.add(e.di.field(NS + IM, "coder_")[0])), ir.PTR)
        self.d = getv(e, st, self.eng, EN, "dictionary_"); self.D = geti(e, st, self.eng, EN, "dictionary_size_")
def order(st, a, b):
    """no event b before an event a"""
    l = [x[0] for x in evs(st)]; return b not in l or (a in l and l.index(a) < l.index(b))
class EncOp(Contract):
    props = ("C14", "C15", "C16", "C19", "C07", "C01")
    def flag(self, e, a): return (EncV(e, e.entry, a[0]).im.reg, ("cell", e.di.field(NS + IM, "encode_chunk_allowed_")[0], 1))
    def modifies(self, e, st, a): return [cell(e, EncV(e, st, a[0]).im, IM, "encode_chunk_allowed_")]
    def pre(self, e, st, a): return engine_inv(e, st, EncV(e, st, a[0]).eng)
    def bits(self, t, k): return (t / (1 << k)) % 2 == 1
class Start(EncOp):
    match = NS + SE + "::StartEncodingToInterface"; label = "StartEncoding"
    def setup(self, e, st, case):
        d = mk_enc(e, st); self.out = Out(e, st); return [d["p"], self.out.p]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = EncV(e, s0, a[0]), EncV(e, s1, a[0]); b = B(ret.b); vd = evs(s1, "VerifyDictionary"); wh = evs(s1, "WriteHeader"); it = evs(s1, "Init")
        out = [("the writer is initialised once, with the size of the dictionary", z3.And(len(it) <= 1, z3.Implies(b, len(it) == 1), *[Z(e.u(s1, x[1])) == v0.D for x in it])),
               ("the whole dictionary is verified", z3.And(z3.Or(len(vd) >= 1, v0.D == 0), *[z3.And(same(x[1], v0.d), Z(e.u(s1, x[2])) == v0.D) for x in vd])),
               ("succeeds exactly when the dictionary suits the writer", b == z3.And(*[x[-1] for x in vd])),
               ("on success one header, for the flags of this encoder, to the caller's output", len(wh) <= 1 and z3.Implies(b, len(wh) == 1) if not wh else z3.And(len(wh) == 1, same(wh[0][1], a[1]), Z(e.u(s1, wh[0][2])) == v0.fe)),
               ("on failure no header", z3.Implies(z3.Not(b), len(wh) == 0)), ("nothing else is written", not evs(s1, "Add", "Copy", "Run", "Output", "FinishEncoding", "AddChecksum", "Encode") and not evs(s1, "VerifyChunk")),
               ("encoding is allowed after success; failure changes nothing", z3.If(b, v1.allowed, v1.allowed == v0.allowed)), ("the header follows initialisation", order(s1, "Init", "WriteHeader"))]
        return out
class Chunk(EncOp):
    match = NS + SE + "::EncodeChunkToInterface"; label = "EncodeChunk"
    cases = ("data", "null data")
    def setup(self, e, st, case):
        d = mk_enc(e, st); self.out = Out(e, st); n = e.fresh_int(st, 64, False, "len")
        if case == "null data": st.assume(n.t == 0); return [d["p"], NULLP, n, self.out.p]
        b = e.buffer(st, "data", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + n.t <= b.size); return [d["p"], PtrV(b, P, b.segs[0]), n, self.out.p]
    def pre(self, e, st, a): return EncOp.pre(self, e, st, a) + [("dictionary and target fit an int", EncV(e, st, a[0]).D + Z(e.u(st, a[2])) <= INT_MAX)]
    def modifies(self, e, st, a): return []
    def on_encode(self, e, st, a):
        ev(st, "Encode", *a); return None
    def post(self, e, s0, s1, a, ret):
        v0, v1 = EncV(e, s0, a[0]), EncV(e, s1, a[0]); b = B(ret.b); vc = evs(s1, "VerifyChunk"); ac = evs(s1, "AddChecksum"); en = evs(s1, "Encode"); n = Z(e.u(s0, a[2])); ck = self.bits(v0.fe, 1)
        out = [("refused unless started", z3.Implies(z3.Not(v0.allowed), z3.And(z3.Not(b), not en, not ac))),
               ("succeeds exactly when started and the target suits the writer", b == z3.And(v0.allowed, *[x[-1] for x in vc])),
               ("the whole chunk is verified before it is encoded", z3.Implies(z3.And(v0.allowed, n > 0), len(vc) >= 1) if not vc else z3.And(*[z3.And(same(x[1], a[1]), Z(e.u(s1, x[2])) == n) for x in vc])),
               ("exactly the chunks accepted are encoded, once", z3.And(z3.Implies(z3.Not(b), not en), z3.Implies(z3.And(b, n > 0), len(en) == 1), len(en) <= 1)), ("nothing is encoded before it is verified", z3.Or(n == 0, order(s1, "VerifyChunk", "Encode"))),
               ("a checksum goes with exactly the windows that ask for one", z3.Implies(b, z3.And(z3.Implies(n > 0, ck == (len(ac) == 1)), z3.Implies(len(ac) > 0, ck), len(ac) <= 1))), ("the checksum comes before the window", not ac or order(s1, "AddChecksum", "Encode")),
               ("nothing else reaches the writer", not evs(s1, "Init", "WriteHeader", "FinishEncoding", "Add", "Copy", "Run", "Output", "VerifyDictionary"))]
        if en:
            x = en[0]; out += [("the engine encodes exactly this chunk with this encoder's options to the caller's output", z3.And(same(x[1], v0.eng), same(x[2], a[1]), Z(e.u(s1, x[3])) == n, B(e.boolof(x[4])) == v0.look, same(x[5], a[3]), same(x[6], v0.co)))]
        if ac:
            if a[1].reg is None: want = z3.IntVal(1)
            else: want = ADLER(z3.IntVal(0), arr_of(e, s0, a[1]), Z(idx_of(a[1], seg_of(e, a[1]))), n)
            out += [("the checksum is that of exactly this chunk", Z(e.u(s1, ac[0][1])) == want)]
        return out
class Finish(EncOp):
    match = NS + SE + "::FinishEncodingToInterface"; label = "FinishEncoding"
    def setup(self, e, st, case):
        d = mk_enc(e, st); self.out = Out(e, st); return [d["p"], self.out.p]
    def post(self, e, s0, s1, a, ret):
        v0, v1 = EncV(e, s0, a[0]), EncV(e, s1, a[0]); b = B(ret.b); fi = evs(s1, "FinishEncoding")
        return [("succeeds exactly when started", b == v0.allowed), ("the writer finishes once", z3.And(b == (len(fi) == 1), len(fi) <= 1)), ("to the caller's output", not fi or same(fi[0][1], a[1])), ("no further chunk is allowed", z3.Not(v1.allowed)), ("nothing else reaches the writer", len(evs(s1)) == len(fi))]

# ------------------------------------------------------------------ construction
def writer_fresh(e, st, p, interleaved):
    """a VCDiffCodeTableWriter as constructed with the default code table"""
    from .encodetable import WR, STRS, WV, soff
    sl = [Z(s_len(e, st, fld(e, p, WR, f)[0])) for f in STRS]; dp, ap, tp, mp = [e.load(st, fld(e, p, WR, f)[0], ir.PTR) for f in ("data_for_add_and_run_", "addresses_for_copy_", "code_table_data_", "instruction_map_")]
    C = addrcache.CLS; c = fld(e, p, WR, "address_cache_")[0]; g = lambda f: geti(e, st, p, WR, f); base = p.off.c
    at = lambda q, f: B(isinstance(q, PtrV) and q.reg is p.reg and q.off.const() and q.off.c == base + soff(e, f))
    return [("its sections are empty", z3.And(*[x == 0 for x in sl])), ("operands go into the instruction stream exactly when interleaved", z3.And(at(dp, STRS[0]) == interleaved, at(dp, STRS[1]) == z3.Not(interleaved), at(ap, STRS[0]) == interleaved, at(ap, STRS[2]) == z3.Not(interleaved))),
            ("it uses the default code table", isinstance(tp, PtrV) and tp.reg is e.globals_r.get(DEFAULT) and tp.off.const() and tp.off.c == 0), ("and the default modes", z3.And(g("max_mode_") == 8, geti(e, st, c, C, "near_cache_size_") == 4, geti(e, st, c, C, "same_cache_size_") == 3)),
            ("it has no instruction map yet", isinstance(mp, PtrV) and mp.reg is None), ("no checksum, no target, no opcode to merge with", z3.And(z3.Not(g("add_checksum_")), g("checksum_") == 0, g("target_length_") == 0, g("last_opcode_index_") == -1))]
def vt_of(e, st, p):
    q = e.load(st, p, ir.PTR); return q
class Ctor(Contract):
    match = NS + SE + "::VCDiffStreamingEncoder(open_vcdiff::HashedDictionary const*, int, bool)"; label = "VCDiffStreamingEncoder"; props = ("C14", "C15", "C16", "C19", "C07", "C01")
    def setup(self, e, st, case):
        eng, d, D = mk_engine(e, st); o = Region("encoder", 8, "sym", uninit=True); o.digrid = {0: ("ptr", 8)}; h = e.object(st, "hashed_dictionary", NS + HD); setinit(e, h, 0, HD, "engine_", eng); fe = e.fresh_int(st, 32, True, "format_extensions"); st.assume(fe.t >= 0)
        e.global_region(st, DEFAULT)
        return [PtrV(o, 0), PtrV(h, 0), fe, BoolV(fresh_bool(e, "look"))]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        im = e.load(s1, a[0], ir.PTR); fe = Z(e.u(s0, a[2])); bit = lambda k: (fe / (1 << k)) % 2 == 1
        f = lambda n: PtrV(im.reg, im.off.add(e.di.field(NS + IM, n)[0]), None)
        eng = e.load(s1, f("engine_"), ir.PTR); co = e.load(s1, f("coder_"), ir.PTR); al = e.u(s1, e.load(s1, f("encode_chunk_allowed_"), I8)); lk = e.load(s1, f("look_for_target_matches_"), I8)
        out = [("it uses the dictionary's engine", same(eng, getv(e, s0, a[1], HD, "engine_"))), ("it has the options given", z3.And(Z(e.u(s1, e.load(s1, f("format_extensions_"), I32))) == fe, (Z(e.u(s1, lk)) != 0) == B(a[3].b))), ("encoding is not allowed yet", Z(al) == 0)]
        vt = vt_of(e, s1, co); name = vt.reg.name if isinstance(vt, PtrV) and vt.reg is not None else "?"
        js = "JSONCodeTableWriter" in name; vc = "VCDiffCodeTableWriter" in name
        out.append(("the writer is the JSON writer exactly when the flags ask for it", z3.And(bit(2) == js, js != vc)))
        if vc: out += writer_fresh(e, s1, co, bit(0))
        return out
    def apply(self, e, st, a):
        o = Region("impl%d" % next(e.fresh_n), 24, "heap"); e.store(st, a[0], ir.PTR, PtrV(o, 0)); ev(st, "construct", *a); return None
class SimpleEncode(Contract):
    match = NS + VE + "::EncodeToInterface"; label = "VCDiffEncoder::Encode"; props = ("C14", "C15", "C16", "C19", "C07", "C01")
    cases = ("first use", "again")
    def setup(self, e, st, case):
        o = e.object(st, "simple_encoder", NS + VE); d = mk_enc(e, st); self.case = case
        setinit(e, o, 0, VE, "encoder_", d["p"] if case == "again" else NULLP); fe = e.fresh_int(st, 32, True, "flags"); st.assume(fe.t >= 0); setinit(e, o, 0, VE, "flags_", fe); self.fe = fe
        b = fresh_bool(e, "look"); self.look = b; setinit(e, o, 0, VE, "look_for_target_matches_", IntV(z3.If(b, 1, 0), 8, 0, 1, b))
        off = e.di.field(NS + VE, "dictionary_")[0]; o.icells[off + e.di.field(NS + HD, "engine_")[0]] = (8, d["eng"]); self.eng = d["eng"]
        self.out = Out(e, st); self.out.clear = None; n = e.fresh_int(st, 64, False, "target_len"); bf = e.buffer(st, "target", ro=True); P = e.fresh("P"); st.assume(P >= 0, P + n.t <= bf.size)
        g = self.out
        def clear(e, st, a): ev(st, "clear"); gset(e, st, g.len, z3.IntVal(0)); return None
        self.out.p = mk_iface(e, st, "output_string", "_ZTVN11open_vcdiff12OutputStringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEE", {"append": g.append, "clear": clear, "size": g.size, "push_back": g.push, "ReserveAdditionalBytes": g.reserve}); self.out.p.reg.gout = g
        return [PtrV(o, 0), PtrV(bf, P, bf.segs[0]), n, self.out.p]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        E_ = evs(s1); names = [x[0] for x in E_]; b = B(ret.b); en = getv(e, s1, a[0], VE, "encoder_")
        cl = [k for k, n in enumerate(names) if n == "clear"]; S = evs(s1, "Start"); C = evs(s1, "Chunk"); F = evs(s1, "Finish"); K = evs(s1, "construct"); H = evs(s1, "DictInit")
        first = [n for n in names if n in ("Start", "Chunk", "Finish", "clear")]
        out = [("the output is replaced: cleared once, before anything is written", len(cl) == 1 and first[0] == "clear"),
               ("one encoder is used, on the caller's data", z3.And(*[same(x[1], en) for x in S + C + F] + [z3.And(same(x[2], a[1]), Z(e.u(s1, x[3])) == Z(e.u(s0, a[2]))) for x in C])),
               ("start, one chunk, finish, in this order", [n for n in names if n in ("Start", "Chunk", "Finish")] == ["Start", "Chunk", "Finish"][:len(S + C + F)]),
               ("all go to the caller's output", z3.And(*[same(x[-2], a[3]) for x in S + C + F])),
               ("succeeds exactly when every step does", b == z3.And(len(S) == 1, len(C) == 1, len(F) == 1, *[x[-1] for x in S + C + F])),
               ("a failure stops the encoding", z3.And(*[z3.Implies(z3.Not(x[-1]), not C and not F) for x in S] + [z3.Implies(z3.Not(x[-1]), not F) for x in C] or [True]))]
        if self.case == "again": out.append(("the encoder is kept", not K and same(en, getv(e, s0, a[0], VE, "encoder_"))))
        else:
            dp = fld(e, a[0], VE, "dictionary_")[0]
            out.append(("the dictionary is initialised first", len(H) == 1 and same(H[0][1], self.eng)))
            if K: out.append(("a new encoder on this dictionary with the options set", z3.And(len(K) == 1, same(K[0][1], en), same(K[0][2], dp), Z(e.u(s1, K[0][3])) == Z(e.u(s0, self.fe)), B(e.boolof(K[0][4])) == self.look)))
            out.append(("nothing is encoded with an uninitialised dictionary", z3.Implies(z3.Not(H[0][-1]), z3.And(z3.Not(b), not S)) if H else False))
        return out
def step(name):
    def apply(self, e, st, a):
        b = fresh_bool(e, name); ev(st, name, *a, b); return BoolV(b)
    return apply
Start.apply = step("Start"); Chunk.apply = step("Chunk"); Finish.apply = step("Finish")
CONTRACTS = [Start(), Chunk(), Finish(), Ctor(), SimpleEncode()]
