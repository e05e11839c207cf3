"""Constructors, destructors and the small option setters (properties C16, C01, C06, C10, C02, C05, C14, C15)."""
from .common import *
from .window import *
from .window import mk_life, LIFE, owned_regions
from .decoder import off, win_off
from .deltafile import isnull
from . import encoder
from .encoder import SE, IM, HD, I8, I32, same, fresh_bool, mk_coder
from .engine_ import EN, mk_engine
from .codetable import DEFAULT

LIMIT = 0x4000000       # documented default of both target size limits (64 MiB)
class EngineCtor(Contract):
    match = NS + EN + "::VCDiffEngine"; label = "VCDiffEngine()"; props = ("C16", "C19", "C01", "C13")
    cases = ("some dictionary", "empty dictionary", "null dictionary")
    def setup(self, e, st, case):
        o = Region("engine", 24, "sym", uninit=True); o.digrid = {k: ("ptr", 8) if n != "dictionary_size_" else (8, False) for n in ("dictionary_", "dictionary_size_", "hashed_dictionary_") for k in [e.di.field(NS + EN, n)[0]]}
        if case == "null dictionary": return [PtrV(o, 0), NULLP, IntV(0, 64)]
        d = e.buffer(st, "contents", ro=True); n = e.fresh_int(st, 64, False, "size"); st.assume(n.t <= d.size)
        if case == "empty dictionary": st.assume(n.t == 0)
        else: st.assume(n.t > 0)
        return [PtrV(o, 0), PtrV(d, 0, d.segs[0]), n]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        f = lambda n, t: e.load(s1, PtrV(a[0].reg, a[0].off.add(e.di.field(NS + EN, n)[0]), None), t)
        d = f("dictionary_", ir.PTR); n = Z(e.u(s1, f("dictionary_size_", ir.IntTy(64)))); h = f("hashed_dictionary_", ir.PTR); i = z3.Int("i!q"); z = Z(e.u(s0, a[2]))
        out = [("the size is kept", n == z), ("no index yet", isnull(h)), ("the dictionary is never null", isinstance(d, PtrV) and d.reg is not None)]
        if isnull(d): return out
        out.append(("all of it lies in one object", z3.And(Z(d.off.z()) == 0, Z(d.reg.size) >= z)))
        if e.quick(s1, z == 0): return out
        if not d.reg.segs: return out + [("of exactly the bytes given", False)]
        A = e.seg_arr(s1, d.reg, d.reg.segs[0]); D = arr_of(e, s0, a[1])
        return out + [("it is a private copy", d.reg is not a[1].reg and d.reg.kind == "heap"), ("of exactly the bytes given", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z), A[i] == D[i]), patterns=[A[i]]))]
class SetAllow(Contract):
    match = NS + "VCDiffStreamingDecoder::SetAllowVcdTarget"; props = ("C10", "C03", "C06")
    def setup(self, e, st, case):
        d = mk_life(e, st, next(iter(LIFE)), called=None); o = e.object(st, "decoder_handle", NS + "VCDiffStreamingDecoder"); setinit(e, o, 0, "VCDiffStreamingDecoder", "impl_", d["p"]); return [PtrV(o, 0), BoolV(fresh_bool(e, "allow"))]
    def impl(self, e, st, a): return Obj(e, getv(e, st, a[0], "VCDiffStreamingDecoder", "impl_"), IMPL)
    def may_abort(self, e, st):
        """a debug build exits when decoding has started"""
        return self.impl(e, e.entry, e.entry_args).int(e.entry, "start_decoding_was_called_")
    def modifies(self, e, st, a): I = self.impl(e, st, a); return [I.cell("allow_vcd_target_")]
    def post(self, e, s0, s1, a, ret):
        I = self.impl(e, s0, a); return [("the option is what was asked for unless decoding has started", z3.If(I.int(s0, "start_decoding_was_called_"), I.int(s1, "allow_vcd_target_") == I.int(s0, "allow_vcd_target_"), I.int(s1, "allow_vcd_target_") == B(a[1].b)))]
class DecCtor(Contract):
    match = NS + "VCDiffStreamingDecoder::VCDiffStreamingDecoder"; label = "VCDiffStreamingDecoder()"; props = ("C06", "C05", "C02", "C10")
    def setup(self, e, st, case):
        e.global_region(st, DEFAULT); o = Region("decoder_handle", 8, "sym", uninit=True); o.digrid = {0: ("ptr", 8)}; return [PtrV(o, 0)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        p = e.load(s1, a[0], ir.PTR); I = Obj(e, p, IMPL)
        if isnull(p) or p.reg.kind != "heap": return [("a decoder is created", False)]
        return fresh_state(e, s1, p) + [("no input is left over", Z(s_len(e, s1, I.ptr("unparsed_bytes_"))) == 0), ("no target is left over", Z(s_len(e, s1, I.ptr("decoded_target_"))) == 0),
            ("the documented default limits", z3.And(I.int(s1, "maximum_target_file_size_") == LIMIT, I.int(s1, "maximum_target_window_size_") == LIMIT)), ("target references are allowed", I.int(s1, "allow_vcd_target_"))]
class DecDtor(Contract):
    match = NS + "VCDiffStreamingDecoder::~VCDiffStreamingDecoder"; label = "~VCDiffStreamingDecoder"; props = ("C02",); cases = tuple(LIFE)
    def setup(self, e, st, case):
        d = mk_life(e, st, case, called=None); d["o"].kind = "heap"; o = e.object(st, "decoder_handle", NS + "VCDiffStreamingDecoder"); setinit(e, o, 0, "VCDiffStreamingDecoder", "impl_", d["p"]); return [PtrV(o, 0)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret): return [("the decoder is freed", getv(e, s0, a[0], "VCDiffStreamingDecoder", "impl_").reg.id in s1.dead)]
class Accepts(Contract):
    """the binary writer has no demands on dictionary or target"""
    props = ("C14", "C01", "C16", "C19")
    label = ""
    def __init__(self, n): self.match = self.label = NS + "VCDiffCodeTableWriter::" + n
    def setup(self, e, st, case):
        w = e.object(st, "writer", NS + "VCDiffCodeTableWriter"); b = e.buffer(st, "data", ro=True); return [PtrV(w, 0), PtrV(b, 0, b.segs[0]), e.fresh_int(st, 64, False, "len")]
    def pre(self, e, st, a): return [("the bytes exist", Z(e.u(st, a[2])) <= Z(a[1].reg.size))]
    def modifies(self, e, st, a): return []
    def post(self, e, s0, s1, a, ret): return [("always accepted", B(ret.b))]
class NoOutput(Contract):
    """nothing is left to write when the last window is out"""
    match = NS + "VCDiffCodeTableWriter::FinishEncoding"; label = "VCDiffCodeTableWriter::FinishEncoding"; props = ("C14", "C01", "C16", "C19")
    def setup(self, e, st, case): w = e.object(st, "writer", NS + "VCDiffCodeTableWriter"); self.out = Out(e, st); return [PtrV(w, 0), self.out.p]
    def modifies(self, e, st, a): return []
class NoChecksum(Contract):
    """the JSON form has no checksums"""
    match = NS + "JSONCodeTableWriter::AddChecksum"; props = ("C15", "C19")
    def setup(self, e, st, case): w = e.object(st, "writer", NS + "JSONCodeTableWriter"); return [PtrV(w, 0), e.fresh_int(st, 64, False, "checksum")]
    def modifies(self, e, st, a): return []
class Ctor4(Contract):
    """the constructor that is given a writer"""
    match = NS + SE + "::VCDiffStreamingEncoder(open_vcdiff::HashedDictionary const*, int, bool, open_vcdiff::CodeTableWriterInterface*)"; label = "VCDiffStreamingEncoder(writer)"; props = ("C14", "C15", "C16", "C19", "C01")
    def setup(self, e, st, case):
        eng, d, D = mk_engine(e, st); o = Region("encoder", 8, "sym", uninit=True); o.digrid = {0: ("ptr", 8)}; h = e.object(st, "hashed_dictionary", NS + HD); setinit(e, h, 0, HD, "engine_", eng); fe = e.fresh_int(st, 32, True, "format_extensions"); st.assume(fe.t >= 0)
        return [PtrV(o, 0), PtrV(h, 0), fe, BoolV(fresh_bool(e, "look")), mk_coder(e, st)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        im = e.load(s1, a[0], ir.PTR); fe = Z(e.u(s0, a[2])); f = lambda n: PtrV(im.reg, im.off.add(e.di.field(NS + IM, n)[0]), None)
        eng = e.load(s1, f("engine_"), ir.PTR); co = e.load(s1, f("coder_"), ir.PTR); al = e.u(s1, e.load(s1, f("encode_chunk_allowed_"), I8)); lk = e.load(s1, f("look_for_target_matches_"), I8)
        return [("it uses the dictionary's engine", same(eng, getv(e, s0, a[1], HD, "engine_"))), ("it has the options given", z3.And(Z(e.u(s1, e.load(s1, f("format_extensions_"), I32))) == fe, (Z(e.u(s1, lk)) != 0) == B(a[3].b))),
                ("encoding is not allowed yet", Z(al) == 0), ("it uses the writer given", same(co, a[4]))]
class DictCtor(Contract):
    match = NS + HD + "::HashedDictionary"; label = "HashedDictionary()"; props = ("C16", "C19", "C01"); cases = EngineCtor.cases; inline_contracts = (EngineCtor.match,)
    def setup(self, e, st, case):
        a = EngineCtor.setup(self, e, st, case); o = Region("hashed_dictionary", 8, "sym", uninit=True); o.digrid = {0: ("ptr", 8)}; return [PtrV(o, 0)] + a[1:]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        p = e.load(s1, a[0], ir.PTR)
        if isnull(p): return [("an engine is created", False)]
        return EngineCtor.post(self, e, s0, s1, [p] + a[1:], ret)
class DictDtor(Contract):
    """everything the dictionary owns is freed once, and nothing else is"""
    match = NS + HD + "::~HashedDictionary"; label = "~HashedDictionary"; props = ("C16", "C19",); cases = ("some dictionary", "empty dictionary", "not initialised")
    def setup(self, e, st, case):
        eng, d, D = mk_engine(e, st, ready=case != "not initialised"); eng.reg.kind = "heap"
        h = getv(e, st, eng, EN, "hashed_dictionary_")
        if h.reg is not None: h.reg.kind = "heap"
        if case == "empty dictionary": st.assume(D == 0); d.kind = "global"
        else: st.assume(D > 0); d.kind = "heap"; d.ro = False
        o = e.object(st, "hashed_dictionary", NS + HD); setinit(e, o, 0, HD, "engine_", eng); return [PtrV(o, 0)]
    def modifies(self, e, st, a): return None
    def post(self, e, s0, s1, a, ret):
        eng = getv(e, s0, a[0], HD, "engine_"); h = getv(e, s0, eng, EN, "hashed_dictionary_"); d = getv(e, s0, eng, EN, "dictionary_")
        return [("the engine is freed", eng.reg.id in s1.dead), ("its index too", h.reg is None or h.reg.id in s1.dead), ("its copy of the dictionary too", d.reg.kind != "heap" or d.reg.id in s1.dead)]
CONTRACTS = [DictDtor(), EngineCtor(), DictCtor(), SetAllow(), DecCtor(), DecDtor(), Accepts("VerifyChunk"), Accepts("VerifyDictionary"), NoOutput(), NoChecksum(), Ctor4()]
