import z3
from ..engine import *
from ..contract import Contract, Spec
from .. import ir
from ..models import *
NS = "open_vcdiff::"
INT_MAX = (1 << 31) - 1

def fld(e, p, cls, path):
    """pointer to a named field of the object p points to"""
    off, ty = e.di.field(NS + cls if not cls.startswith("!") else cls, path)
    return PtrV(p.reg, p.off.add(off), None), ty, off
def fty(e, ty):
    k = e.di.scalar(ty)
    if k is None: return None
    if k[0] == "ptr": return ir.PTR
    if k[0] == "bool": return ir.IntTy(8)
    return ir.IntTy(8 * k[1])
def getv(e, st, p, cls, path):
    q, ty, off = fld(e, p, cls, path)
    return e.load(st, q, fty(e, ty))
def geti(e, st, p, cls, path):
    q, ty, off = fld(e, p, cls, path)
    v = e.load(st, q, fty(e, ty))
    k = e.di.scalar(ty)
    if k[0] == "bool":
        if v.b is not None: return B(v.b)
        return Z(v.t) != 0 if not isc(v.t) else v.t != 0
    return Z(e.s(st, v) if k[2] else e.u(st, v))
def setinit(e, reg, off0, cls, path, v):
    off, ty = e.di.field(NS + cls, path)
    k = e.di.scalar(ty)
    size = 8 if k[0] == "ptr" else k[1]
    reg.icells[off0 + off] = (size, v)
def cell(e, p, cls, path):
    q, ty, off = fld(e, p, cls, path)
    k = e.di.scalar(ty)
    return (q.reg, ("cell", q.off.c, 8 if k[0] == "ptr" else k[1]))
def arr_of(e, st, p):
    s = seg_of(e, p)
    return e.seg_arr(st, p.reg, s)
def symint(e, st, w, signed, name):
    return e.fresh_int(st, w, signed, name)

def vtable_slots(e, sym):
    """method name -> slot index of a virtual table in the IR"""
    g = e.mod.glob(sym); out = {}
    ents = g.init[1][0][1][1]
    for i, (t, v) in enumerate(ents[2:]):
        if v[0] == "glob":
            d = e.mod.dem(e.mod.aliases.get(v[1], v[1]))
            out.setdefault(d.split("(")[0].split("::")[-1], i)
    return out, len(ents) - 2
def mk_iface(e, st, name, sym, handlers, size=8):
    """an abstract object behind an interface: each virtual call runs the handler of that method"""
    slots, n = vtable_slots(e, sym)
    vt = Region(name + ".vtable", 8 * n, "sym", ro=True)
    for i in range(n): vt.icells[8 * i] = (8, OpaqueV("virtual slot"))
    for m, h in handlers.items():
        if m in slots: vt.icells[8 * slots[m]] = (8, VirtFn(h))
    r = Region(name, size, "sym")
    r.icells[0] = (8, PtrV(vt, 0))
    return PtrV(r, 0)
def real_vtable(e, sym):
    """the class's own virtual table: each slot is the function in it"""
    ents = e.mod.glob(sym).init[1][0][1][1][2:]
    vt = Region("vtable", 8 * len(ents), "sym", ro=True)
    for i, (t, v) in enumerate(ents): vt.icells[8 * i] = (8, FnV(v[1]) if v[0] == "glob" else OpaqueV("virtual slot"))
    return PtrV(vt, 0)
def ghost_cell(e, name, init):
    """a ghost integer variable, kept in a region of its own so that frames and loops treat it like memory"""
    r = Region("ghost." + name, 8, "heap"); r.digrid = {0: ("int", 8, True)}
    r.icells[0] = (8, init if isinstance(init, IntV) else IntV(init, 64))
    return r
def gget(e, st, r): return Z((st.rc(r).cells.get(0) or r.icells[0])[1].t)
def gset(e, st, r, t):
    st.wrc(r).cells[0] = (8, IntV(t, 64, -(1 << 63), (1 << 63) - 1)); e.note_write(st, r, ("cell", 0, 8))
