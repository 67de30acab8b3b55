"""Contracts of allocators/region/region.c"""
from hvc.spec import *
from specs.common import SZ, SMAX

def align8(n): return divc(n + 7, 8) * 8
def region(E, i, heap=True):
    """a valid region: no storage (size and offset 0), or a block of size bytes of which the first offs are free"""
    v = E.struct(i, "HarbolRegion")
    if E.isnull(v, "mem"):
        E.req(And(eq(v.offs, 0), eq(v.size, 0)), "region without storage is empty"); v.null = True; v.buf = BV(E, 0, 0, 0, 1, "i", "mem", None)
    else:
        E.req(And(v.offs <= v.size, v.size <= MAXOBJ, v.size >= 1), "offset within the region"); v.null = False; v.buf = E.buf(v, "mem", v.size, heap=heap)
    return v
EMPTY = lambda r: {(r, "mem"): NULLP, (r, "offs"): L(0), (r, "size"): L(0)}
@contract("harbol_region_make", props=["C09"])
def _(E):
    r = E.sret("HarbolRegion"); n = E.int(0)
    ok = And(n >= 1, n <= MAXOBJ)
    return [Outcome("empty", when=Not(ok), sets=EMPTY(r)), Outcome("no memory", when=ok, sets=EMPTY(r), nomem=True),
            Outcome("made", when=ok, sets={(r, "mem"): NewBuf(n, lambda k: L(0)), (r, "offs"): n, (r, "size"): n})]
@contract("harbol_region_make_from_buffer", props=["C09"])
def _(E):
    r = E.sret("HarbolRegion"); n = E.int(1); E.req(n <= MAXOBJ, "buffer size"); b = E.buf_arg(0, n)
    return [Outcome("empty", when=eq(n, 0), sets=EMPTY(r)),
            Outcome("made", when=n >= 1, sets={(r, "mem"): b.ptr(), (r, "offs"): n, (r, "size"): n})]
@contract("harbol_region_clear", props=["C09"])
def _(E):
    v = region(E, 0)
    return [Outcome("cleared", sets=EMPTY(v), frees=[v.buf])]
@contract("harbol_region_alloc", props=["C09"])
def _(E):
    v = region(E, 0, False); n = E.int(1)
    if v.null: return [Outcome("no storage", ret=NULLP)]
    a = align8(n); fits = And(n >= 1, n <= v.size, a <= v.offs)
    return [Outcome("does not fit", when=Not(fits), ret=NULLP),
            Outcome("block", when=fits, ret=v.buf.ptr(v.offs - a), sets={(v, "offs"): v.offs - a}, mods={v.buf: lambda k: ite(And(k >= v.offs - a, k < v.offs), 0, v.buf.old(k))})]
@contract("harbol_region_remaining", props=["C09"])
def _(E):
    v = region(E, 0, False); return [Outcome("remaining", ret=v.offs)]
