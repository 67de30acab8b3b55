"""Contracts of allocators/bistack/bistack.c"""
from hvc.spec import *
from specs.common import SZ, SMAX

def align8(n): return divc(n + 7, 8) * 8
def stack(E, i, heap=True):
    """a valid bi-stack: no storage, or a block of size bytes, front <= back <= size"""
    v = E.struct(i, "HarbolBiStack")
    if E.isnull(v, "mem"):
        E.req(And(eq(v.front, 0), eq(v.back, 0), eq(v.size, 0)), "no storage"); v.null = True; v.buf = BV(E, 0, 0, 0, 1, "i", "mem", None)
    else:
        E.req(And(v.front <= v.back, v.back <= v.size, v.size <= MAXOBJ), "ends in order"); v.null = False
        extra = fresh("slack", 0, 1); E.req(Or(eq(extra, 0), eq(v.size, 0))); v.buf = E.buf(v, "mem", v.size + extra, heap=heap)
    return v
def EMPTY(r): return {(r, "mem"): NULLP, (r, "front"): L(0), (r, "back"): L(0), (r, "size"): L(0)}
def FULL(r, p, n): return {(r, "mem"): p, (r, "front"): L(0), (r, "back"): n, (r, "size"): n}
@contract("harbol_bistack_init", props=["C10"])
def _(E):
    v = E.struct(0, "HarbolBiStack"); n = E.int(1); E.req(eq(v.front, 0), "front end reset")
    ok = And(n >= 1, n <= MAXOBJ); f = FULL(v, NewBuf(n, lambda k: L(0)), n); g = FULL(v, NULLP, n); 
    return [Outcome("refused", when=eq(n, 0), ret=FALSE), Outcome("too large", when=n > MAXOBJ, ret=FALSE, sets={(v, "mem"): NULLP}), Outcome("no memory", when=ok, ret=FALSE, sets={(v, "mem"): NULLP}, nomem=True),
            Outcome("made", when=ok, ret=TRUE, sets=f)]
@contract("harbol_bistack_make", props=["C10"])
def _(E):
    r = E.sret("HarbolBiStack"); n = E.int(0); res = E.cell_arg(1, 1); ok = And(n >= 1, n <= MAXOBJ)
    bad = dict(EMPTY(r)); bad[res] = FALSE; good = FULL(r, NewBuf(n, lambda k: L(0)), n); good[res] = TRUE
    return [Outcome("refused", when=Not(ok), sets=bad), Outcome("no memory", when=ok, sets=bad, nomem=True), Outcome("made", when=ok, sets=good)]
@contract("harbol_bistack_make_from_buffer", props=["C10"])
def _(E):
    r = E.sret("HarbolBiStack"); n = E.int(1); E.req(n <= MAXOBJ, "buffer size"); b = E.buf_arg(0, n)
    return [Outcome("made", sets=FULL(r, b.ptr(), n))]
@contract("harbol_bistack_clear", props=["C10"])
def _(E):
    v = stack(E, 0); return [Outcome("cleared", sets=EMPTY(v), frees=[v.buf])]
def alloc(name, back):
    @contract(name, props=["C10"])
    def _(E):
        v = stack(E, 0, False); n = E.int(1)
        if v.null: return [Outcome("no storage", ret=NULLP)]
        a = align8(n); room = v.back - v.front; at = v.back - a if back else v.front
        sets = {(v, "back"): v.back - a} if back else {(v, "front"): v.front + a}
        # a request that fills the margin exactly may be refused
        return [Outcome("does not fit", when=Or(a >= room, n > room), ret=NULLP), Outcome("block", when=And(n <= room, a <= room), ret=v.buf.ptr(at), sets=sets)]
alloc("harbol_bistack_alloc_front", False)
alloc("harbol_bistack_alloc_back", True)
def reset(name, front, back):
    @contract(name, props=["C10"])
    def _(E):
        v = stack(E, 0, False); s = {}
        if front: s[(v, "front")] = L(0)
        if back: s[(v, "back")] = v.size
        return [Outcome("reset", sets=s)]
reset("harbol_bistack_reset_front", True, False)
reset("harbol_bistack_reset_back", False, True)
reset("harbol_bistack_reset_all", True, True)
@contract("harbol_bistack_get_margins", props=["C10"])
def _(E):
    v = E.struct(0, "HarbolBiStack"); E.req(v.front <= v.back, "ends in order")
    return [Outcome("margin", ret=v.back - v.front)]
@contract("harbol_bistack_resize", props=["C10"])
def _(E):
    v = stack(E, 0); n = E.int(1); fit = n <= MAXOBJ
    size = n if v.null else ite(eq(n, 0), L(1), n)
    return [Outcome("too large", when=Not(fit), ret=FALSE), Outcome("no memory", ret=FALSE, nomem=True),
            Outcome("resized", when=fit, ret=TRUE, sets=FULL(v, NewBuf(size, lambda k: ite(And(k < v.size, k < n), v.buf.old(k), 0), old=v.buf, valid=n), n))]
