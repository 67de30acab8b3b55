"""Contracts of allocators/objpool/objpool.c

Blocks are numbered 0..size-1; the free ones form a chain F(0), F(1), ... F(free_blocks - 1) of distinct block numbers:
next is the address of block F(0) (or 0 when none is free) and the first word of block F(j) holds F(j+1).
Distinctness is stated by a ghost position P with P(F(j)) = j."""
from hvc.spec import *
from specs.common import SZ, SMAX

def words(n): return divc(n + 7, 8)
def pool(E, i, heap=True):
    if not E.verify: raise Unsupported("pool argument at a call site")
    v = E.struct(i, "HarbolObjPool")
    if E.isnull(v, "mem"):
        for f in ("size", "objsize", "free_blocks"): E.setfield(v, f, L(0))
        E.setfield(v, "next", NULLP); v.null = True; v.buf = BV(E, 0, 0, 0, 8, "i", "mem", None); return v
    v.null = False; v.w = fresh("blockwords", 1); w = v.w
    E.setfield(v, "objsize", w * 8)
    n, m = v.size, v.free_blocks
    E.req(And(n * w * 8 <= MAXOBJ, m <= n), "sizes")
    v.buf = E.buf(v, "mem", n * w * 8, w=8, heap=heap)
    F = v.F = fresh_uf("free", 1, 0); P = v.P = fresh_uf("pos", 1, 0)
    E.st.facts.append(forall(lambda j: Or(j < 0, j >= m, And(F(j) < n, eq(P(F(j)), j))), "free blocks are distinct blocks of the pool"))
    E.st.facts.append(forall(lambda j: Or(j < 0, j >= m, eq(v.buf.old(F(j) * w), F(j + 1))), "free blocks are linked"))
    if E.branch(eq(m, 0)): E.setfield(v, "next", NULLP); v.full = True
    else: E.setfield(v, "next", v.buf.ptr(F(0) * w)); v.full = False
    return v
@contract("harbol_objpool_alloc", props=["C11"])
def _(E):
    v = pool(E, 0, False)
    if v.null or v.full: return [Outcome("exhausted", ret=NULLP)]
    w, m, F = v.w, v.free_blocks, v.F; b = F(0); E.hints = E.hints + [b, L(0), L(1), F(1)]
    nxt = NULLP if False else None
    def facts():
        return [forall(lambda j: Or(j < 1, j >= m, And(ne(F(j), b), eq(v.buf.new(F(j) * w), F(j + 1)))), "the other free blocks stay linked")]
    outs = []
    new = lambda k: ite(And(k >= b * w, k < b * w + w), 0, v.buf.old(k))
    return [Outcome("last block", when=eq(m, 1), ret=v.buf.ptr(b * w), sets={(v, "free_blocks"): m - 1, (v, "next"): NULLP}, mods={v.buf: new}, facts=facts),
            Outcome("block", when=m > 1, ret=v.buf.ptr(b * w), sets={(v, "free_blocks"): m - 1, (v, "next"): v.buf.ptr(F(1) * w)}, mods={v.buf: new}, facts=facts)]
def _free(E, ptr_at):
    """ptr_at(v) chooses the address to free: None (null), a BV block or an outside address"""
    v = pool(E, 0, False)
    which = E.pick("null", "outside", "block")
    if which == "null": return v, NULLP, []
    if which == "outside" or v.null:
        p = E.opaque("elsewhere"); a = E.eng.ptr_to_int(E.st, p)
        if not v.null:
            m0 = E.eng.ptr_to_int(E.st, v.buf.ptr())
            E.req(Or(a < m0, a >= m0 + v.size * v.w * 8), "outside the pool")
        return v, p, None
    b = fresh("block", 0); v.b = b; m, F, w = v.free_blocks, v.F, v.w
    E.req(And(b < v.size, m < v.size), "a block of the pool"); E.st.facts.append(forall(lambda j: Or(j < 0, j >= m, ne(F(j), b)), "the block is in use"))
    E.hints = E.hints + [b, L(0), F(0)]
    return v, v.buf.ptr(b * w), b
def _freed(E, v, b, c=None):
    s = {c: NULLP} if c is not None else {}
    if not isinstance(b, Lin): return [Outcome("nothing freed", sets=s)]
    m, F, w = v.free_blocks, v.F, v.w
    s = dict(s); s.update({(v, "free_blocks"): m + 1, (v, "next"): v.buf.ptr(b * w)})
    return [Outcome("freed", sets=s, mods={v.buf: lambda k: ite(eq(k, b * w), v.buf.new(k), v.buf.old(k))},
        facts=lambda: [Or(eq(m, 0), eq(v.buf.new(b * w), F(0))), forall(lambda j: Or(j < 0, j >= m, eq(v.buf.new(F(j) * w), F(j + 1))), "the other free blocks stay linked")])]
@contract("harbol_objpool_free", props=["C11"], inline=True)
def _(E):
    v, p, b = _free(E, None); E.setarg(1, p)
    return _freed(E, v, b)
@contract("harbol_objpool_cleanup", props=["C11"])
def _(E):
    v, p, b = _free(E, None); c = E.pcell(1, p)
    return _freed(E, v, b, c)
@contract("harbol_objpool_clear", props=["C11"])
def _(E):
    v = pool(E, 0)
    return [Outcome("cleared", sets={(v, "mem"): NULLP, (v, "next"): NULLP, (v, "size"): L(0), (v, "objsize"): L(0), (v, "free_blocks"): L(0)}, frees=[v.buf])]
def linked(E, v, n, w):
    """every block is free and holds the number of the next one; next is the first block"""
    b = FieldBuf(E, v, "mem", 8)
    E.inv("blocks so far are linked", lambda cur, it, j: Or(j < 0, j >= it, eq(cur(b, j * w), j + 1)), False)
    E.inv("last blocks are linked", lambda cur, it, j: Or(j < n - it, j >= n, eq(cur(b, j * w), j + 1)), False)
    def facts():
        o = E.st.objs[v.obj].cells; m, x = (o[v.off + v.loc(f)[0]][1] for f in ("mem", "next"))
        i = lambda p: p if isinstance(p, Lin) else E.eng.ptr_to_int(E.st, p)
        return [eq(i(m), i(x)), forall(lambda j: Or(j < 0, j >= n, eq(b.new(j * w), j + 1)), "free blocks are linked")]
    return facts
def _init(E, v, i, bad, good, base):
    """parameters i (object size) and i + 1 (number of objects)"""
    lo, hi = E.pick((0, MAXOBJ), (MAXOBJ + 1, SMAX - 7), (SMAX - 6, SMAX)); E.setarg(i, fresh("objsize", lo, hi))
    os, n = E.int(i), E.int(i + 1); w = words(os)
    ok = And(n >= 1, os >= 1); fit = And(os <= MAXOBJ, n * w * 8 <= MAXOBJ)
    failed = {(v, "mem"): NULLP if base else ANY}
    if base: failed.update({(v, f): L(0) for f in ("size", "objsize", "free_blocks")}); failed[(v, "next")] = NULLP
    return [Outcome("refused", when=Not(ok), ret=bad[0], sets={**(failed if base else {}), **bad[1]}), Outcome("too large", when=And(ok, Not(fit)), ret=bad[0], sets={**failed, **bad[1]}),
            Outcome("no memory", when=ok, ret=bad[0], nomem=True, sets={**failed, **bad[1]}),
            Outcome("made", when=And(ok, fit), ret=good[0], facts=linked(E, v, n, w),
                sets={(v, "mem"): NewBuf(n * w * 8, None, w=8), (v, "next"): ANY, (v, "size"): n, (v, "objsize"): w * 8, (v, "free_blocks"): n, **good[1]})]
@contract("harbol_objpool_init", props=["C11"], inline=True)
def _(E):
    return _init(E, E.struct(0, "HarbolObjPool"), 1, (FALSE, {}), (TRUE, {}), False)
@contract("harbol_objpool_make", props=["C11"])
def _(E):
    r = E.sret("HarbolObjPool"); res = E.cell_arg(2, 1)
    return _init(E, r, 0, (ANY, {res: FALSE}), (ANY, {res: TRUE}), True)
def _frombuf(E, v, i, bad, good, base):
    E.setarg(i + 1, fresh("objsize", 0, MAXOBJ)); E.setarg(i + 2, fresh("len", 0, MAXOBJ))
    os, n = E.int(i + 1), E.int(i + 2); w = words(os)
    if E.branch(And(os >= 8, eq(os, w * 8))):
        k = fresh("blockwords", 1); E.req(eq(os, 8 * k)); E.setarg(i + 1, 8 * k); E.req(n * k * 8 <= MAXOBJ, "buffer size"); b = E.buf_arg(i, n * k * 8, w=8)
        return [Outcome("made", ret=good[0], sets={(v, "mem"): b.ptr(), (v, "next"): b.ptr(), (v, "size"): n, (v, "objsize"): k * 8, (v, "free_blocks"): n, **good[1]}, mods={b: lambda j: b.new(j)}, facts=linked(E, v, n, k))]
    E.req(And(n >= 1, os * n <= MAXOBJ, (os + 8) * n <= 2 * MAXOBJ), "buffer size"); E.buf_arg(i, os * n)
    s = {**({(v, f): L(0) for f in ("size", "objsize", "free_blocks")} if base else {}), **bad[1]}
    if base: s[(v, "mem")] = NULLP; s[(v, "next")] = NULLP
    return [Outcome("refused", ret=bad[0], sets=s)]
@contract("harbol_objpool_init_from_buffer", props=["C11"], inline=True)
def _(E):
    return _frombuf(E, E.struct(0, "HarbolObjPool"), 1, (FALSE, {}), (TRUE, {}), False)
@contract("harbol_objpool_from_buffer", props=["C11"])
def _(E):
    r = E.sret("HarbolObjPool"); res = E.cell_arg(3, 1)
    return _frombuf(E, r, 0, (ANY, {res: FALSE}), (ANY, {res: TRUE}), True)
