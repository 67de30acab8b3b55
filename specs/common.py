"""Contracts of harbol_common_includes.h"""
from hvc.spec import *
SMAX = (1 << 64) - 1
SZ = SMAX
NP2 = UF("npow2", 1, 0)
AXGEN["npow2"] = lambda a, x: (alin(a) <= SMAX, Or(eq(alin(a), 0), And(alin(a) > x, Or(alin(a) <= 2 * x, eq(x, 0)))), Implies(eq(x, 0), eq(alin(a), 1)), Implies(x < (1 << 62), ne(alin(a), 0)))
def np2(x): return NP2(L(x))

@contract("next_pow_of_2", props=["C17"], bvonly=True)
def _(E):
    x = E.int(0)
    return [Outcome("successor", ret=np2(x))]

# ------------------------------------------------------------------ intrusive links (C18)
def link(name, **kw): return contract(name, props=["C18"], inline=True, **kw)
P_ = lambda x: x.ptr() if isinstance(x, SV) else x

for _t, _n, _f in (("HarbolLink", "harbol_link_get_a", "a"), ("HarbolBiLink", "harbol_bilink_get_b", "b"), ("HarbolTriLink", "harbol_trilink_get_c", "c")):
    def _(E, t=_t, f=_f):
        v = E.node(t, "p", 0, **{f: E.opaque("next")})
        return [Outcome("link", ret=v.get(f))]
    link(_n)(_)
    def _(E, t=_t, f=_f):
        v = E.node(t, "p", 0, **{f: E.opaque("next")})
        return [Outcome("address of link", ret=Ptr(v.obj, L(v.loc(f)[0])))]
    link(_n + "_ref")(_)
    def _(E, t=_t, f=_f):
        v = E.node(t, "p", 0, **{f: E.opaque("next")})
        q = E.pick(NULLP, E.opaque("n")); E.setarg(1, q)
        return [Outcome("link set", sets={(v, f): q})]
    link(_n.replace("get", "set"))(_)

@link("harbol_link_add_after")
def _(E):
    nx = E.pick(NULLP, E.opaque("next")); n1 = E.node("HarbolLink", "n1", 0, a=nx); n2 = E.node("HarbolLink", "n2", 1)
    return [Outcome("linked", sets={(n1, "a"): n2.ptr(), (n2, "a"): nx})]
@link("harbol_link_add_to_head")
def _(E):
    h = E.pick(NULLP, E.opaque("first")); n = E.node("HarbolLink", "n", 1); hc = E.pcell(0, h)
    sets = {hc: n.ptr(), (n, "a"): h}
    if E.pick(False, True): E.setarg(2, NULLP)
    else:
        t = NULLP if h is NULLP else E.opaque("last"); tc = E.pcell(2, t)
        if h is NULLP: sets[tc] = n.ptr()
    return [Outcome("linked", sets=sets)]
@link("harbol_link_add_to_tail")
def _(E):
    n = E.node("HarbolLink", "n", 1)
    if E.pick(False, True):
        hc = E.pcell(0, NULLP); tc = E.pcell(2, NULLP)
        return [Outcome("only node", sets={hc: n.ptr(), tc: n.ptr(), (n, "a"): NULLP})]
    last = E.node("HarbolLink", "last", a=NULLP); hc = E.pcell(0, E.pick(last.ptr(), E.opaque("first"))); tc = E.pcell(2, last)
    return [Outcome("linked", sets={tc: n.ptr(), (n, "a"): NULLP, (last, "a"): n.ptr()})]
@link("harbol_bilink_add_after")
def _(E):
    n1 = E.node("HarbolBiLink", "n1", 0, b=E.pick(NULLP, E.opaque("prev"))); n2 = E.node("HarbolBiLink", "n2", 1)
    if E.pick(False, True):
        E.setfield(n1, "a", NULLP)
        return [Outcome("last", sets={(n1, "a"): n2.ptr(), (n2, "a"): NULLP, (n2, "b"): n1.ptr()})]
    n3 = E.node("HarbolBiLink", "n3", a=E.opaque("rest"), b=n1); E.setfield(n1, "a", n3.ptr())
    return [Outcome("between", sets={(n1, "a"): n2.ptr(), (n2, "a"): n3.ptr(), (n2, "b"): n1.ptr(), (n3, "b"): n2.ptr()})]
@link("harbol_bilink_add_to_head")
def _(E):
    n = E.node("HarbolBiLink", "n", 1)
    if E.pick(False, True):
        hc = E.pcell(0, NULLP); sets = {hc: n.ptr(), (n, "a"): NULLP, (n, "b"): NULLP}
        if E.pick(False, True): E.setarg(2, NULLP)
        else: sets[E.pcell(2, NULLP)] = n.ptr()
        return [Outcome("only node", sets=sets)]
    f = E.node("HarbolBiLink", "first", a=E.pick(NULLP, E.opaque("rest")), b=NULLP); hc = E.pcell(0, f)
    if E.pick(False, True): E.setarg(2, NULLP)
    else: E.pcell(2, E.pick(f.ptr(), E.opaque("last")))
    return [Outcome("linked", sets={hc: n.ptr(), (n, "a"): f.ptr(), (n, "b"): NULLP, (f, "b"): n.ptr()})]
@link("harbol_bilink_add_to_tail")
def _(E):
    n = E.node("HarbolBiLink", "n", 1)
    if E.pick(False, True):
        hc = E.pcell(0, NULLP); tc = E.pcell(2, NULLP)
        return [Outcome("only node", sets={hc: n.ptr(), tc: n.ptr(), (n, "a"): NULLP, (n, "b"): NULLP})]
    last = E.node("HarbolBiLink", "last", a=NULLP, b=E.pick(NULLP, E.opaque("before"))); hc = E.pcell(0, E.pick(last.ptr(), E.opaque("first"))); tc = E.pcell(2, last)
    return [Outcome("linked", sets={tc: n.ptr(), (n, "a"): NULLP, (n, "b"): last.ptr(), (last, "a"): n.ptr()})]
@link("harbol_bilink_remove")
def _(E):
    n = E.node("HarbolBiLink", "n", 1); sets = {}
    first, last = E.pick((True, True), (True, False), (False, True), (False, False))
    p = q = None
    if first: E.setfield(n, "b", NULLP); hv = n.ptr()
    else:
        p = E.node("HarbolBiLink", "p", a=n, b=E.pick(NULLP, E.opaque("before"))); E.setfield(n, "b", p.ptr())
        hv = E.pick(p.ptr(), E.opaque("first"))
    if last: E.setfield(n, "a", NULLP); tv = n.ptr()
    else:
        q = E.node("HarbolBiLink", "q", b=n, a=E.pick(NULLP, E.opaque("after"))); E.setfield(n, "a", q.ptr())
        tv = E.pick(q.ptr(), E.opaque("last"))
    hc = E.pcell(0, hv); tc = E.pcell(2, tv)
    P0 = p.ptr() if p else NULLP; Q0 = q.ptr() if q else NULLP
    if first: sets[hc] = Q0
    else: sets[(p, "a")] = Q0
    if last: sets[tc] = P0
    else: sets[(q, "b")] = P0
    return [Outcome("unlinked", sets=sets)]

# ------------------------------------------------------------------ shared buffers (C19)
@contract("harbol_recalloc", props=["C19", "C20"], inline=True)
def _(E):
    n, es, old = E.int(1), E.int(2), E.int(3)
    E.req(es >= 1, "element size")
    if E.null_arg(0): b = None; keep = lambda k: L(0)
    else:
        E.req(old * es <= MAXOBJ, "old size"); o = E.buf_arg(0, old * es, heap=True)
        b = o; keep = lambda k: ite(k < old * es, o.old(k), 0)
    fit = n * es <= MAXOBJ
    size = n * es if b is None else ite(eq(n, 0), L(1), n * es)
    return [Outcome("too large", when=Not(fit), ret=NULLP), Outcome("no memory", ret=NULLP, nomem=True),
            Outcome("resized", when=fit, ret=NewBuf(size, lambda k: ite(k < n * es, keep(k), 0) if b is None else keep(k), valid=n * es), frees=[b] if b is not None else [])]
@contract("array_shift_up", props=["C19"], inline=True)
def _(E):
    i, ds, a = E.int(2), E.int(3), E.int(4)
    n = E.cell_arg(1); E.req(And(ds >= 1, n.old() * ds <= MAXOBJ), "length fits")
    b = E.buf_arg(0, n.old() * ds); ln = n.old()
    ok = i < ln
    a = ite(eq(a, 0), L(1), a); d = ite(a < ln - i, a, ln - i)
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("removed", when=ok, ret=TRUE, sets={n: ln - d}, mods={b: lambda k: ite(k < i * ds, b.old(k), ite(k < (ln - d) * ds, b.old(k + d * ds), 0))})]
def _multi(nb):
    def spec(E):
        i, a = E.int(1), E.int(2)
        n = E.cell_arg(0); ln = n.old(); ok = i < ln
        E.setarg(3, L(nb)); bs = []; E.extra_args = []
        for k in range(nb):
            ds = fresh("ds%d" % k, 1, SZ); E.req(ln * ds <= MAXOBJ)
            o = E.eng.new_plane(E.st, "buf%d" % k, ln * ds, 1, "i", heap=False)
            b = BV(E, o.id, 0, ln * ds, 1, "i", "buf%d" % k, o.chain); b.ds = ds; bs.append(b)
            E.extra_args += [Ptr(o.id, ZERO), ds]
        a = ite(eq(a, 0), L(1), a); d = ite(a < ln - i, a, ln - i)
        def m(b): return lambda k: ite(k < i * b.ds, b.old(k), ite(k < (ln - d) * b.ds, b.old(k + d * b.ds), 0))
        return [Outcome("out of range", when=Not(ok), ret=FALSE),
                Outcome("removed from every buffer", when=ok, ret=TRUE, sets={n: ln - d}, mods={b: m(b) for b in bs})]
    return spec
contract("multi_array_shift_up", props=["C19"], inline=True)(lambda E: _multi(E.pick(1, 2, 3, 4, 5))(E))
def _mbufs(E, nb, base, named):
    """nb (void **buf, size) pairs"""
    cs = []; E.extra_args = []
    for k in range(nb):
        o = E.eng.new_obj(E.st, "buf%d" % k, 8, "cells", born="entry")
        c = Cell(E, o.id, 0, 8, "buf%d" % k); E.svs.append(c); es = fresh("es%d" % k, 1, SZ); cs.append((c, es))
        E.extra_args += [Ptr(o.id, ZERO), es]
    return cs
@contract("harbol_multi_calloc", props=["C19", "C20"], inline=True, unroll_paths=80)
def _(E):
    n = E.int(0); nb = E.pick(1, 2, 3, 6); E.setarg(1, L(nb))
    cs = _mbufs(E, nb, 2, True)
    fit = And(*[n * es <= MAXOBJ for _, es in cs])
    none = {c: NULLP for c, _ in cs}
    return [Outcome("too large", when=Not(fit), ret=FALSE, sets=none), Outcome("no memory", ret=FALSE, sets=none, nomem=True),
            Outcome("allocated", when=fit, ret=TRUE, sets={c: NewBuf(n * es, lambda k: L(0)) for c, es in cs})]
@contract("harbol_multi_recalloc", props=["C19", "C20"], inline=True, unroll_paths=80)
def _(E):
    n, old = E.int(0), E.int(1); nb = E.pick(1, 2, 3, 6); E.setarg(2, L(nb))
    cs = _mbufs(E, nb, 3, True); bufs = []
    null = E.pick(True, False)
    for c, es in cs:
        ob = E.eng.wobj(E.st, c.obj)
        if null: ob.cells[0] = (8, NULLP); bufs.append(None); continue
        E.req(old * es <= MAXOBJ)
        o = E.eng.new_plane(E.st, c.name + "'s block", old * es, 1, "i", heap=True); ob.cells[0] = (8, Ptr(o.id, ZERO))
        bufs.append(BV(E, o.id, 0, old * es, 1, "i", o.name, o.chain))
    fit = And(*[n * es <= MAXOBJ for _, es in cs])
    def nb_(b, es): return NewBuf(n * es, (lambda k: L(0)) if b is None else (lambda k: ite(And(k < old * es, k < n * es), b.old(k), 0)), old=b)
    return [Outcome("too large", when=Not(fit), ret=FALSE), Outcome("no memory", ret=FALSE, nomem=True),
            Outcome("grown", when=fit, ret=TRUE, sets={c: nb_(b, es) for (c, es), b in zip(cs, bufs)})]
@contract("dup_data", props=["C19", "C20"], inline=True)
def _(E):
    n = E.int(1); E.req(n <= MAXOBJ, "object size"); d = E.buf_arg(0, n)
    return [Outcome("copied", ret=NewBuf(n, d.old)), Outcome("no memory", ret=NULLP, nomem=True)]
@contract("dup_cstr", props=["C19", "C20"], inline=True)
def _(E):
    d = E.cstr_arg(1); n = E.int(0); E.req(eq(n, d.len), "length of the text")
    return [Outcome("copied", ret=NewBuf(n + 1, d.old)), Outcome("no memory", ret=NULLP, nomem=True)]
@contract("harbol_cleanup", props=["C19"], inline=True)
def _(E):
    if E.pick(True, False): c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    b = E.eng.new_plane(E.st, "block", fresh("n", 0, MAXOBJ), 1, "i", heap=True)
    c = E.pcell(0, Ptr(b.id, ZERO))
    return [Outcome("released", sets={c: NULLP}, frees=[BV(E, b.id, 0, 0, 1, "i", "block", b.chain)])]
@contract("harbol_mempcpy", props=["C19"], inline=True)
def _(E):
    n = E.int(2); E.req(n <= MAXOBJ, "size"); d = E.buf_arg(0, n); s = E.buf_arg(1, n)
    return [Outcome("copied", ret=d.ptr(n), mods={d: s.old})]
