"""Contracts of deque/deque.c

A deque of capacity cap is described by a ghost order P of its nodes: the elements are the nodes P(0) .. P(len - 1) from
front to back and the nodes P(len) .. P(cap - 1) are the free ones in the order in which they will be handed out.
I is the inverse of P. The neighbour tables are determined by P; data[node] is the element's own heap block."""
from hvc.spec import *
from specs.common import SZ, SMAX
NONE = L(SMAX)

def order(P, I, cap):
    return [forall(lambda p: Or(p < 0, p >= cap, And(P(p) >= 0, P(p) < cap, eq(I(P(p)), p))), "order"),
            forall(lambda i: Or(i < 0, i >= cap, And(I(i) >= 0, I(i) < cap, eq(P(I(i)), i))), "position")]
def links(P, I, cap, ln, nx, pv, dat=None):
    """contents of the tables, per node"""
    live = lambda i: I(i) < ln
    out = [forall(lambda i: Or(i < 0, i >= cap, Not(live(i)), eq(nx(i), ite(I(i) + 1 < ln, P(I(i) + 1), NONE))), "next"),
           forall(lambda i: Or(i < 0, i >= cap, Not(live(i)), eq(pv(i), ite(I(i) >= 1, P(I(i) - 1), NONE))), "previous"),
           forall(lambda i: Or(i < 0, i >= cap, live(i), eq(pv(i), ite(I(i) + 1 < cap, P(I(i) + 1), NONE))), "free chain")]
    if dat is not None: out.append(forall(lambda i: Or(i < 0, i >= cap, live(i), eq(dat(i), 0)), "free nodes have no data"))
    return out
class D: pass
def deque(E, i=0, empty=None, elem=None):
    """elem(v): (node, size) of one element whose block is modelled; the other elements are opaque words"""
    v = E.struct(i, "HarbolDeque"); d = D(); d.v = v
    if E.isnull(v, "datum"):
        for f in ("nexts", "prevs"): E.setfield(v, f, NULLP)
        for f in ("cap", "len"): E.setfield(v, f, L(0))
        for f in ("head", "tail", "freed"): E.setfield(v, f, NONE)
        d.null = True; d.cap = d.len = L(0); d.nx = d.pv = d.dt = None; d.elem = None; return d
    d.null = False; d.cap, d.len = v.cap, v.len
    E.req(And(d.cap * 8 <= MAXOBJ, d.len <= d.cap), "sizes")
    d.nx, d.pv = (E.buf(v, f, d.cap * 8, w=8) for f in ("nexts", "prevs"))
    P, I = d.P, d.I = fresh_uf("node", 1, 0), fresh_uf("pos", 1, 0)
    d.elem = None
    if elem in ("front", "back") and E.branch(d.len >= 1):
        node = P(L(0)) if elem == "front" else P(d.len - 1); d.node = node
        d.size = fresh("elemsize", 0, MAXOBJ)
        o = E.eng.new_plane(E.st, "element", d.size, 1, "i", heap=True)
        d.elem = BV(E, o.id, 0, d.size, 1, "i", "element", o.chain); a = E.eng.addr(E.st, o.id)
        E.st.facts.append(a > 0)
        uf = fresh_uf("data", 1, 0, SMAX)
        d.dt = E.buf(v, "datum", d.cap * 8, w=8); ob = E.eng.wobj(E.st, d.dt.obj)
        ob.chain = d.dt.chain = Base(lambda k: ite(eq(k, node), a, uf(k)), "datum")
    elif elem == "all":
        live = lambda i: And(i >= 0, i < d.cap, I(i) < d.len)
        d.fam, adr = E.fam("elements", live)
        d.dt = E.buf(v, "datum", d.cap * 8, w=8); ob = E.eng.wobj(E.st, d.dt.obj)
        ob.chain = d.dt.chain = Base(lambda k: ite(live(k), adr(k), 0), "datum")
    else: d.dt = E.buf(v, "datum", d.cap * 8, w=8)
    z = E.branch(eq(d.len, 0)); d.full = E.branch(eq(d.len, d.cap))
    E.setfield(v, "head", NONE if z else P(L(0))); E.setfield(v, "tail", NONE if z else P(d.len - 1))
    E.setfield(v, "freed", NONE if d.full else P(d.len))
    E.st.facts += order(P, I, d.cap) + links(P, I, d.cap, d.len, d.nx.old, d.pv.old, d.dt.old)
    for p in (L(0), d.len - 1, d.len, L(1), d.len - 2, d.len + 1): E.hints = E.hints + [p]
    return d
def after(E, d, P, I, cap, ln, changed=None):
    """facts about the new tables, in terms of the new order"""
    v = d.v
    N, Q, T = (FieldBuf(E, v, f, 8) for f in ("nexts", "prevs", "datum"))
    def facts():
        out = links(P, I, cap, ln, N.new, Q.new, T.new)
        if d.dt is not None and changed is not None: out.append(forall(lambda i: Or(i < 0, i >= d.cap, eq(i, changed), eq(T.new(i), d.dt.old(i))), "other elements keep their data"))
        return out
    return facts
def ends(v, P, cap, ln):
    return {(v, "head"): ite(eq(ln, 0), NONE, P(L(0))), (v, "tail"): ite(eq(ln, 0), NONE, P(ln - 1)), (v, "freed"): ite(eq(ln, cap), NONE, P(ln)), (v, "len"): ln}

@contract("harbol_deque_count", props=["C08"])
def _(E): d = deque(E); return [Outcome("count", ret=d.len)]
@contract("harbol_deque_empty", props=["C08"])
def _(E): d = deque(E); return [Outcome("empty", ret=eq(d.len, 0))]
@contract("harbol_deque_head", props=["C08"])
def _(E): d = deque(E); return [Outcome("head", ret=NONE if d.null else ite(eq(d.len, 0), NONE, d.P(L(0))))]
@contract("harbol_deque_tail", props=["C08"])
def _(E): d = deque(E); return [Outcome("tail", ret=NONE if d.null else ite(eq(d.len, 0), NONE, d.P(d.len - 1)))]
def _step(E, fwd):
    d = deque(E); n = E.int(1)
    if d.null: return [Outcome("no node", ret=NONE)]
    E.req(Or(n >= d.cap, d.I(n) < d.len), "a node of the deque or an invalid index"); p = d.I(n)
    nxt = ite(p + 1 < d.len, d.P(p + 1), NONE) if fwd else ite(p >= 1, d.P(p - 1), NONE)
    return [Outcome("no node", when=n >= d.cap, ret=NONE), Outcome("neighbour", when=n < d.cap, ret=nxt)]
contract("harbol_deque_next", props=["C08"])(lambda E: _step(E, True))
contract("harbol_deque_prev", props=["C08"])(lambda E: _step(E, False))
@contract("harbol_deque_get_front", props=["C08"])
def _(E):
    d = deque(E, elem="front")
    return [Outcome("data", ret=NULLP if d.elem is None else d.elem.ptr())]
@contract("harbol_deque_get_back", props=["C08"])
def _(E):
    d = deque(E, elem="back")
    return [Outcome("data", ret=NULLP if d.elem is None else d.elem.ptr())]

def _put(E, front):
    d = deque(E); v = d.v; n = E.int(2); E.req(n <= MAXOBJ, "object size"); val = E.buf_arg(1, n)
    cap, ln = d.cap, d.len
    grow = d.full if not d.null else True
    ncap = (ite(eq(cap, 0), L(1), 2 * cap)) if grow else cap
    if d.null: P0 = lambda p: L(0); I0 = lambda i: L(0)
    elif grow:
        P0 = lambda p: ite(p < cap, d.P(p), ncap - 1 - (p - cap)); I0 = lambda i: ite(i < cap, d.I(i), cap + ncap - 1 - i)
    else: P0, I0 = d.P, d.I
    node = P0(ln)
    if front:
        P = lambda p: ite(eq(p, 0), node, ite(p <= ln, P0(p - 1), P0(p)))
        I = lambda i: ite(I0(i) < ln, I0(i) + 1, ite(eq(I0(i), ln), L(0), I0(i)))
    else: P, I = P0, I0
    E.hints = E.hints + [node, L(0), ln, ln - 1]
    fit = ncap * 8 <= MAXOBJ
    T = FieldBuf(E, v, "datum", 8)
    sets = {**ends(v, P, ncap, ln + 1), (v, "cap"): ncap}; mods = {}; fsets = {}
    if grow: 
        for f, b in (("nexts", d.nx), ("prevs", d.pv), ("datum", d.dt)): sets[(v, f)] = NewBuf(ncap * 8, None, w=8, old=b)
    else: mods = {d.nx: None, d.pv: None, d.dt: None}
    ok = Outcome("added", when=fit, ret=node, sets=sets, mods=mods, facts=after(E, d, P, I, ncap, ln + 1, node))
    ok.placed = [(lambda: T.new(node), NewBuf(n, val.old), "data of the new node")]
    outs = [ok, Outcome("no memory", ret=NONE, nomem=True, mods=mods if not grow else {}, facts=after(E, d, d.P, d.I, cap, ln, NONE) if not d.null and not grow else ())]
    if grow:
        outs.append(Outcome("too large", when=Not(fit), ret=NONE))
        # the tables have grown but there was no memory for the data
        outs.append(Outcome("no memory after growing", ret=NONE, nomem=True, sets={**{k: x for k, x in sets.items() if k[1] in ("nexts", "prevs", "datum", "cap")}, **ends(v, P0, ncap, ln)}, facts=after(E, d, P0, I0, ncap, ln, NONE)))
    return outs
contract("harbol_deque_append", props=["C08", "C20"], unroll_paths=80)(lambda E: _put(E, False))
contract("harbol_deque_prepend", props=["C08", "C20"], unroll_paths=80)(lambda E: _put(E, True))

def _pop(E, front):
    d = deque(E, elem="front" if front else "back"); v = d.v; n = E.int(2)
    if d.elem is None: val = E.buf_arg(1, n); E.req(n <= MAXOBJ, "size"); return [Outcome("empty", ret=FALSE)]
    E.req(n <= d.size, "no more than the element's size"); val = E.buf_arg(1, n)
    ln, cap = d.len, d.cap
    if front:
        P = lambda p: ite(eq(p, ln - 1), d.P(L(0)), ite(p < ln - 1, d.P(p + 1), d.P(p)))
        I = lambda i: ite(eq(d.I(i), 0), ln - 1, ite(d.I(i) < ln, d.I(i) - 1, d.I(i)))
    else: P, I = d.P, d.I
    return [Outcome("popped", ret=TRUE, sets=ends(v, P, cap, ln - 1), mods={d.nx: None, d.pv: None, d.dt: None, val: d.elem.old}, frees=[d.elem], facts=after(E, d, P, I, cap, ln - 1, d.node))]
contract("harbol_deque_pop_front", props=["C08"])(lambda E: _pop(E, True))
contract("harbol_deque_pop_back", props=["C08"])(lambda E: _pop(E, False))

@contract("harbol_deque_reset", props=["C08"])
def _(E):
    d = deque(E, elem="all"); v = d.v; cap = d.cap
    P = I = lambda p: cap - 1 - p
    o = Outcome("emptied", sets=ends(v, P, cap, L(0)))
    if not d.null:
        o.mods = {d.nx: None, d.pv: None, d.dt: lambda k: L(0)}; o.facts = after(E, d, P, I, cap, L(0), None)
        o.fams = {d.fam: lambda i: FALSE}
    return [o]
def fresh_deque(E, sv):
    """all fields zero"""
    for f in ("datum", "nexts", "prevs"): E.setfield(sv, f, NULLP)
    for f in ("cap", "len", "head", "tail", "freed"): E.setfield(sv, f, L(0))
def made(E, sv, n):
    P = I = lambda p: n - 1 - p
    N, Q, T = (FieldBuf(E, sv, f, 8) for f in ("nexts", "prevs", "datum"))
    sets = {(sv, f): NewBuf(n * 8, None, w=8) for f in ("nexts", "prevs", "datum")}; sets.update(ends(sv, P, n, L(0))); sets[(sv, "cap")] = n
    return sets, (lambda: links(P, I, n, L(0), N.new, Q.new, T.new))
@contract("harbol_deque_init", props=["C08", "C20"], inline=True, unroll_paths=80)
def _(E):
    v = E.struct(0, "HarbolDeque"); fresh_deque(E, v); n = E.int(1); fit = n * 8 <= MAXOBJ
    sets, facts = made(E, v, n)
    return [Outcome("too large", when=Not(fit), ret=FALSE), Outcome("no memory", ret=FALSE, nomem=True), Outcome("made", when=fit, ret=TRUE, sets=sets, facts=facts)]
@contract("harbol_deque_make", props=["C08", "C20"], unroll_paths=80)
def _(E):
    v = E.sret("HarbolDeque"); n = E.int(0); res = E.cell_arg(1, 1); fit = n * 8 <= MAXOBJ
    sets, facts = made(E, v, n); bad = {(v, f): NULLP for f in ("datum", "nexts", "prevs")}; bad.update({(v, f): L(0) for f in ("cap", "len", "head", "tail", "freed")}); bad[res] = FALSE
    return [Outcome("too large", when=Not(fit), sets=bad), Outcome("no memory", nomem=True, sets=bad), Outcome("made", when=fit, sets={**sets, res: TRUE}, facts=facts)]
@contract("harbol_deque_new", props=["C08", "C20"], unroll_paths=80)
def _(E):
    n = E.int(0); fit = n * 8 <= MAXOBJ
    P = lambda p: n - 1 - p
    c = {"nexts": NewBuf(n * 8, None, w=8), "prevs": NewBuf(n * 8, lambda k: ite(k >= 1, k - 1, NONE), w=8), "datum": NewBuf(n * 8, lambda k: L(0), w=8)}; c.update(cap=n, len=L(0), head=NONE, tail=NONE, freed=ite(eq(n, 0), NONE, P(L(0))))
    return [Outcome("too large", when=Not(fit), ret=NULLP), Outcome("no memory", ret=NULLP, nomem=True), Outcome("made", when=fit, ret=NewBuf(E.mod.dbgsize("HarbolDeque"), struct="HarbolDeque", cells=c))]
def cleared(d):
    v = d.v
    o = Outcome("cleared", sets={**{(v, f): NULLP for f in ("datum", "nexts", "prevs")}, (v, "cap"): L(0), (v, "len"): L(0), **{(v, f): NONE for f in ("head", "tail", "freed")}})
    if not d.null: o.frees = [d.nx, d.pv, d.dt]; o.fams = {d.fam: lambda i: FALSE}
    return o
@contract("harbol_deque_clear", props=["C08"], inline=True, unroll_paths=80)
def _(E): return [cleared(deque(E, elem="all"))]
@contract("harbol_deque_free", props=["C08"], unroll_paths=80)
def _(E):
    if E.pick(True, False): c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    args = list(E.args); d = deque(E, elem="all"); c = E.pcell(0, d.v)
    E.eng.wobj(E.st, d.v.obj).heap = True
    o = Outcome("released", sets={c: NULLP}, frees=[BV(E, d.v.obj, 0, 0, 1, "i", "deque", None)])
    if not d.null: o.frees += [d.nx, d.pv, d.dt]; o.fams = {d.fam: lambda i: FALSE}
    return [o]
@contract("harbol_deque_get_data", props=["C08"])
def _(E):
    d = deque(E, elem="all"); n = E.int(1)
    if d.null: return [Outcome("no node", ret=NULLP)]
    return [Outcome("no node", when=n >= d.cap, ret=NULLP), Outcome("data", when=And(n < d.cap, d.I(n) < d.len), ret=Ptr(FamRef(d.fam, n), ZERO)), Outcome("free node", when=And(n < d.cap, d.I(n) >= d.len), ret=NULLP)]
