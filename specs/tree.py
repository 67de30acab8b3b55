"""Contracts of tree/tree.c (nodes and their values; the table of children is a valid array of 8-byte elements)"""
from hvc.spec import *
from specs.common import SZ, SMAX, np2
from specs.array import vec

class Kids:
    """the array of children inside a node"""
def node(E, i, v=None, heap=False):
    v = v or E.struct(i, "HarbolTree")
    if not E.verify: raise Unsupported("tree argument at a call site")
    t, c, n = "kids.table", "kids.cap", "kids.len"
    if E.pick(True, False):
        E.setfield(v, t, NULLP); E.setfield(v, c, L(0)); E.setfield(v, n, L(0)); v.nokids = True; v.kids = BV(E, 0, 0, 0, 1, "i", "kids", None)
    else:
        E.req(And(v.get(n) <= v.get(c), v.get(c) >= 1, v.get(c) * 8 <= MAXOBJ), "children table"); v.kids = E.buf(v, t, v.get(c) * 8); v.nokids = False
    v.cap, v.n = v.get(c), v.get(n)
    if E.isnull(v, "data"): E.setfield(v, "len", L(0)); v.null = True; v.buf = BV(E, 0, 0, 0, 1, "i", "data", None)
    else:
        E.req(v.len <= MAXOBJ, "size"); v.null = False; v.buf = E.buf(v, "data", v.len)
    return v
def value(E, i):
    n = E.int(i + 1); E.req(n <= MAXOBJ, "size"); return E.buf_arg(i, n), n
def fresh_node(b, n): return NewBuf(40, struct="HarbolTree", cells={"data": NewBuf(n, b.old, valid=n), "len": n, "kids.table": NewBuf(32, lambda k: L(0)), "kids.cap": L(4), "kids.len": L(0)})
B_ = ["C13", "C20"]
@contract("harbol_tree_new", props=B_)
def _(E):
    b, n = value(E, 0)
    return [Outcome("no memory", ret=NULLP, nomem=True), Outcome("made", ret=fresh_node(b, n))]
@contract("harbol_tree_init", props=B_, inline=True)
def _(E):
    v = E.struct(0, "HarbolTree"); E.setfield(v, "kids.table", NULLP); E.setfield(v, "kids.cap", L(0)); E.setfield(v, "kids.len", L(0)); b, n = value(E, 1)
    return [Outcome("no memory", ret=FALSE, sets={(v, "data"): NULLP}, nomem=True),
            Outcome("made", ret=TRUE, sets={(v, "data"): NewBuf(n, b.old, valid=n), (v, "len"): n, (v, "kids.table"): NewBuf(32, lambda k: L(0)), (v, "kids.cap"): L(4), (v, "kids.len"): L(0)})]
@contract("harbol_tree_get", props=["C13"])
def _(E):
    v = node(E, 0); return [Outcome("data", ret=NULLP if v.null else v.buf.ptr())]
@contract("harbol_tree_len", props=["C13"])
def _(E):
    v = node(E, 0); return [Outcome("size", ret=v.len)]
@contract("harbol_tree_set", props=B_)
def _(E):
    v = node(E, 0); b, n = value(E, 1)
    return [Outcome("nothing to store", when=eq(n, 0), ret=FALSE), Outcome("no memory", when=ne(n, 0), ret=FALSE, nomem=True),
            Outcome("set", when=ne(n, 0), ret=TRUE, sets={(v, "data"): NewBuf(n, b.old, old=v.buf, valid=n), (v, "len"): n})]

# ------------------------------------------------------------------ children
# The children of a node are numbered 0, 1, ...: child e is a node of its own with its value block; the rest of its
# subtree (its table of children and its descendants) is one ghost block, which only releasing the child may touch.
AR = ("harbol_array_full", "harbol_array_grow", "harbol_array_resizer", "harbol_array_insert", "harbol_array_init", "harbol_array_clear", "harbol_array_get", "harbol_array_index_of",
      "harbol_array_del_by_index", "harbol_array_shift_up", "harbol_array_len", "harbol_array_empty", "harbol_array_set")
def fam(E, nm, live, size=None, w=1):
    name, adr = E.fam(nm, live, size); f = E.st.fams[name]; f.w = w
    return name, adr
def kids(E, i, v=None, nonempty=False):
    v = v or E.struct(i, "HarbolTree"); E.root = v
    if not nonempty and E.pick(False, True):
        for f in ("kids.cap", "kids.len"): E.setfield(v, f, L(0))
        E.setfield(v, "kids.table", NULLP); v.nokids = True; v.n = v.cap = L(0); v.fams = ()
    else:
        v.nokids = False; n = v.n = v.get("kids.len"); v.cap = v.get("kids.cap")
        E.req(And(n <= v.cap, v.cap >= 1, v.cap * 8 <= MAXOBJ), "children table"); v.table = E.buf(v, "kids.table", v.cap * 8, w=8)
        live = lambda e: And(e >= 0, e < n)
        has, ln = fresh_uf("has value", 1, 0, 1), fresh_uf("size of value", 1, 1, MAXOBJ)
        v.haz = lambda e: eq(has(e), 1)
        v.nf, na = fam(E, "children", live, lambda e: L(40), 8); v.df, da = fam(E, "values", lambda e: And(live(e), eq(has(e), 1)), lambda e: ln(e)); v.sf, sa = fam(E, "subtrees", live)
        loc = E.dbg("HarbolTree"); words = {}
        for f, (off, w, kind) in loc.items():
            if f == "data": words[off // 8] = lambda e: ite(eq(has(e), 1), da(e), 0)
            elif f == "len": words[off // 8] = lambda e: ite(eq(has(e), 1), ln(e), 0)
            else: words[off // 8] = fresh_uf("child " + f, 1, 0, SMAX)
        v.klen = words[loc["len"][0] // 8]
        def word(e, k):
            if L(k).isconst(): return words[L(k).c](e)
            x = L(0)
            for j, fn in words.items(): x = ite(eq(k, j), fn(e), x)
            return x
        f = E.st.fams[v.nf]; f.chain = Base(word, "children")
        ob = E.eng.wobj(E.st, v.table.obj); uf = fresh_uf("unused slots", 1, 0, SMAX)
        ob.chain = v.table.chain = Base(lambda k: ite(live(k), na(k), uf(k)), "kids.table")
        v.child = lambda e: Ptr(FamRef(v.nf, L(e)), ZERO); v.val = lambda e: Ptr(FamRef(v.df, L(e)), ZERO); v.fams = (v.nf, v.df, v.sf)
    if E.isnull(v, "data"): E.setfield(v, "len", L(0)); v.null = True; v.buf = BV(E, 0, 0, 0, 1, "i", "data", None)
    else:
        E.req(v.len <= MAXOBJ, "size"); v.null = False; v.buf = E.buf(v, "data", v.len)
    return v
def release(E, i):
    """a caller releases the child a slot denotes: it must be an intact child; its node, value and descendants are gone afterwards"""
    eng, st = E.eng, E.st; v = eng.E.root; p0 = eng.E.prestate; slot = E.rawptr(i)
    p = eng.concrete(st, eng.load(st, eng.concrete(st, slot), ("ptr",), E.mod, E.lab("slot")))
    if isinstance(p.obj, int) and p.obj == 0: return [Outcome("nothing")]
    if isinstance(p.obj, int) or v.nokids or p.obj.fam != v.nf: raise Unsupported("releasing another node")
    eng.prove(st, eq(p.off, 0), E.lab("start of the node"))
    if any(st.fams[f].chain is not p0.fams[f].chain for f in v.fams): raise Unsupported("releasing a node that was changed")
    e = p.obj.idx
    for f, is_ in zip(v.fams, (TRUE, v.haz(e), TRUE)):
        g = st.fams[f]; eng.prove(st, Or(Not(is_), eq(eng.rd(st, g.live, (e,)), 1)), E.lab("not already released (%s)" % f))
        g = g.copy(); st.fams[f] = g; g.live = PtW(g.live, (e,), 1, ZERO); eng.note_write(st, f, "live")
    eng.store(st, eng.concrete(st, slot), NULLP, ("ptr",), E.mod, E.lab("slot"))
    return [Outcome("released")]
def gone(v): return {f: (lambda e: FALSE) for f in v.fams}
def without(v, i): return {v.nf: lambda e: And(e >= 0, e < v.n, ne(e, i)), v.sf: lambda e: And(e >= 0, e < v.n, ne(e, i)), v.df: lambda e: And(e >= 0, e < v.n, ne(e, i), v.haz(e))}
def cleared(v):
    o = Outcome("cleared", sets={(v, "data"): NULLP, (v, "len"): L(0), (v, "kids.table"): NULLP, (v, "kids.cap"): L(0), (v, "kids.len"): L(0)}, frees=[v.buf] + ([] if v.nokids else [v.table]))
    o.fams = gone(v); return o
@contract("harbol_tree_clear", props=["C13", "C20"], inlines=AR)
def _(E): return [cleared(kids(E, 0))]
@contract("harbol_tree_free", props=["C13", "C20"], inlines=AR + ("harbol_tree_clear",), recursive=True)
def _(E):
    if not E.verify: return release(E, 0)
    if E.pick(True, False): c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = kids(E, 0); c = E.pcell(0, v); E.eng.wobj(E.st, v.obj).heap = True
    o = cleared(v); o.sets = {c: NULLP}; o.frees = o.frees + [BV(E, v.obj, 0, 0, 1, "i", "node", None)]
    return [o]
@contract("harbol_tree_get_node_by_index", props=["C13"], inlines=AR)
def _(E):
    v = kids(E, 0); i = E.int(1)
    if v.nokids: return [Outcome("no child", ret=NULLP)]
    return [Outcome("no child", when=i >= v.n, ret=NULLP), Outcome("child", when=i < v.n, ret=v.child(i))]
def find(E, v, b, n):
    f = E.least("first", L(0), v.n, lambda e: And(eq(v.klen(e), n), E.memeq(v.val(e), b.ptr(), n)))
    E.hints = E.hints + [f]
    return f
@contract("harbol_tree_get_node_by_val", props=["C13"], inlines=AR)
def _(E):
    v = kids(E, 0); b, n = value(E, 1)
    if v.nokids: return [Outcome("no child", ret=NULLP)]
    f = find(E, v, b, n)
    return [Outcome("empty value", when=eq(n, 0), ret=NULLP), Outcome("no such child", when=And(ne(n, 0), f >= v.n), ret=NULLP), Outcome("child", when=And(ne(n, 0), f < v.n), ret=v.child(f))]
def removed(E, v, i, when):
    t = v.table; o = Outcome("removed", when=when, ret=TRUE, sets={(v, "kids.len"): v.n - 1}, mods={t: lambda k: ite(k >= v.n, t.old(k), ite(eq(k, v.n - 1), 0, ite(k < i, t.old(k), t.old(k + 1))))})
    o.fams = without(v, i); return o
@contract("harbol_tree_rm_index", props=["C13"], inlines=AR)
def _(E):
    v = kids(E, 0); i = E.int(1)
    if v.nokids: return [Outcome("no child", ret=FALSE)]
    return [Outcome("no child", when=i >= v.n, ret=FALSE), removed(E, v, i, i < v.n)]
@contract("harbol_tree_rm_val", props=["C13"], inlines=AR)
def _(E):
    v = kids(E, 0); b, n = value(E, 1)
    if v.nokids: return [Outcome("no child", ret=FALSE)]
    f = find(E, v, b, n)
    return [Outcome("no such child", when=Or(eq(n, 0), f >= v.n), ret=FALSE), removed(E, v, f, And(ne(n, 0), f < v.n))]
@contract("harbol_tree_rm_node", props=["C13"], inlines=AR)
def _(E):
    v = kids(E, 0); which = E.pick("child", "null", "other")
    if which == "child" and not v.nokids:
        j = fresh("j", 0); E.req(j < v.n, "a child"); c = E.pcell(1, v.child(j)); E.linv("the child is not passed", lambda it: it <= j); E.hints = E.hints + [j]
        o = removed(E, v, j, TRUE); o.sets[c] = NULLP; return [o]
    c = E.pcell(1, NULLP if which == "null" else E.node("HarbolTree", "other"))
    return [Outcome("not a child", ret=FALSE)]
def inserting(E, v, when):
    """making room: (condition that it succeeds, outcomes of failure, function giving the slots and contents afterwards)"""
    t = (lambda k: L(0)) if v.nokids else v.table.old; T = FieldBuf(E, v, "kids.table", 8)
    if not (v.nokids or E.branch(eq(v.n, v.cap))):
        def make(o, add):
            if add: o.mods[v.table] = lambda k: ite(eq(k, v.n), T.new(v.n), t(k)); o.sets[(v, "kids.len")] = v.n + 1
            return o
        return TRUE, [], make
    new = L(4) if v.nokids else np2(v.cap * 2); fit = And(new > v.cap, new * 8 <= MAXOBJ)
    def make(o, add):
        o.sets[(v, "kids.table")] = NewBuf(new * 8, lambda k: ite(And(mkb(add), eq(k, v.n)), T.new(v.n), ite(k < v.n, t(k), 0)) if add else ite(k < v.n, t(k), 0), w=8, old=None if v.nokids else v.table)
        o.sets[(v, "kids.cap")] = new
        if add: o.sets[(v, "kids.len")] = v.n + 1
        return o
    return fit, [Outcome("too large", when=And(when, Not(fit)), ret=FALSE), Outcome("no memory to grow", when=when, ret=FALSE, nomem=True)], make
@contract("harbol_tree_insert_val", props=B_, inlines=AR)
def _(E):
    v = kids(E, 0); b, n = value(E, 1); some = ne(n, 0); fit, outs, make = inserting(E, v, some); T = FieldBuf(E, v, "kids.table", 8)
    ok = make(Outcome("inserted", when=And(some, fit), ret=TRUE), True); ok.placed = [(lambda: T.new(v.n), fresh_node(b, n), "new child")]
    return [Outcome("nothing to store", when=Not(some), ret=FALSE), make(Outcome("no memory", when=And(some, fit), ret=FALSE, nomem=True), False), ok] + outs
@contract("harbol_tree_insert_node", props=B_, inlines=AR)
def _(E):
    v = kids(E, 0); c = E.newstruct("HarbolTree", "child", heap=True); E.setfield(c, "kids.table", E.opaque("child table")); null = E.pick(True, False)
    E.setfield(c, "data", NULLP if null else E.opaque("child data")); E.pcell(1, c)
    if null: return [Outcome("child without a value", ret=FALSE)]
    fit, outs, make = inserting(E, v, TRUE); T = FieldBuf(E, v, "kids.table", 8)
    ok = make(Outcome("inserted", when=fit, ret=TRUE), True); ok.facts = lambda: [eq(T.new(v.n), E.eng.addr(E.st, c.obj))]
    return [ok] + outs
