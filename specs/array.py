"""Contracts of array/array.c"""
from hvc.spec import *
from specs.common import np2, SZ, SMAX

def vec(E, i, ds, name=None, sv=None):
    """a valid array: no storage and cap = len = 0, or storage of cap*datasize bytes and len <= cap"""
    v = sv or E.struct(i, "HarbolArray", name)
    if E.isnull(v, "table"):
        E.req(And(eq(v.cap, 0), eq(v.len, 0)), "empty array has cap = len = 0")
        v.buf = BV(E, 0, 0, 0, 1, "i", v.name + ".table", None); v.null = True
    else:
        E.req(And(v.cap >= 1, ds >= 1, v.cap * ds <= MAXOBJ, v.len <= v.cap), "capacity fits and len <= cap")
        v.buf = E.buf(v, "table", v.cap * ds); v.null = False
    return v
def anyds(E): return fresh("ds", 1, SZ) if E.verify else L(1)   # any element size (verified for all)
def nonempty(v): return FALSE if v.null else v.len >= 1
def put(v, ix, ds, val):
    return lambda k: ite(And(k >= ix * ds, k < ix * ds + ds), val.old(k - ix * ds), v.buf.old(k))

# ---- queries
@contract("harbol_array_len", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E))
    return [Outcome("len", ret=v.len)]
@contract("harbol_array_cap", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E))
    return [Outcome("cap", ret=v.cap)]
@contract("harbol_array_data", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E))
    return [Outcome("data", ret=v.ptr())]
@contract("harbol_array_empty", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E))
    return [Outcome("empty", ret=Not(nonempty(v)))]
@contract("harbol_array_full", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E))
    return [Outcome("full", ret=v.len >= v.cap)]
@contract("harbol_array_len_diff", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E)); w = vec(E, 1, anyds(E))
    return [Outcome("diff", ret=ite(v.len > w.len, v.len - w.len, w.len - v.len))]
@contract("harbol_array_cap_diff", props=["C01"])
def _(E):
    v = vec(E, 0, anyds(E)); w = vec(E, 1, anyds(E))
    return [Outcome("diff", ret=ite(v.cap > w.cap, v.cap - w.cap, w.cap - v.cap))]

# ---- capacity
def resize_outs(v, ds, ncap, ok=TRUE, same=TRUE, fail=FALSE, cond=TRUE):
    fit = And(ncap >= 1, ncap * ds <= MAXOBJ)
    keep = lambda k: ite(And(k < v.cap * ds, k < ncap * ds), v.buf.old(k), 0)
    return [Outcome("same", when=And(cond, eq(ncap, v.cap)), ret=same),
            Outcome("too large", when=And(cond, ne(ncap, v.cap), Not(fit)), ret=fail),
            Outcome("no memory", when=And(cond, ne(ncap, v.cap)), ret=fail, nomem=True),
            Outcome("resized", when=And(cond, ne(ncap, v.cap), fit), ret=ok,
                    sets={(v, "table"): NewBuf(ncap * ds, keep, old=v.buf), (v, "cap"): ncap, (v, "len"): ite(v.len > ncap, ncap, v.len)})]

@contract("harbol_array_resizer", props=["C02", "C20"])
def _(E):
    n = E.int(1); ds = E.int(2); E.req(ds >= 1, "element size")
    v = vec(E, 0, ds)
    return resize_outs(v, ds, n)
@contract("harbol_array_init", props=["C02", "C20"])
def _(E):
    ds = E.int(1); n = E.int(2); E.req(ds >= 1, "element size")
    v = vec(E, 0, ds)
    E.req(mkb(v.null), "not yet initialised")
    return resize_outs(v, ds, ite(n < 4, L(4), n))
@contract("harbol_array_make", props=["C02", "C20"])
def _(E):
    ds = E.int(0); n = E.int(1); E.req(ds >= 1, "element size")
    r = E.sret("HarbolArray"); res = E.cell_arg(2, 1, init=False)
    c = ite(n < 4, L(4), n); fit = c * ds <= MAXOBJ
    none = {(r, "table"): NULLP, (r, "cap"): L(0), (r, "len"): L(0), res: L(0)}
    return [Outcome("made", when=fit, sets={(r, "table"): NewBuf(c * ds, lambda k: L(0)), (r, "cap"): c, (r, "len"): L(0), res: L(1)}),
            Outcome("too large", when=Not(fit), sets=none), Outcome("no memory", sets=none, nomem=True)]
@contract("harbol_array_new", props=["C02", "C20"])
def _(E):
    ds = E.int(0); n = E.int(1); E.req(ds >= 1, "element size")
    c = ite(n < 4, L(4), n); fit = c * ds <= MAXOBJ
    return [Outcome("made", when=fit, ret=NewBuf(24, struct="HarbolArray", cells={"table": NewBuf(c * ds, lambda k: L(0)), "cap": c, "len": L(0)})),
            Outcome("too large", when=Not(fit), ret=NULLP), Outcome("no memory", ret=NULLP, nomem=True)]
@contract("harbol_array_make_from_array", props=["C02"])
def _(E):
    r = E.sret("HarbolArray"); b = E.ptr_arg(0); c = E.int(1); n = E.int(2)
    return [Outcome("made", sets={(r, "table"): b, (r, "cap"): c, (r, "len"): n})]
@contract("harbol_array_new_from_array", props=["C02", "C20"])
def _(E):
    b = E.ptr_arg(0); c = E.int(1); n = E.int(2)
    return [Outcome("made", ret=NewBuf(24, struct="HarbolArray", cells={"table": b, "cap": c, "len": n})),
            Outcome("no memory", ret=NULLP, nomem=True)]
@contract("harbol_array_clear", props=["C02"])
def _(E):
    v = vec(E, 0, anyds(E))
    return [Outcome("cleared", sets={(v, "table"): NULLP, (v, "cap"): L(0), (v, "len"): L(0)}, frees=[v.buf])]
@contract("harbol_array_cleanup", props=["C02"], inlines=("harbol_array_free",))
def _(E):
    if not E.verify: raise Unsupported("harbol_array_cleanup at a call site")
    if E.pick(True, False):
        c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = vec(E, None, anyds(E), sv=E.newstruct("HarbolArray", "v", heap=True)); c = E.pcell(0, v)
    return [Outcome("released", sets={c: NULLP}, frees=([] if v.null else [v.buf]) + [BV(E, v.obj, 0, 24, 1, "i", "v", None)])]
@contract("harbol_array_free", props=["C02"])
def _(E):
    if not E.verify: raise Unsupported("harbol_array_free at a call site")
    if E.pick(True, False):
        c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = E.newstruct("HarbolArray", "v", heap=True); c = E.pcell(0, v)
    return [Outcome("released", sets={c: NULLP}, frees=[BV(E, v.obj, 0, 24, 1, "i", "v", None)])]
@contract("harbol_array_grow", props=["C02", "C20"])
def _(E):
    ds = E.int(1); E.req(ds >= 1, "element size")
    v = vec(E, 0, ds)
    return resize_outs(v, ds, L(4) if v.null else np2(v.cap * 2), same=FALSE)
@contract("harbol_array_resize", props=["C02", "C20"])
def _(E):
    ds = E.int(1); n = E.int(2); E.req(ds >= 1, "element size")
    v = vec(E, 0, ds)
    return resize_outs(v, ds, L(4) if v.null else ite(eq(n, 0), L(4), np2(n)), same=FALSE)
@contract("harbol_array_shrink", props=["C02", "C20"])
def _(E):
    ds = E.int(1); ex = E.int(2); E.req(ds >= 1, "element size")
    v = vec(E, 0, ds)
    no = Or(v.cap <= 4, eq(v.len, 0))
    n = ite(ex if isinstance(ex, B) else i2b(ex), v.len, np2(v.len))
    return [Outcome("small", when=no, ret=FALSE)] + resize_outs(v, ds, n, ok=n < v.cap, same=FALSE, cond=Not(no))
@contract("harbol_array_wipe", props=["C01"])
def _(E):
    ds = E.int(1); v = vec(E, 0, ds)
    return [Outcome("wiped", sets={(v, "len"): L(0)}, mods={v.buf: lambda k: L(0)})]

# ---- two arrays
@contract("harbol_array_add", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds)
    if E.alias(0, 1): E.samearg(1, 0); w = v
    else: w = vec(E, 1, ds)
    ok = And(mkb(not v.null and not w.null), v.len + w.len <= v.cap)
    return [Outcome("refused", when=Not(ok), ret=FALSE),
            Outcome("added", when=ok, ret=TRUE, sets={(v, "len"): v.len + w.len},
                    mods={v.buf: lambda k: ite(And(k >= v.len * ds, k < (v.len + w.len) * ds), w.buf.old(k - v.len * ds), v.buf.old(k))})]
@contract("harbol_array_copy", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds)
    if E.alias(0, 1): E.samearg(1, 0); return [Outcome("itself", ret=TRUE)]
    w = vec(E, 1, ds)
    if v.null or w.null: return [Outcome("refused", ret=FALSE)]
    n = ite(v.cap < w.len, v.cap, w.len)
    return [Outcome("copied", ret=TRUE, sets={(v, "len"): n}, mods={v.buf: lambda k: ite(k < n * ds, w.buf.old(k), 0)})]

# ---- elements
@contract("harbol_array_insert", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds)
    full = TRUE if v.null else eq(v.len, v.cap)
    return [Outcome("full", when=full, ret=FALSE),
            Outcome("stored", when=Not(full), ret=TRUE, sets={(v, "len"): v.len + 1}, mods={v.buf: put(v, v.len, ds, val)})]
@contract("harbol_array_append", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds)
    full = TRUE if v.null else eq(v.len, v.cap)
    return [Outcome("full", when=full, ret=L(SMAX)),
            Outcome("stored", when=Not(full), ret=v.len, sets={(v, "len"): v.len + 1}, mods={v.buf: put(v, v.len, ds, val)})]
@contract("harbol_array_fill", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds)
    if v.null: return [Outcome("no storage", ret=FALSE)]
    E.inv("filled so far", lambda cur, it, k: Or(k < 0, k >= it * ds, eq(cur(v.buf, k), val.old(k - udiv(k, ds) * ds))), False)
    return [Outcome("filled", ret=TRUE, sets={(v, "len"): v.cap}, mods={v.buf: lambda k: val.old(k - udiv(k, ds) * ds)})]
@contract("harbol_array_pop", props=["C01"])
def _(E):
    ds = E.int(1); v = vec(E, 0, ds); ne_ = nonempty(v)
    return [Outcome("empty", when=Not(ne_), ret=NULLP),
            Outcome("popped", when=ne_, ret=v.buf.ptr((v.len - 1) * ds), sets={(v, "len"): v.len - 1})]
@contract("harbol_array_pop_ex", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds); ne_ = nonempty(v)
    return [Outcome("empty", when=Not(ne_), ret=FALSE),
            Outcome("popped", when=ne_, ret=TRUE, sets={(v, "len"): v.len - 1}, mods={val: lambda k: v.buf.old((v.len - 1) * ds + k)})]
@contract("harbol_array_peek", props=["C01"])
def _(E):
    ds = E.int(1); v = vec(E, 0, ds); ne_ = nonempty(v)
    return [Outcome("empty", when=Not(ne_), ret=NULLP), Outcome("last", when=ne_, ret=v.buf.ptr((v.len - 1) * ds))]
@contract("harbol_array_peek_ex", props=["C01"])
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds); ne_ = nonempty(v)
    return [Outcome("empty", when=Not(ne_), ret=FALSE),
            Outcome("last", when=ne_, ret=TRUE, mods={val: lambda k: v.buf.old((v.len - 1) * ds + k)})]
@contract("harbol_array_get", props=["C01"])
def _(E):
    ds = E.int(2); i = E.int(1); v = vec(E, 0, ds); ok = i < v.len
    return [Outcome("out of range", when=Not(ok), ret=NULLP), Outcome("element", when=ok, ret=v.buf.ptr(i * ds))]
@contract("harbol_array_get_ex", props=["C01"])
def _(E):
    ds = E.int(3); i = E.int(1); v = vec(E, 0, ds); val = E.buf_arg(2, ds); ok = i < v.len
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("element", when=ok, ret=TRUE, mods={val: lambda k: v.buf.old(i * ds + k)})]
@contract("harbol_array_set", props=["C01"])
def _(E):
    ds = E.int(3); i = E.int(1); v = vec(E, 0, ds); val = E.buf_arg(2, ds); ok = i < v.len
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("stored", when=ok, ret=TRUE, mods={v.buf: put(v, i, ds, val)})]
@contract("harbol_array_swap", props=["C01"])
def _(E):
    ds = E.int(1)
    v = vec(E, 0, ds)
    if v.null: return [Outcome("null", ret=FALSE)]
    j = lambda k: (v.len - 1 - udiv(k, ds)) * ds + (k - udiv(k, ds) * ds)
    return [Outcome("reversed", ret=TRUE, mods={v.buf: lambda k: ite(k < v.len * ds, v.buf.old(j(k)), v.buf.old(k))})]

# ---- deletion
def deleted(v, i, n, ds, tail=lambda k, old: old):
    """n elements from position i removed: the rest moves down, the vacated slots are zero"""
    return {v.buf: lambda k: ite(k < i * ds, v.buf.old(k), ite(k < (v.len - n) * ds, v.buf.old(k + n * ds), ite(k < v.len * ds, 0, tail(k, v.buf.old(k)))))}
@contract("harbol_array_shift_up", props=["C01"])
def _(E):
    ds = E.int(2); i = E.int(1); a = E.int(3); v = vec(E, 0, ds); ok = i < v.len
    if v.null: return [Outcome("no storage", ret=FALSE)]
    a = ite(eq(a, 0), L(1), a); n = ite(a < v.len - i, a, v.len - i)
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("removed", when=ok, ret=TRUE, sets={(v, "len"): v.len - n}, mods=deleted(v, i, n, ds))]
@contract("harbol_array_del_by_index", props=["C01"])
def _(E):
    ds = E.int(2); i = E.int(1); v = vec(E, 0, ds); ok = i < v.len
    if v.null: return [Outcome("no storage", ret=FALSE)]
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("removed", when=ok, ret=TRUE, sets={(v, "len"): v.len - 1}, mods=deleted(v, i, L(1), ds))]
@contract("harbol_array_del_by_range", props=["C01"])
def _(E):
    ds = E.int(2); i = E.int(1); a = E.int(3); v = vec(E, 0, ds); ok = i < v.len
    if v.null: return [Outcome("no storage", ret=FALSE)]
    wiped = And(eq(i, 0), a >= v.len)
    a1 = ite(eq(a, 0), L(1), a); n = ite(a1 < v.len - i, a1, v.len - i)
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("removed", when=And(ok, Not(wiped)), ret=TRUE, sets={(v, "len"): v.len - n}, mods=deleted(v, i, n, ds)),
            Outcome("removed all", when=And(ok, wiped), ret=TRUE, sets={(v, "len"): L(0)}, mods={v.buf: lambda k: L(0)})]

# ---- search
def hit(E, v, ds, val, j): return E.memeq(v.buf.ptr(L(j) * ds), val.ptr(), ds)
def first(E, v, ds, val, start=L(0)): return E.least("first", start, v.len, lambda j: hit(E, v, ds, val, j))
@contract("harbol_array_index_of", props=["C01"], opaque_cmp=True)
def _(E):
    ds = E.int(2); i = E.int(3); v = vec(E, 0, ds); val = E.buf_arg(1, ds)
    if v.null: return [Outcome("no storage", ret=L(SMAX))]
    f = first(E, v, ds, val, i)
    return [Outcome("found", when=f < v.len, ret=f), Outcome("absent", when=f >= v.len, ret=L(SMAX))]
@contract("harbol_array_item_count", props=["C01"], opaque_cmp=True)
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds)
    if v.null: return [Outcome("no storage", ret=L(0))]
    C = E.rec("count", L(0), lambda c, j: c + b2i(hit(E, v, ds, val, j)))
    return [Outcome("count", ret=C(v.len))]
@contract("harbol_array_del_by_val", props=["C01"], opaque_cmp=True)
def _(E):
    ds = E.int(2); v = vec(E, 0, ds); val = E.buf_arg(1, ds)
    if v.null: return [Outcome("no storage", ret=FALSE)]
    f = first(E, v, ds, val)
    return [Outcome("removed", when=f < v.len, ret=TRUE, sets={(v, "len"): v.len - 1}, mods=deleted(v, f, L(1), ds)),
            Outcome("absent", when=f >= v.len, ret=FALSE)]
