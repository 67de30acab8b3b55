"""Contracts of variant/variant.c"""
from hvc.spec import *
from specs.common import SZ, SMAX

def var(E, i):
    """a variant: empty, or owning a heap block of size bytes"""
    v = E.struct(i, "HarbolVariant")
    if E.isnull(v, "data"): v.null = True; v.buf = BV(E, 0, 0, 0, 1, "i", "data", None)
    else:
        E.req(v.size <= MAXOBJ, "size"); v.null = False; v.buf = E.buf(v, "data", v.size)
    return v
def value(E, i):
    n = E.int(i + 1); E.req(n <= MAXOBJ, "size"); return E.buf_arg(i, n), n
def copy(b, n, old=None): return NewBuf(n, b.old, old=old, valid=n)
B_ = ["C14", "C20"]
@contract("harbol_variant_new", props=B_)
def _(E):
    b, n = value(E, 0); t = E.int(2)
    return [Outcome("no memory", ret=NULLP, nomem=True),
            Outcome("made", ret=NewBuf(32, struct="HarbolVariant", cells={"data": copy(b, n), "size": n, "tag": t}))]
@contract("harbol_variant_make", props=B_)
def _(E):
    r = E.sret("HarbolVariant"); b, n = value(E, 0); t = E.int(2); res = E.cell_arg(3, 1)
    return [Outcome("no memory", sets={res: FALSE, (r, "data"): NULLP, (r, "size"): L(0), (r, "tag"): L(0), (r, "align_or_len"): ANY}, nomem=True),
            Outcome("made", sets={res: TRUE, (r, "data"): copy(b, n), (r, "size"): n, (r, "tag"): t, (r, "align_or_len"): ANY})]
@contract("harbol_variant_init", props=B_)
def _(E):
    v = E.struct(0, "HarbolVariant"); b, n = value(E, 1); t = E.int(3)
    return [Outcome("no memory", ret=FALSE, sets={(v, "data"): NULLP, (v, "align_or_len"): ANY}, nomem=True),
            Outcome("made", ret=TRUE, sets={(v, "data"): copy(b, n), (v, "size"): n, (v, "tag"): t, (v, "align_or_len"): ANY})]
@contract("harbol_variant_clear", props=["C14"])
def _(E):
    v = var(E, 0)
    return [Outcome("cleared", sets={(v, "data"): NULLP, (v, "size"): L(0), (v, "tag"): L(0), (v, "align_or_len"): ANY}, frees=[v.buf])]
@contract("harbol_variant_free", props=["C14"])
def _(E):
    if not E.verify: raise Unsupported("harbol_variant_free at a call site")
    if E.pick(True, False):
        c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = E.newstruct("HarbolVariant", "v", heap=True); c = E.pcell(0, v)
    if E.isnull(v, "data"): fr = []
    else: E.req(v.size <= MAXOBJ); fr = [E.buf(v, "data", v.size)]
    return [Outcome("released", sets={c: NULLP}, frees=fr + [BV(E, v.obj, 0, 32, 1, "i", "v", None)])]
@contract("harbol_variant_data", props=["C14"])
def _(E):
    v = var(E, 0); return [Outcome("data", ret=NULLP if v.null else v.buf.ptr())]
@contract("harbol_variant_size", props=["C14"])
def _(E):
    v = var(E, 0); return [Outcome("size", ret=v.size)]
@contract("harbol_variant_tag", props=["C14"])
def _(E):
    v = var(E, 0); return [Outcome("tag", ret=v.tag)]
@contract("harbol_variant_set", props=B_)
def _(E):
    v = var(E, 0); b, n = value(E, 1)
    return [Outcome("no memory", ret=FALSE, nomem=True),
            Outcome("set", ret=TRUE, sets={(v, "data"): copy(b, n, v.buf), (v, "size"): n, (v, "align_or_len"): ANY})]
