"""Contracts of bytebuffer/bytebuffer.c"""
from hvc.spec import *
from specs.common import SZ, SMAX
from hvc.libc import FTELL, FREADN, FREADC, FWRITEN

def bb(E, i, name=None, sv=None):
    """a valid byte buffer: len <= cap, and storage of at least cap bytes unless both are 0"""
    v = sv or E.struct(i, "HarbolByteBuf", name)
    if E.isnull(v, "table"):
        E.req(And(eq(v.cap, 0), eq(v.len, 0)), "empty buffer has cap = len = 0")
        v.buf = BV(E, 0, 0, 0, 1, "i", v.name + ".table", None); v.null = True
    else:
        E.req(And(v.len <= v.cap, v.cap <= MAXOBJ), "len <= cap")
        extra = fresh("slack", 0, 1); E.req(Or(eq(extra, 0), eq(v.cap, 0)))
        v.buf = E.buf(v, "table", v.cap + extra); v.null = False
    return v
def bytes_of(x, w):
    def f(k):
        r = modc(x, 256)
        for j in range(1, w): r = ite(L(k) >= j, modc(divc(x, 256 ** j), 256), r)
        return r
    return f
def inserted(v, n, val, ok=TRUE):
    """n bytes added at the end, with the storage grown when they do not fit below the capacity"""
    new = v.len + n; fits = new < v.cap; big = new > MAXOBJ
    c = lambda k: ite(k < v.len, v.buf.old(k), val(k - v.len))
    size = new if v.null else ite(eq(new, 0), L(1), new)
    return [Outcome("in place", when=And(ok, fits), ret=TRUE, sets={(v, "len"): new}, mods={v.buf: lambda k: ite(And(k >= v.len, k < new), val(k - v.len), v.buf.old(k))}),
            Outcome("too large", when=And(ok, Not(fits), big), ret=FALSE), Outcome("no memory", when=And(ok, Not(fits)), ret=FALSE, nomem=True),
            Outcome("grown", when=And(ok, Not(fits), Not(big)), ret=TRUE, sets={(v, "table"): NewBuf(size, c, old=v.buf, valid=new), (v, "cap"): new, (v, "len"): new})]

@contract("harbol_bytebuffer_new", props=["C03", "C20"])
def _(E):
    return [Outcome("made", ret=NewBuf(24, struct="HarbolByteBuf", cells={"table": NULLP, "cap": L(0), "len": L(0)})), Outcome("no memory", ret=NULLP, nomem=True)]
@contract("harbol_bytebuffer_make", props=["C03"])
def _(E):
    r = E.sret("HarbolByteBuf")
    return [Outcome("made", sets={(r, "table"): NULLP, (r, "cap"): L(0), (r, "len"): L(0)})]
@contract("harbol_bytebuffer_clear", props=["C03"])
def _(E):
    v = bb(E, 0)
    return [Outcome("cleared", sets={(v, "table"): NULLP, (v, "cap"): L(0), (v, "len"): L(0)}, frees=[v.buf])]
@contract("harbol_bytebuffer_cap", props=["C03"])
def _(E):
    v = bb(E, 0); return [Outcome("cap", ret=v.cap)]
@contract("harbol_bytebuffer_len", props=["C03"])
def _(E):
    v = bb(E, 0); return [Outcome("len", ret=v.len)]
@contract("harbol_bytebuffer_get_buffer", props=["C03"])
def _(E):
    v = bb(E, 0); return [Outcome("table", ret=NULLP if v.null else v.buf.ptr())]
for _n, _w in (("byte", 1), ("int16", 2), ("int32", 4), ("int64", 8), ("ptr", 8), ("float32", 4), ("float64", 8)):
    def _(E, w=_w):
        v = bb(E, 0); x = E.int(1)
        if isinstance(x, Flt): x = x.bits
        return inserted(v, L(w), bytes_of(x, w))
    contract("harbol_bytebuffer_insert_" + _n, props=["C03", "C20"])(_)
@contract("harbol_bytebuffer_insert_floatmax", props=["C03", "C20"])
def _(E):
    v = bb(E, 0)
    if E.verify: E.setarg(1, Flt(fresh("x", 0, (1 << 80) - 1), 10))
    val = bytes_of(E.args[1].bits, 10); new = v.len + 16; fits = new < v.cap; big = new > MAXOBJ; b = v.buf     # ten bytes of value, six of padding
    sub = lambda at, n: BV(E, b.obj, b.off + v.len + at, n, 1, "i", b.name, b.chain)
    return [Outcome("in place", when=fits, ret=TRUE, sets={(v, "len"): new}, mods={} if v.null else {sub(0, 10): val, sub(10, 6): None}),
            Outcome("too large", when=And(Not(fits), big), ret=FALSE), Outcome("no memory", when=Not(fits), ret=FALSE, nomem=True),
            Outcome("grown", when=And(Not(fits), Not(big)), ret=TRUE, sets={(v, "table"): NewBuf(new, lambda k: ite(k < v.len, b.old(k), val(k - v.len)), old=b, valid=v.len + 10), (v, "cap"): new, (v, "len"): new})]
@contract("harbol_bytebuffer_insert_cstr", props=["C03", "C20"])
def _(E):
    v = bb(E, 0); s = E.cstr_arg(1)
    return inserted(v, s.len + 1, s.old)
@contract("harbol_bytebuffer_insert_obj", props=["C03", "C20"])
def _(E):
    v = bb(E, 0); n = E.int(2); E.req(n <= MAXOBJ, "object size"); o = E.buf_arg(1, n)
    return inserted(v, n, o.old)
@contract("harbol_bytebuffer_insert_zeros", props=["C03", "C20"])
def _(E):
    v = bb(E, 0); n = E.int(1)
    return inserted(v, n, lambda k: L(0))
@contract("harbol_bytebuffer_del", props=["C03"])
def _(E):
    v = bb(E, 0); i, a = E.int(1), E.int(2); ok = i < v.len
    a = ite(eq(a, 0), L(1), a); d = ite(a < v.len - i, a, v.len - i)
    return [Outcome("out of range", when=Not(ok), ret=FALSE),
            Outcome("removed", when=ok, ret=TRUE, sets={(v, "len"): v.len - d}, mods={v.buf: lambda k: ite(k < i, v.buf.old(k), ite(k < v.len - d, v.buf.old(k + d), ite(k < v.len, 0, v.buf.old(k))))})]
@contract("harbol_bytebuffer_append", props=["C03", "C20"])
def _(E):
    v = bb(E, 0)
    if E.alias(0, 1): E.samearg(1, 0); w = v
    else: w = bb(E, 1)
    if w.null: return [Outcome("nothing to append", ret=FALSE)]
    return inserted(v, w.len, w.buf.old)
@contract("harbol_bytebuffer_copy", props=["C03", "C20"])
def _(E):
    v = bb(E, 0); w = bb(E, 1)
    if w.null: return [Outcome("nothing to copy", ret=FALSE)]
    n = w.len; same = eq(n, v.len)
    return [Outcome("in place", when=same, ret=TRUE, mods={v.buf: lambda k: ite(k < n, w.buf.old(k), v.buf.old(k))}),
            Outcome("no memory", when=Not(same), ret=FALSE, nomem=True),
            Outcome("resized", when=Not(same), ret=TRUE, sets={(v, "table"): NewBuf(n if v.null else ite(eq(n, 0), L(1), n), w.buf.old, old=v.buf, valid=n), (v, "cap"): n, (v, "len"): n})]
@contract("harbol_bytebuffer_free", props=["C03"], inlines=("harbol_bytebuffer_clear",))
def _(E):
    if not E.verify: raise Unsupported("harbol_bytebuffer_free at a call site")
    if E.pick(True, False):
        c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = bb(E, None, sv=E.newstruct("HarbolByteBuf", "v", heap=True)); c = E.pcell(0, v)
    return [Outcome("released", sets={c: NULLP}, frees=([] if v.null else [v.buf]) + [BV(E, v.obj, 0, 24, 1, "i", "v", None)])]

# ------------------------------------------------------------------ streams: what a stream reports and delivers is arbitrary
def stream(E, i):
    if E.verify: E.setarg(i, E.opaque("stream"))
    return E.eng.concrete(E.st, E.args[i]).obj
def from_stream(v, f, there=TRUE, facts=()):
    size = v.E.eng.signed(v.E.st, FTELL(f), 64); some = And(there, size > 0); m = FREADN(f, size); old = v.buf.old
    new = v.len + size; fits = new < v.cap; big = new > MAXOBJ; end = v.len + m; whole = eq(m, size)
    return [Outcome("nothing to read", when=And(there, Not(some)), ret=FALSE, facts=facts),
            Outcome("in place", when=And(some, fits), ret=whole, facts=facts, sets={(v, "len"): end}, mods={v.buf: lambda k: ite(And(k >= v.len, k < end), FREADC(f, k - v.len), old(k))}),
            Outcome("too large", when=And(some, Not(fits), big), ret=FALSE, facts=facts), Outcome("no memory", when=And(some, Not(fits)), ret=FALSE, nomem=True, facts=facts),
            Outcome("grown", when=And(some, Not(fits), Not(big)), ret=whole, facts=facts,
                    sets={(v, "table"): NewBuf(new, lambda k: ite(k < v.len, old(k), FREADC(f, k - v.len)), old=v.buf, valid=end), (v, "cap"): new, (v, "len"): end})]
@contract("harbol_bytebuffer_insert_from_file", props=["C03", "C20"])
def _(E):
    v = bb(E, 0)
    return from_stream(v, stream(E, 1))
@contract("harbol_bytebuffer_insert_from_filename", props=["C03", "C20"], inlines=("harbol_bytebuffer_insert_from_file",))
def _(E):
    v = bb(E, 0); there, f, closed = E.named_file(1)
    return [Outcome("no such file", when=Not(there), ret=FALSE, facts=closed)] + from_stream(v, f, there, closed)
@contract("harbol_bytebuffer_to_file", props=["C03"])
def _(E):
    v = bb(E, 0); f = stream(E, 1)
    return [Outcome("nothing to write", ret=FALSE)] if v.null else [Outcome("written", ret=eq(FWRITEN(f, v.buf.obj, v.len), v.len))]
