"""Contracts of str/str.c"""
from hvc.spec import *
from specs.common import SZ, SMAX
from hvc.libc import FTELL, FREADN, FREADC, SCAN

def hs(E, i, text=True, name=None):
    """a valid string: either no storage and length 0, or a block of len + 1 bytes ending in a terminator;
    text: and no terminator before"""
    v = E.struct(i, "HarbolString", name)
    if E.isnull(v, "cstr"):
        E.req(eq(v.len, 0), "a string without storage has length 0")
        v.buf = BV(E, 0, 0, 0, 1, "i", v.name + ".cstr", None); v.null = True; v.ch = lambda k: L(0)
        return v
    E.req(v.len < MAXOBJ, "length")
    v.null = False; v.buf = E.buf(v, "cstr", v.len + 1, nul=(v.len,)); v.ch = v.buf.old
    E.req(eq(v.buf.old(v.len), 0), "the text is terminated")
    if text: istext(E, v)
    return v
def istext(E, v):
    if E.verify: E.st.facts.append(forall(lambda j: Or(j < 0, j >= v.len, ne(v.buf.old(j), 0)), "text " + v.name))
    else:
        k = fresh("k", 0); s = E.st.clone(); s.facts = list(s.facts) + [k < v.len]; s.hints = list(s.hints) + [k]
        E.eng.prove(s, ne(v.buf.old(k), 0), E.lab("no terminator inside the text"))
def same(E, i, j, text=True):
    """two string parameters that may be one object"""
    v = hs(E, i, text)
    if E.alias(i, j): E.samearg(j, i); return v, v
    return v, hs(E, j, text)
def rebuilt(v, n, ch, ok=TRUE, ret=TRUE, fail=FALSE):
    """the storage becomes a block of n + 1 bytes holding ch(0..n-1) and a terminator"""
    big = n >= MAXOBJ
    return [Outcome("too large", when=And(ok, big), ret=fail), Outcome("no memory", when=ok, ret=fail, nomem=True),
            Outcome("rebuilt", when=And(ok, Not(big)), ret=ret, sets={(v, "cstr"): NewBuf(n + 1, lambda k: ite(k < n, ch(k), 0), old=v.buf, nul=(n,)), (v, "len"): n})]

B_ = ["C04", "C20"]
@contract("harbol_string_new", props=B_)
def _(E):
    if E.null_arg(0):
        return [Outcome("empty", ret=NewBuf(16, struct="HarbolString", cells={"cstr": NULLP, "len": L(0)})), Outcome("no memory", ret=NULLP, nomem=True)]
    s = E.cstr_arg(0); n = s.len; big = n >= MAXOBJ
    empty = NewBuf(16, struct="HarbolString", cells={"cstr": NULLP, "len": L(0)})
    if E.branch(eq(n, 0)) or E.branch(big): return [Outcome("empty", ret=empty), Outcome("no memory", ret=NULLP, nomem=True)]
    return [Outcome("no memory", ret=NULLP, nomem=True), Outcome("no memory for the text", ret=empty, nomem=True),
            Outcome("made", ret=NewBuf(16, struct="HarbolString", cells={"cstr": NewBuf(n + 1, s.old, nul=(n,)), "len": n}))]
@contract("harbol_string_make", props=B_)
def _(E):
    res = E.cell_arg(1, 1); empty = (NULLP, L(0))
    if E.null_arg(0): return [Outcome("empty", ret=empty, sets={res: FALSE})]
    s = E.cstr_arg(0); n = s.len
    if E.branch(Or(eq(n, 0), n >= MAXOBJ)): return [Outcome("empty", ret=empty, sets={res: FALSE})]
    return [Outcome("no memory", ret=empty, sets={res: FALSE}, nomem=True),
            Outcome("made", ret=(NewBuf(n + 1, s.old, nul=(n,)), n), sets={res: TRUE})]
@contract("harbol_string_init", props=B_)
def _(E):
    v = hs(E, 0, False); has = mkb(not v.null)
    if E.null_arg(1): return [Outcome("nothing to copy", ret=has)]
    s = E.cstr_arg(1); n = s.len
    return [Outcome("nothing to copy", when=eq(n, 0), ret=has)] + rebuilt(v, n, s.old, n > 0, fail=has)
@contract("harbol_string_clear", props=["C04"])
def _(E):
    v = hs(E, 0, False)
    return [Outcome("cleared", sets={(v, "cstr"): NULLP, (v, "len"): L(0)}, frees=[v.buf])]
@contract("harbol_string_free", props=["C04"])
def _(E):
    if not E.verify: raise Unsupported("harbol_string_free at a call site")
    if E.pick(True, False):
        c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = E.newstruct("HarbolString", "s", heap=True); c = E.pcell(0, v)
    if E.isnull(v, "cstr"): E.setfield(v, "len", L(0)); fr = []
    else: E.req(v.len < MAXOBJ); fr = [E.buf(v, "cstr", v.len + 1)]; E.req(eq(fr[0].old(v.len), 0))
    return [Outcome("released", sets={c: NULLP}, frees=fr + [BV(E, v.obj, 0, 16, 1, "i", "s", None)])]
@contract("harbol_string_cstr", props=["C04"])
def _(E):
    v = hs(E, 0, False); return [Outcome("text", ret=NULLP if v.null else v.buf.ptr())]
@contract("harbol_string_mut_cstr", props=["C04"])
def _(E):
    v = hs(E, 0, False); return [Outcome("text", ret=NULLP if v.null else v.buf.ptr())]
@contract("harbol_string_len", props=["C04"])
def _(E):
    v = hs(E, 0, False); return [Outcome("length", ret=v.len)]
@contract("harbol_string_add_char", props=B_)
def _(E):
    v = hs(E, 0, False); c = E.int(1)
    return rebuilt(v, v.len + 1, lambda k: ite(k < v.len, v.ch(k), c))
@contract("harbol_string_add_char_rep", props=B_)
def _(E):
    v = hs(E, 0, False); c = E.int(1); n = E.int(2)
    return rebuilt(v, v.len + n, lambda k: ite(k < v.len, v.ch(k), c))
@contract("harbol_string_add_str", props=B_)
def _(E):
    v, w = same(E, 0, 1)
    if w.null: return [Outcome("nothing to add", ret=FALSE)]
    return rebuilt(v, v.len + w.len, lambda k: ite(k < v.len, v.ch(k), w.ch(k - v.len)))
@contract("harbol_string_add_cstr", props=B_)
def _(E):
    v = hs(E, 0)
    if E.null_arg(1): return [Outcome("nothing to add", ret=FALSE)]
    s = E.cstr_arg(1)
    return [Outcome("nothing to add", when=eq(s.len, 0), ret=FALSE)] + rebuilt(v, v.len + s.len, lambda k: ite(k < v.len, v.ch(k), s.old(k - v.len)), s.len > 0)
@contract("harbol_string_copy_str", props=B_)
def _(E):
    v, w = same(E, 0, 1)
    if v is w: return [Outcome("same string", ret=TRUE)]
    if w.null: return [Outcome("nothing to copy", ret=FALSE)]
    return rebuilt(v, w.len, w.ch)
@contract("harbol_string_copy_cstr", props=B_)
def _(E):
    v = hs(E, 0, False)
    if E.null_arg(1): return [Outcome("nothing to copy", ret=FALSE)]
    s = E.cstr_arg(1)
    return [Outcome("nothing to copy", when=eq(s.len, 0), ret=FALSE)] + rebuilt(v, s.len, s.old, s.len > 0)

# ------------------------------------------------------------------ queries and editing (C05)
def sign(r, lt_, eq_):
    """a C comparison result (32 bits) of the given sign"""
    return [iff(eq(r, 0), eq_), iff(And(r >= (1 << 31)), lt_)]
def compare(E, A, B, na, nb):
    """first difference of two terminated texts decides"""
    d = E.least("difference", L(0), ite(na <= nb, na, nb) + 1, lambda k: ne(A(k), B(k)))
    E.hints = E.hints + [d]
    equal = d > ite(na <= nb, na, nb)
    return equal, And(Not(equal), A(d) < B(d))
@contract("harbol_string_cmpstr", props=["C05"])
def _(E):
    a, b = same(E, 0, 1)
    if a.null or b.null: return [Outcome("no text", ret=L(SMAX32))]
    e, l = compare(E, a.ch, b.ch, a.len, b.len)
    return [Outcome("compared", ret=lambda r: sign(r, l, e))]
SMAX32 = (1 << 32) - 1
@contract("harbol_string_cmpcstr", props=["C05"])
def _(E):
    a = hs(E, 0)
    if E.null_arg(1): return [Outcome("no text", ret=L(SMAX32))]
    b = E.cstr_arg(1)
    if a.null: return [Outcome("no text", ret=L(SMAX32))]
    e, l = compare(E, b.old, a.ch, b.len, a.len)
    return [Outcome("compared", ret=lambda r: sign(r, l, e))]
@contract("harbol_string_empty", props=["C05"])
def _(E):
    v = hs(E, 0, False)
    if v.null: return [Outcome("empty", ret=TRUE)]
    return [Outcome("emptiness", ret=eq(v.ch(0), 0))]
@contract("harbol_string_is_palindrome", props=["C05"])
def _(E):
    v = hs(E, 0)
    if v.null: return [Outcome("no text", ret=FALSE)]
    j = fresh("mirror")
    pal = forall(lambda k: Or(k < 0, k >= v.len, eq(v.ch(k), v.ch(v.len - 1 - k))), "palindrome")
    j = E.least("asymmetry", L(0), v.len, lambda k: ne(v.ch(k), v.ch(v.len - 1 - k)))
    E.hints = E.hints + [j, v.len - 1 - j]
    return [Outcome("decided", ret=And(v.len > 0, j >= v.len))]
@contract("harbol_string_replace_char", props=["C05"])
def _(E):
    v = hs(E, 0); a, b = E.int(1), E.int(2)
    if v.null: return [Outcome("no text", ret=FALSE)]
    ok = And(ne(a, 0), ne(b, 0)); j = E.least("occurrence", L(0), v.len, lambda k: eq(v.ch(k), a))
    return [Outcome("refused", when=Not(ok), ret=FALSE),
            Outcome("replaced", when=ok, ret=j < v.len, mods={v.buf: lambda k: ite(eq(v.ch(k), a), b, v.ch(k))})]
def count(E, name, n, pred):
    return E.rec(name, L(0), lambda c, j: c + ite(And(j < n, pred(j)), L(1), L(0)))
@contract("harbol_string_count_char", props=["C05"])
def _(E):
    v = hs(E, 0, False); c = E.int(1)
    if v.null: return [Outcome("no text", ret=L(0))]
    C = count(E, "occurrences", v.len + 1, lambda j: eq(v.ch(j), c))
    return [Outcome("counted", ret=C(v.len + 1))]
def case(name, lo, d):
    @contract(name, props=["C05"])
    def _(E):
        v = hs(E, 0)
        if v.null: return [Outcome("no text", ret=FALSE)]
        hit = lambda k: And(v.ch(k) >= lo, v.ch(k) <= lo + 25)
        j = E.least("letter", L(0), v.len, hit)
        return [Outcome("converted", ret=j < v.len, mods={v.buf: lambda k: ite(hit(k), v.ch(k) + d, v.ch(k))})]
case("harbol_string_upper", 97, -32)
case("harbol_string_lower", 65, 32)
@contract("harbol_string_reverse", props=["C05"])
def _(E):
    v = hs(E, 0)
    if v.null: return [Outcome("no text", ret=FALSE)]
    return [Outcome("reversed", ret=v.len >= 2, mods={v.buf: lambda k: ite(k < v.len, v.ch(v.len - 1 - k), 0)})]
@contract("harbol_string_find_char", props=["C05"])
def _(E):
    v = hs(E, 0); c = E.int(1)
    if v.null: return [Outcome("no text", ret=L(SMAX))]
    j = E.least("occurrence", L(0), v.len + 1, lambda k: eq(v.ch(k), c))
    return [Outcome("found", ret=ite(j <= v.len, j, L(SMAX)))]
def kept(name, drop):
    """removes the characters drop(c): a kept character moves left by the number of removed ones before it"""
    @contract(name, props=["C05"])
    def _(E):
        v = hs(E, 0); d = drop(E)
        if v.null: return [Outcome("no text", ret=L(0))]
        one = lambda j: ite(d(v.ch(j)), L(0), L(1))
        K = E.rec("kept", ZERO, lambda c, j: c + one(j))    # kept characters among the first j
        R = E.rec("removed", ZERO, lambda c, j: c + ite(d(v.ch(j)), L(1), L(0)))
        E.linv("removed and kept add up", lambda it: eq(K(it) + R(it), it))
        E.inv("kept characters are in place", lambda cur, it, t: Or(t < 0, t >= it, d(v.ch(t)), eq(cur(v.buf, K(t)), v.ch(t))), False)
        E.inv("characters ahead are untouched", lambda cur, it, t: Or(t < it, t > v.len, eq(cur(v.buf, t), v.ch(t))))
        E.inv("kept characters are counted", lambda cur, it, t: Or(t < 0, t >= it, K(t) + one(t) <= K(it)), False)
        n = K(v.len)
        return [Outcome("removed", ret=R(v.len), sets={(v, "len"): n}, mods={v.buf: None},
            facts=lambda: [forall(lambda j: Or(j < 0, j >= v.len, d(v.ch(j)), eq(v.buf.new(K(j)), v.ch(j))), "kept characters"), eq(v.buf.new(n), 0), n <= v.len])]
def _rm(E):
    c = E.int(1); return lambda x: eq(x, c)
kept("harbol_string_rm_char", _rm)
kept("harbol_string_trim_spaces", lambda E: lambda x: Or(eq(x, 32), And(x >= 9, x <= 13)))
@contract("harbol_string_replace_range", props=["C05", "C20"])
def _(E):
    v = hs(E, 0); lo, up = E.int(1), E.int(2); w = E.cstr_arg(3)
    u = ite(up >= v.len, v.len - 1, up); ok = And(lo < v.len, lo <= u)
    n = lo + w.len + v.len - u - 1
    return [Outcome("out of range", when=Not(ok), ret=FALSE)] + ([] if v.null else
        rebuilt(v, n, lambda k: ite(k < lo, v.ch(k), ite(k < lo + w.len, w.old(k - lo), v.ch(k - lo - w.len + u + 1))), ok))
# ------------------------------------------------------------------ formatting and files
def _format(E, va):
    v = hs(E, 0, False); clear = E.int(1); fmt = E.cstr_arg(2)
    n, ch = E.eng.fmt(E.st, fmt.ptr(), va)
    old = ite(clear if isinstance(clear, B) else ne(clear, 0), L(0), v.len)
    M1 = L(SMAX32)
    return [Outcome("formatting error", when=n < 0, ret=M1)] + rebuilt(v, old + n, lambda k: ite(k < old, v.ch(k), ch(k - old)), n >= 0, ret=n, fail=M1)
def va_arg(E, i):
    """argument i is a variable argument list: what tells it apart"""
    if not E.verify: return E.eng.va_key(E.st, E.eng.concrete(E.st, E.args[i]))
    o = E.eng.new_obj(E.st, "va_list", 24, "cells", born="entry")
    for off, w in ((0, 4), (4, 4)): o.cells[off] = (w, fresh("va", 0, 176))
    for off in (8, 16): o.cells[off] = (8, E.opaque("va area"))
    E.args[i] = Ptr(o.id, ZERO)
    return o.cells[0][1]
@contract("harbol_string_format_va", props=B_)
def _(E): return _format(E, va_arg(E, 3))
@contract("harbol_string_format", props=B_)
def _(E):
    E.extra_args = []
    return _format(E, L(24))
def stream_text(v, f, there=TRUE, facts=()):
    size = v.E.eng.signed(v.E.st, FTELL(f), 64); ok = And(there, size > 0); big = size >= MAXOBJ; n = FREADN(f, size)
    return [Outcome("nothing to read", when=And(there, Not(ok)), ret=FALSE, facts=facts), Outcome("too large", when=And(ok, big), ret=FALSE, facts=facts), Outcome("no memory", when=ok, ret=FALSE, nomem=True, facts=facts),
            Outcome("read", when=And(ok, Not(big)), ret=TRUE, facts=facts, sets={(v, "cstr"): NewBuf(size + 1, lambda k: ite(k < n, FREADC(f, k), 0), old=v.buf, nul=(n,), valid=n + 1), (v, "len"): n})]
@contract("harbol_string_read_from_file", props=B_)
def _(E):
    v = hs(E, 0, False)
    if E.verify: E.setarg(1, E.opaque("stream"))
    return stream_text(v, E.eng.concrete(E.st, E.args[1]).obj)
@contract("harbol_string_read_file", props=B_)
def _(E):
    v = hs(E, 0, False); there, f, closed = E.named_file(1)
    return [Outcome("no such file", when=Not(there), ret=FALSE, facts=closed)] + stream_text(v, f, there, closed)
@contract("harbol_string_scan_va", props=["C05"])
def _(E):
    v = hs(E, 0, False); fmt = E.cstr_arg(1); E.req(mkb(not v.null), "a text")
    return [Outcome("scanned", ret=ANY if v.null else SCAN(v.buf.obj, v.buf.off, fmt.obj, fmt.off, va_arg(E, 2)))]
@contract("harbol_string_scan", props=["C05"])
def _(E):
    E.extra_args = []; v = hs(E, 0, False); fmt = E.cstr_arg(1); E.req(mkb(not v.null), "a text")
    return [Outcome("scanned", ret=ANY if v.null else SCAN(v.buf.obj, v.buf.off, fmt.obj, fmt.off, L(16)))]

# ------------------------------------------------------------------ occurrences of a C string
def occurrences(E, v, s, step, key=None):
    """ghosts: F(x) the distance from x to the first occurrence at or after x (negative: none); Q(j) where the search for
    occurrence j starts, step(F) behind the one before; N the number of occurrences found like that"""
    n, m = v.len, s.len; F = lambda x: E.eng.strstr_val(E.st, v.buf.ptr(x), s.ptr(), n - x, m)
    adv = lambda x: F(x) + step
    Q = E.rec("search", L(0), lambda c, j: ite(F(c) >= 0, c + adv(c), c), key=key)
    E.linv("the search moves on", lambda it: Q(it) >= it); E.linv("the search stays in the text", lambda it: Q(it) <= n); E.linv("no more iterations than characters", lambda it: it <= n)
    return F, Q
def counted(E, v, s):
    """... with every search starting behind the occurrence before: functions of the two texts alone"""
    key = E.eng.strstr_key(E.st, v.buf.ptr(0), s.ptr()) + (v.len, s.len)
    F, Q = occurrences(E, v, s, s.len, key); return F, Q, E.least("count", L(0), v.len + 1, lambda j: F(Q(j)) < 0, key=key)
@contract("harbol_string_count_cstr", props=["C05"], opaque_cmp=True)
def _(E):
    v = hs(E, 0); s = E.cstr_arg(1)
    if v.null: return [Outcome("no text", ret=L(0))]
    F, Q, N = counted(E, v, s)
    E.linv("occurrences so far", lambda it: it <= N)
    E.ptrinv("is the occurrence found last", lambda it: pite(F(Q(it)) >= 0, v.buf.ptr(Q(it) + F(Q(it))), NULLP))
    return [Outcome("empty pattern", when=eq(s.len, 0), ret=L(0)), Outcome("counted", when=ne(s.len, 0), ret=N)]
@contract("harbol_string_cstr_offsets", props=["C05"], opaque_cmp=True)
def _(E):
    v = hs(E, 0); s = E.cstr_arg(1); k = E.int(3); E.req(And(k >= 1, k * 8 <= MAXOBJ), "number of offsets"); out = E.buf_arg(2, k * 8, w=8)
    if v.null: return [Outcome("no text", ret=FALSE)]
    F, Q = occurrences(E, v, s, L(1))
    E.inv("offsets so far", lambda cur, it, j: Or(j < 0, j >= it, eq(cur(out, j), ite(F(Q(j)) >= 0, Q(j) + F(Q(j)), SMAX))))
    return [Outcome("empty pattern", when=eq(s.len, 0), ret=FALSE),
            Outcome("offsets", when=ne(s.len, 0), ret=TRUE, mods={out: lambda j: ite(F(Q(j)) >= 0, Q(j) + F(Q(j)), SMAX)})]
@contract("harbol_string_replace_cstr", props=["C05", "C20"], opaque_cmp=True, cases=8)
def _(E):
    v = hs(E, 0); s = E.cstr_arg(1); w = E.cstr_arg(2); amount = E.int(3)
    if v.null: return [Outcome("no text", ret=FALSE)]
    n, m, wl, old = v.len, s.len, w.len, v.ch
    E.req(wl <= MAXOBJ)
    F, Q, N = counted(E, v, s); some = And(amount >= 1, m >= 1, N >= 1); amt = ite(amount <= N, amount, N)
    # O(j): where the result goes on behind replacement j; T(j, k): its text up to there
    O = E.rec("result", L(0), lambda c, j: c + F(Q(j)) + wl)
    T = fresh_uf("replaced", 2, 0, 255)
    def unfold(j, k):
        i = j - 1; d = k - O(i)
        return Or(j < 1, k >= O(j), eq(T(j, k), ite(d < 0, T(i, k), ite(d < F(Q(i)), old(Q(i) + d), w.old(d - F(Q(i)))))))
    E.st.facts.append(Forall([(T.name, lambda j, k: (j, k))], unfold, "replaced text", 2))
    E.induct("length", lambda j: And(eq(O(j), Q(j) + j * wl - j * m), Q(j) >= j * m, Q(j) <= n), amt, uniform=True)
    E.induct("results grow", lambda d: And(O(amt - d) <= O(amt), Q(amt - d) <= Q(amt)), amt, uniform=True)
    total = n + amt * wl - amt * m
    E.case(*[And(a, b, c) for a in (wl > m, wl <= m) for b in (amount <= N, amount > N) for c in (F(0) <= 0, F(0) > 0)])
    for e in (0, 1):
        E.newinv("result of %d more replacements than iterations" % e, lambda cur, it, k, e=e: Or(k < 0, k >= O(it + e), eq(cur(k), T(it + e, k))))
        E.linv("replacements left (%d)" % e, lambda it, e=e: it + e <= amt)
    E.hints = E.hints + [amt, amt - 1]
    return [Outcome("nothing to replace", when=Not(some), ret=FALSE)] + rebuilt(v, total, lambda k: ite(k < O(amt), T(amt, k), old(Q(amt) + k - O(amt))), some)
