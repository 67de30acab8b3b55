"""Contracts of tuple/tuple.c

A field is described by one 32-bit word of the field table: size in the high half, offset in the low half.
Valid tuples: the fields lie in order, each wholly inside the storage, without overlap."""
from hvc.spec import *
from specs.common import SZ, SMAX

def word(b, i): return b.old(4 * i) + 256 * b.old(4 * i + 1), b.old(4 * i + 2) + 256 * b.old(4 * i + 3)   # offset, size
def tup(E, i, heap=True, v=None):
    v = v or E.struct(i, "HarbolTuple")
    if not E.verify: raise Unsupported("tuple argument at a call site")
    if E.pick(True, False):
        for f in ("datum", "fields.table"): E.setfield(v, f, NULLP)
        for f in ("len", "fields.len", "fields.cap"): E.setfield(v, f, L(0))
        v.null = True; v.tab = v.dat = BV(E, 0, 0, 0, 1, "i", "datum", None); v.n = L(0); return v
    v.null = False; n = v.n = v.get("fields.len"); c = v.get("fields.cap")
    E.req(And(n <= c, c >= 4, c * 4 <= MAXOBJ, v.len >= 1, v.len <= 65535), "sizes")
    t = v.tab = E.buf(v, "fields.table", c * 4); v.dat = E.buf(v, "datum", v.len)
    def inv(j):
        (o, s), (o2, s2) = word(t, j), word(t, j + 1)
        return Or(j < 0, j >= n, And(s >= 1, o + s <= v.len, Or(j + 1 >= n, o + s <= o2)))
    v.inv = inv
    E.st.facts.append(forall(inv, "fields in order inside the storage"))
    return v
def at(E, v, i):
    E.hints = E.hints + [i]; E.st.hints = list(E.st.hints) + [i]
    if not v.null: E.eng.assume(E.st, v.inv(i))
    return word(v.tab, i)
@contract("harbol_tuple_get", props=["C12"], inline=True)
def _(E):
    v = tup(E, 0); i = E.int(1)
    if v.null: return [Outcome("empty", ret=NULLP)]
    o, s = at(E, v, i)
    return [Outcome("past the last field", when=i >= v.n, ret=NULLP), Outcome("field", when=i < v.n, ret=v.dat.ptr(o))]
@contract("harbol_tuple_set", props=["C12"])
def _(E):
    v = tup(E, 0); i = E.int(1)
    if v.null:
        E.ptr_arg(2); return [Outcome("empty", ret=NULLP)]
    o, s = at(E, v, i)
    if not E.branch(i < v.n):
        E.ptr_arg(2); return [Outcome("past the last field", ret=NULLP)]
    b = E.buf_arg(2, s)
    return [Outcome("field set", ret=v.dat.ptr(o), mods={v.dat: lambda k: ite(And(k >= o, k < o + s), b.old(k - o), v.dat.old(k))})]
@contract("harbol_tuple_field_size", props=["C12"])
def _(E):
    v = tup(E, 0); i = E.int(1)
    if v.null: return [Outcome("empty", ret=L(0))]
    o, s = at(E, v, i)
    return [Outcome("past the last field", when=i >= v.n, ret=L(0)), Outcome("size", when=i < v.n, ret=s)]
@contract("harbol_tuple_len", props=["C12"])
def _(E):
    v = tup(E, 0); return [Outcome("len", ret=v.len)]
@contract("harbol_tuple_fields", props=["C12"])
def _(E):
    v = tup(E, 0); return [Outcome("fields", ret=v.n)]
@contract("harbol_tuple_to_struct", props=["C12"])
def _(E):
    v = tup(E, 0)
    if v.null:
        E.ptr_arg(1); return [Outcome("empty", ret=FALSE)]
    b = E.buf_arg(1, v.len)
    return [Outcome("copied", ret=TRUE, mods={b: lambda k: v.dat.old(k)})]
@contract("harbol_tuple_clear", props=["C12"], inline=True)
def _(E):
    v = tup(E, 0)
    return [Outcome("cleared", sets={(v, "datum"): NULLP, (v, "len"): L(0), (v, "fields.table"): NULLP, (v, "fields.cap"): L(0), (v, "fields.len"): L(0)}, frees=[v.tab, v.dat])]
@contract("harbol_tuple_free", props=["C12"])
def _(E):
    if E.pick(True, False):
        c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    v = tup(E, None, v=E.newstruct("HarbolTuple", "tuple", heap=True)); c = E.pcell(0, v)
    return [Outcome("released", sets={c: NULLP}, frees=[v.tab, v.dat, BV(E, v.obj, 0, 48, 1, "i", "tuple", None)])]

# ---- layout
ALIGN = UF("alignup", 2, 0)      # harbol_align_size; the bit-precise contract in words.py is what AXGEN states
AXGEN["alignup"] = lambda a, x, y: (Implies(And(y >= 1, x + y <= SMAX), And(alin(a) >= x, alin(a) < x + y)), alin(a) <= SMAX, Implies(eq(y, 1), eq(alin(a), x)))
@contract("harbol_align_size", props=[], bvonly=True)
def _(E):
    x, a = E.int(0), E.int(1)
    return [Outcome("aligned", ret=ALIGN(x, a))]
def layout(E, v, i, res):
    n = E.int(i); E.req(And(n >= 1, n <= (1 << 40)), "number of fields")
    z = E.buf_arg(i + 1, n * 8, w=8); packed = E.int(i + 2); packed = packed if isinstance(packed, B) else i2b(packed)
    E.st.facts.append(forall(lambda j: Or(j < 0, j >= n, z.old(j) >= 1), "positive sizes"))
    s = z.old; case = E.case(packed, And(Not(packed), eq(n, 1)), And(Not(packed), ne(n, 1))); isp = case == 0; plain = case < 2
    cap8 = lambda x: ite(x >= 8, 8, x)
    LG = E.rec("largest", ZERO, lambda c, j: ite(c < s(j), s(j), c))
    T = E.rec("offset", ZERO, (lambda c, j: c + s(j)) if plain else (lambda c, j: ALIGN(c + s(j), cap8(ite(j + 1 < n, s(j + 1), s(j - 1))))))
    E.induct("sizes are at most the largest", lambda k, j: Or(k < 0, k >= j, s(k) <= LG(j)), n)
    big = E.branch(LG(n) > 65535)
    if big: return [Outcome("refused: a size beyond 16 bits", ret=FALSE)]
    E.induct("offsets are bounded", lambda j: And(T(j) >= j, T(j) <= j * 65543), n, True)
    E.induct("offsets grow", lambda k, j: Or(k < 0, k > j, T(k) <= T(j)), n)
    E.linv("offset bound", lambda it: And(T(it) >= it, T(it) <= it * 65543))
    from hvc.loops import Cand
    def prev(lc):
        out = []
        for k, lv in lc.mods.items():
            if lv.kind != "i" or lv.mode != "gen": continue
            out.append(Cand(lambda vals, it, k=k: Or(eq(it, 0), eq(vals[k], s(it - 1))) if isinstance(vals[k], Lin) else None, "%s is the previous size" % lv.name))
        return out
    E.cands.append(prev)
    total = T(n); aligned = ALIGN(total, cap8(LG(n))); N = total if isp else aligned
    if E.branch(aligned > 65535): return [Outcome("refused: total beyond 16 bits", ret=FALSE)]
    E.lemma("offsets fit 16 bits", lambda j: Or(j < 0, j > n, T(j) <= 65535)); E.lemma("sizes fit 16 bits", lambda j: Or(j < 0, j >= n, s(j) <= 65535))
    if not E.branch(N < 4): c = N
    else: c = L(4)
    tab = FieldBuf(E, v, "fields.table")
    def wordis(get, j): return And(eq(get(4 * j) + 256 * get(4 * j + 1), T(j)), eq(get(4 * j + 2) + 256 * get(4 * j + 3), s(j)))
    E.inv("field words so far (lo)", lambda cur, it, j: Or(j < 0, j >= it, eq(cur(tab, 4 * j) + 256 * cur(tab, 4 * j + 1), T(j))), False, True)
    E.inv("field words so far (hi)", lambda cur, it, j: Or(j < 0, j >= it, eq(cur(tab, 4 * j + 2) + 256 * cur(tab, 4 * j + 3), s(j))), False, True)
    return [Outcome("no memory", ret=FALSE, nomem=True, sets={(v, f): ANY for f in ("datum", "len", "fields.table", "fields.cap", "fields.len")}),
            Outcome("made", ret=TRUE, sets={(v, "datum"): NewBuf(N, lambda k: L(0)), (v, "len"): N, (v, "fields.len"): n, (v, "fields.cap"): c, (v, "fields.table"): NewBuf(c * 4)},
                facts=lambda: [forall(lambda j: Or(j < 0, j >= n, And(wordis(tab.new, j), T(j) + s(j) <= N)), "every field has its size and place"), N <= 65535, iff(packed, eq(modc(E.eng.cell_get(E.st, E.st.objs[v.obj], v.off + v.loc("packed")[0], 1, "i"), 2), 1))])]
@contract("harbol_tuple_init", props=["C12"], inline=True, cases=3, thorough=True)
def _(E):
    return layout(E, E.struct(0, "HarbolTuple"), 1, None)
