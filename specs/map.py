"""Contracts of map/map.c

Entries are numbered 0 .. len - 1 in order of insertion; entry e owns two heap blocks (key and value). A ghost order P of
the buckets puts the bucket of entry e at position e and the empty buckets after those; I is its inverse. So every entry
has a bucket, every other bucket is empty, and an empty one exists whenever len < cap. The bucket an entry's hash names
(its home) is never empty."""
from hvc.spec import *
from hvc.libc import sid
from specs.common import SZ, SMAX
NONE = L(SMAX)
def masked(x, cap): return UFAND(L(x), cap - 1)
def pow2(cap):
    """cap is a power of two, as far as its use as a mask goes"""
    return forall(lambda x: Or(x < 0, x > cap, eq(UFAND(x, cap - 1), ite(x < cap, x, 0))), "capacity is a power of two")
def perm(P, I, n):
    return [forall(lambda p: Or(p < 0, p >= n, And(P(p) >= 0, P(p) < n, eq(I(P(p)), p))), "order"),
            forall(lambda i: Or(i < 0, i >= n, And(I(i) >= 0, I(i) < n, eq(P(I(i)), i))), "position")]
def table(P, I, cap, ln, bk, hs):
    return [forall(lambda b: Or(b < 0, b >= cap, eq(bk(b), ite(I(b) < ln, I(b), NONE))), "buckets"),
            forall(lambda e: Or(e < 0, e >= ln, I(masked(hs(e), cap)) < ln), "home buckets are in use")]
class M: pass
def ghosts(E):
    """the ghost order of the buckets, kept in two ghost objects"""
    g = []
    for nm in ("ghost order", "ghost position"):
        if E.verify:
            o = E.eng.new_plane(E.st, nm, L(1 << 62), 8, "i", heap=False); o.born = "entry"
        else: o = next(o for o in E.st.objs.values() if o.name == nm)
        g.append(BV(E, o.id, 0, 1 << 62, 8, "i", nm, o.chain))
    return g
def reorder(g, P, I):
    """a call leaves this order behind (ghost assignment)"""
    def do(E):
        for b, fn in zip(g, (P, I)):
            ob = E.eng.wobj(E.st, b.obj); ob.chain = Base(fn, b.name); E.eng.note_write(E.st, b.obj)
    return do
def reqall(E, f):
    """precondition that may be quantified"""
    if E.verify: E.st.facts.append(f); return
    if isinstance(f, Forall):
        k = fresh("k"); s = E.st.clone(); s.hints = list(s.hints) + [k]
        E.eng.prove(s, f.fn(k), E.lab(f.label))
    else: E.eng.prove(E.st, f, E.lab("valid map"))
def hmap(E, i=0, again=False):
    """again: the ghost objects are free for placing the entries anew"""
    if not E.verify:
        # the callers contracted here call this in the state they were entered in, where the map is the one they were given
        m = E.eng.E.hmap; p = E.rawptr(i); p0 = E.eng.E.prestate
        ids = [m.v.obj] + ([] if m.null else [b.obj for b in (m.bk, m.hs, m.kl, m.dl, m.ks, m.dt, *m.g)])
        if not (isinstance(p, Ptr) and p.obj == m.v.obj and p.off.same(ZERO)): raise Unsupported("another map")
        for o in ids:
            a, b = p0.objs[o], E.st.objs[o]
            if a is not b and not (a.live and b.live and a.kind == b.kind and (a.chain is b.chain if a.kind == "plane" else a.cells == b.cells)): raise Unsupported("call on a map that has changed")
        if not m.null and any(p0.fams[f] is not E.st.fams[f] for f in (m.kf, m.df)): raise Unsupported("call on a map that has changed")
        return m
    m = E.hmap = hmap_(E, i, again); return m
def hmap_(E, i, again):
    v = E.struct(i, "HarbolMap"); m = M(); m.v = v; m.seed = v.seed; m.g = ghosts(E); m.P, m.I = (m.g[0].old, m.g[1].old) if not again else (fresh_uf("bucket", 1, 0), fresh_uf("entry", 1, 0))
    if E.isnull(v, "keys"):
        for f in ("datum", "buckets", "hashes", "keylens", "datalens"): E.setfield(v, f, NULLP)
        for f in ("cap", "len"): E.setfield(v, f, L(0))
        m.null = True; m.cap = m.len = L(0); return m
    m.null = False; m.cap, m.len = v.cap, v.len
    E.req(And(m.cap >= 1, m.cap * 8 <= MAXOBJ, m.len <= m.cap), "sizes")
    m.bk, m.hs, m.kl, m.dl = (E.buf(v, f, m.cap * 8, w=8) for f in ("buckets", "hashes", "keylens", "datalens"))
    live = lambda e: And(e >= 0, e < m.len)
    m.kf, ka = E.fam("keys", live, size=m.kl.old); m.df, da = E.fam("values", live, size=m.dl.old)
    m.ks = E.buf(v, "keys", m.cap * 8, w=8); m.dt = E.buf(v, "datum", m.cap * 8, w=8)
    for b, adr in ((m.ks, ka), (m.dt, da)):
        ob = E.eng.wobj(E.st, b.obj); uf = fresh_uf(b.name, 1, 0, SMAX)
        ob.chain = b.chain = Base(lambda k, adr=adr, uf=uf: ite(live(k), adr(k), uf(k)), b.name)
    E.st.facts += perm(m.P, m.I, m.cap) + table(m.P, m.I, m.cap, m.len, m.bk.old, m.hs.old)
    E.st.facts += [pow2(m.cap), forall(lambda e: Or(e < 0, e >= m.len, And(m.kl.old(e) >= 1, m.dl.old(e) >= 1, m.kl.old(e) <= MAXOBJ, m.dl.old(e) <= MAXOBJ)), "lengths")]
    m.key = lambda e: Ptr(FamRef(m.kf, L(e)), ZERO); m.val = lambda e: Ptr(FamRef(m.df, L(e)), ZERO)
    return m
def hash_of(chain, off, n, seed):
    """the hash of a stretch of memory in one snapshot: array_hash reads nothing else and writes nothing, so its result
    is a function of these bytes, the length and the seed"""
    return UF("hash#%d" % sid(chain), 3, 0, SMAX)(L(off), L(n), L(seed))
@contract("array_hash", props=["C06"])
def _(E):
    n = E.int(1); E.req(n <= MAXOBJ, "length"); key = E.buf_arg(0, n); seed = E.int(2)
    return [Outcome("hash", ret=ANY if E.verify else hash_of(key.chain, key.off, n, seed))]
def hashed(E, m, key, n):
    """an entry whose key has the same bytes has the same stored hash"""
    m.same = lambda e: And(eq(m.kl.old(e), n), E.memeq(m.key(e), key.ptr(), n)); m.H = hash_of(key.chain, 0, n, m.seed)
    if not m.null: E.st.facts.append(forall(lambda e: Or(e < 0, e >= m.len, Not(m.same(e)), eq(m.hs.old(e), m.H)), "equal keys have equal hashes"))
    return m.H
def track(E, fn, label):
    """candidate invariant: an integer variable of the loop equals fn(iterations)"""
    from hvc.loops import Cand
    def cands(lc):
        out = []
        for k, lv in lc.mods.items():
            if lv.kind != "i" or lv.mode != "gen" or lv.bits != 64: continue
            out.append(Cand(lambda vals, it, k=k: eq(vals[k], fn(it)) if isinstance(vals[k], Lin) else None, "%s = %s" % (lv.name, label)))
        return out
    E.cands.append(cands)

@contract("harbol_map_idx_get", props=["C06"])
def _(E):
    m = hmap(E); n = E.int(1)
    if m.null: return [Outcome("no entry", ret=NULLP)]
    return [Outcome("no entry", when=n >= m.len, ret=NULLP), Outcome("value", when=n < m.len, ret=m.val(n))]

@contract("harbol_map_idx_val", props=["C06"])
def _(E):
    m = hmap(E); n = E.int(2); E.req(And(n >= 1, n <= MAXOBJ), "size"); val = E.buf_arg(1, n)
    if m.null: return [Outcome("empty", ret=NONE)]
    f = E.least("first", L(0), m.len, lambda e: And(eq(m.dl.old(e), n), E.memeq(m.val(e), val.ptr(), n)))
    return [Outcome("absent", when=f >= m.len, ret=NONE), Outcome("found", when=f < m.len, ret=f)]

# ------------------------------------------------------------------ lookup
def lookup(E, m, key, n):
    """the entry with the given key (len when there is none)"""
    if m.null: return L(0)
    h = hashed(E, m, key, n); cap = m.cap; home = masked(h, cap); m.home = home
    f = E.least("match", L(0), m.len, m.same); m.f = f
    # the bucket of the matching entry, counted from the home bucket on
    wrap = lambda x: ite(x < cap, x, x - cap)
    dist = lambda b: ite(b >= home, b - home, b + cap - home)
    track(E, lambda it: wrap(home + 1 + it), "bucket after home"); track(E, lambda it: wrap(home + it), "bucket from home on")
    E.linv("the matching entry is not passed", lambda it: Or(f >= m.len, dist(m.P(f)) > it))
    E.linv("the matching entry is not passed", lambda it: Or(f >= m.len, dist(m.P(f)) >= it))
    E.linv("no more iterations than buckets", lambda it: it <= cap - 1)
    E.hints = E.hints + [f, m.P(f), home]
    return f
def keyarg(E, i, j):
    n = E.int(j); E.req(And(n >= 1, n <= MAXOBJ), "key size")
    return E.buf_arg(i, n), n
def distinct(E, m, f):
    """no other entry has the same key"""
    if not m.null: E.st.facts.append(forall(lambda e: Or(e < 0, e >= m.len, f >= m.len, eq(e, f), Not(m.same(e))), "keys are distinct"))
@contract("harbol_map_get_entry_index", props=["C06"])
def _(E):
    m = hmap(E); key, n = keyarg(E, 1, 2)
    f = lookup(E, m, key, n); distinct(E, m, f)
    return [Outcome("absent", when=f >= m.len, ret=NONE), Outcome("found", when=f < m.len, ret=f)]

@contract("harbol_map_has_key", props=["C06"])
def _(E):
    m = hmap(E); key, n = keyarg(E, 1, 2); f = lookup(E, m, key, n)
    return [Outcome("looked up", ret=f < m.len)]
@contract("harbol_map_key_get", props=["C06"])
def _(E):
    m = hmap(E); key, n = keyarg(E, 1, 2); f = lookup(E, m, key, n)
    if m.null: return [Outcome("absent", ret=NULLP)]
    return [Outcome("absent", when=f >= m.len, ret=NULLP), Outcome("found", when=f < m.len, ret=m.val(f))]

# ------------------------------------------------------------------ placing an entry
@contract("_harbol_map_insert_entry", props=["C06", "C07"])
def _(E):
    E.unread = ("keys", "datum", "keylens", "datalens", "len", "seed"); v = E.struct(0, "HarbolMap", init=False)
    if E.verify: E.setfield(v, "cap", fresh("cap", 0, SMAX))
    cap = v.cap; n = E.int(1); E.req(And(cap >= 1, cap * 8 <= MAXOBJ), "capacity")
    bk, hs = (E.buf(v, f, cap * 8, w=8) for f in ("buckets", "hashes")); g = ghosts(E); P, I = g[0].old, g[1].old
    reqall(E, pow2(cap))
    for f in perm(P, I, cap) + table(P, I, cap, n, bk.old, hs.old): reqall(E, f)
    home = masked(hs.old(n), cap); wrap = lambda x: ite(x < cap, x, x - cap)
    d = E.least("distance", L(0), cap, lambda x: eq(bk.old(wrap(home + x)), NONE)); b = wrap(home + d)
    free = P(n); df = ite(free >= home, free - home, free + cap - home)     # some bucket is empty
    track(E, lambda it: wrap(home + it), "bucket from home on")
    E.linv("not past the first empty bucket", lambda it: it <= d)
    E.hints = E.hints + [n, free, df, home, d, b, I(b)]
    if E.verify:
        E.hint_it = True; s = E.st.clone(); s.hints = list(s.hints) + E.hints
        lem = Or(n >= cap, And(d <= df, d < cap, eq(bk.old(b), NONE), I(b) >= n))
        E.eng.prove(s, lem, "lemma: there is an empty bucket"); E.st.facts.append(lem)
    else: E.st.hints = list(E.st.hints) + E.hints
    P1 = lambda p: ite(eq(p, n), b, ite(eq(p, I(b)), free, P(p))); I1 = lambda i: ite(eq(i, b), n, ite(eq(i, free), I(b), I(i)))
    o = Outcome("placed", when=n < cap, ret=TRUE, mods={bk: lambda k: ite(eq(k, b), n, bk.old(k))})
    if not E.verify: o.extra = reorder(g, P1, I1)
    o.facts = lambda: perm(P1, I1, cap) + table(P1, I1, cap, n + 1, bk.new, hs.old)
    return [Outcome("no room", when=n >= cap, ret=FALSE), o]

# ------------------------------------------------------------------ creation and release
TABS = ("datum", "keys", "buckets", "hashes", "keylens", "datalens")
def zero_map(E, sv):
    for f in TABS: E.setfield(sv, f, NULLP)
    for f in ("cap", "len", "seed"): E.setfield(sv, f, L(0))
def tables(n): return {f: NewBuf(n * 8, (lambda k: NONE) if f == "buckets" else (lambda k: L(0)), w=8) for f in TABS}
@contract("harbol_map_init", props=["C06", "C20"], inline=True, unroll_paths=80)
def _(E):
    v = E.struct(0, "HarbolMap"); zero_map(E, v); n = E.int(1); fit = n * 8 <= MAXOBJ
    return [Outcome("too large", when=Not(fit), ret=FALSE), Outcome("no memory", ret=FALSE, nomem=True),
            Outcome("made", when=fit, ret=TRUE, sets={**{(v, f): b for f, b in tables(n).items()}, (v, "cap"): n, (v, "len"): L(0), (v, "seed"): ANY})]
@contract("harbol_map_make", props=["C06", "C20"], unroll_paths=80)
def _(E):
    v = E.sret("HarbolMap"); n = E.int(0); res = E.cell_arg(1, 1); fit = n * 8 <= MAXOBJ
    bad = {(v, f): NULLP for f in TABS}; bad.update({(v, f): L(0) for f in ("cap", "len", "seed")}); bad[res] = FALSE
    return [Outcome("too large", when=Not(fit), sets=bad), Outcome("no memory", nomem=True, sets=bad),
            Outcome("made", when=fit, sets={**{(v, f): b for f, b in tables(n).items()}, (v, "cap"): n, (v, "len"): L(0), (v, "seed"): ANY, res: TRUE})]
@contract("harbol_map_new", props=["C06", "C20"], unroll_paths=80)
def _(E):
    n = E.int(0); fit = n * 8 <= MAXOBJ
    return [Outcome("too large", when=Not(fit), ret=NULLP), Outcome("no memory", ret=NULLP, nomem=True),
            Outcome("made", when=fit, ret=NewBuf(E.mod.dbgsize("HarbolMap"), struct="HarbolMap", cells={**tables(n), "cap": n, "len": L(0)}))]
def cleared(m):
    v = m.v
    o = Outcome("cleared", sets={**{(v, f): NULLP for f in TABS}, (v, "cap"): L(0), (v, "len"): L(0)})
    if not m.null: o.frees = [m.bk, m.hs, m.kl, m.dl, m.ks, m.dt]; o.fams = {m.kf: lambda i: FALSE, m.df: lambda i: FALSE}
    return o
@contract("harbol_map_clear", props=["C06"], inline=True, unroll_paths=80)
def _(E): return [cleared(hmap(E))]
@contract("harbol_map_free", props=["C06"], unroll_paths=80)
def _(E):
    if E.pick(True, False): c = E.pcell(0, NULLP); return [Outcome("nothing", sets={c: NULLP})]
    m = hmap(E); c = E.pcell(0, m.v); E.eng.wobj(E.st, m.v.obj).heap = True
    o = cleared(m); o.sets = {c: NULLP}; o.frees = o.frees + [BV(E, m.v.obj, 0, 0, 1, "i", "map", None)]
    return [o]

# ------------------------------------------------------------------ growing
def after(E, m, cap, ln):
    """the order of the buckets afterwards is a valid one"""
    B_, H_ = (FieldBuf(E, m.v, f, 8) for f in ("buckets", "hashes"))
    P, I = (BV(E, b.obj, 0, b.size, 8, "i", b.name, b.chain).new for b in m.g)
    return lambda: perm(P, I, cap) + table(P, I, cap, ln, B_.new, H_.new)
def grown(E, m, new):
    """the tables in blocks for `new` entries"""
    out = {}
    for f, b in (("datum", None if m.null else m.dt), ("keys", None if m.null else m.ks), ("hashes", None if m.null else m.hs), ("keylens", None if m.null else m.kl), ("datalens", None if m.null else m.dl)):
        out[(m.v, f)] = NewBuf(new * 8, (lambda k: L(0)) if b is None else (lambda k, b=b: ite(k < ite(m.cap < new, m.cap, new), b.old(k), 0)), w=8, old=b)
    out[(m.v, "buckets")] = NewBuf(new * 8, None, w=8, old=None if m.null else m.bk); out[(m.v, "cap")] = new
    return out
def replaced(E, m, cap, upto):
    """loop invariants of placing the entries again"""
    B_, H_ = (FieldBuf(E, m.v, f, 8) for f in ("buckets", "hashes")); g = m.g
    P = lambda cur: lambda x: cur(g[0], x)
    I = lambda cur: lambda x: cur(g[1], x)
    E.inv("order", lambda cur, it, p: Or(p < 0, p >= cap, And(P(cur)(p) >= 0, P(cur)(p) < cap, eq(I(cur)(P(cur)(p)), p))))
    E.inv("position", lambda cur, it, i: Or(i < 0, i >= cap, And(I(cur)(i) >= 0, I(cur)(i) < cap, eq(P(cur)(I(cur)(i)), i))))
    E.inv("buckets", lambda cur, it, b: Or(b < 0, b >= cap, eq(cur(B_, b), ite(I(cur)(b) < it, I(cur)(b), NONE))))
    E.inv("home buckets are in use", lambda cur, it, e: Or(e < 0, e >= it, I(cur)(masked(cur(H_, e), cap)) < it))
@contract("harbol_map_rehash", props=["C06", "C20"], unroll_paths=80)
def _(E):
    m = hmap(E, again=True); new = E.int(1); E.req(new >= 1, "a power of two")
    fit = new * 8 <= MAXOBJ; reqall(E, pow2(new))
    if E.verify: E.st.facts += perm(m.g[0].old, m.g[1].old, new)
    replaced(E, m, new, m.len)
    o = Outcome("rehashed", when=And(new >= m.len, fit), ret=TRUE, sets=grown(E, m, new), facts=after(E, m, new, m.len)); o.any = m.g
    if not E.verify: o.extra = reorder(m.g, fresh_uf("bucket", 1, 0), fresh_uf("entry", 1, 0))
    return [Outcome("too small", when=new < m.len, ret=FALSE), Outcome("too large", when=Not(fit), ret=FALSE), Outcome("no memory", when=new >= m.len, ret=FALSE, nomem=True), o]

# ------------------------------------------------------------------ inserting and setting
def _double():
    """bit-vector lemma: twice a power of two is a power of two"""
    import z3
    c, x = z3.BitVecs("c x", 64); s = z3.Solver()
    s.add(c != 0, c & (c - 1) == 0, z3.ULE(c, 1 << 61), z3.ULE(x, 2 * c), z3.Not((x & (2 * c - 1)) == z3.If(z3.ULT(x, 2 * c), x, 0)))
    if s.check() != z3.unsat: raise Unsupported("doubling lemma")
def doubled(E, m):
    """the capacity is a power of two (take x = cap in its definition), so is its double"""
    _double(); E.st.facts.append(forall(lambda x: Or(x < 0, m.cap > (1 << 61), x > 2 * m.cap, eq(UFAND(x, 2 * m.cap - 1), ite(x < 2 * m.cap, x, 0))), "twice the capacity is a power of two"))
def kept(E, m, but=()):
    """the entries that were there before are unchanged"""
    out = []
    if m.null: return out
    for f, b in (("hashes", m.hs), ("keylens", m.kl), ("datalens", m.dl), ("keys", m.ks), ("datum", m.dt)):
        if f in but: continue
        F = FieldBuf(E, m.v, f, 8)
        out.append(forall(lambda e, F=F, b=b: Or(e < 0, e >= m.len, eq(F.new(e), b.old(e))), f + " of the other entries"))
    return out
def value_args(E, i, j):
    z = E.int(j); E.req(And(z >= 1, z <= MAXOBJ), "value size"); return E.buf_arg(i, z), z
def inserted(E, m, key, n, val, z, f):
    v, cap, ln = m.v, m.cap, m.len
    full = True if m.null else E.branch(eq(ln, cap))
    ncap = (L(1) if m.null else 2 * cap) if full else cap; fit = ncap * 8 <= MAXOBJ
    if not m.null: doubled(E, m)
    T = {x: FieldBuf(E, v, x, 8) for x in TABS}
    H = m.H if not m.null else hash_of(key.chain, 0, n, m.seed)
    changed = {x: b for x, b in zip(("hashes", "keylens", "datalens", "keys", "datum", "buckets"), (m.hs, m.kl, m.dl, m.ks, m.dt, m.bk))} if not m.null else {x: None for x in TABS}
    if full: sets = {**{(v, x): NewBuf(ncap * 8, None, w=8, old=b) for x, b in changed.items()}, (v, "cap"): ncap}; mods = {}
    else: sets = {}; mods = {b: None for b in changed.values()}
    absent = f >= ln
    def facts(): return kept(E, m) + after(E, m, ncap, ln + 1)() + [eq(T["hashes"].new(ln), H), eq(T["keylens"].new(ln), n), eq(T["datalens"].new(ln), z)]
    ok = Outcome("inserted", when=And(absent, fit), ret=TRUE, sets={**sets, (v, "len"): ln + 1}, mods=mods, facts=facts)
    ok.placed = [(lambda: T["keys"].new(ln), NewBuf(n, key.old), "key of the new entry"), (lambda: T["datum"].new(ln), NewBuf(z, val.old), "value of the new entry")]
    ok.any = m.g
    outs = [Outcome("present", when=f < ln, ret=FALSE), ok]
    nm = Outcome("no memory", when=And(absent, fit), ret=FALSE, nomem=True, sets=sets, mods=mods, facts=lambda: kept(E, m) + after(E, m, ncap, ln)()); nm.any = m.g
    outs.append(nm)
    if full: outs += [Outcome("too large", when=And(absent, Not(fit)), ret=FALSE), Outcome("no memory for the tables", when=And(absent, fit), ret=FALSE, nomem=True)]
    E.hints = E.hints + [ln, L(0)]
    return outs
@contract("harbol_map_insert", props=["C06", "C20"])
def _(E):
    m = hmap(E); key, n = keyarg(E, 1, 2); val, z = value_args(E, 3, 4)
    return inserted(E, m, key, n, val, z, lookup(E, m, key, n))
def changed_value(E, m, i, val, z, when):
    """the value of entry i is replaced"""
    T = FieldBuf(E, m.v, "datum", 8)
    ok = Outcome("replaced", when=when, ret=TRUE, mods={m.dt: None, m.dl: lambda k: ite(eq(k, i), z, m.dl.old(k))}, facts=lambda: [forall(lambda e: Or(e < 0, e >= m.len, eq(e, i), eq(T.new(e), m.dt.old(e))), "other values")])
    ok.placed = [(lambda: T.new(i), NewBuf(z, val.old), "new value")]; ok.fams = {m.df: lambda k: And(k >= 0, k < m.len, ne(k, i))}
    return [ok, Outcome("no memory", when=when, ret=FALSE, nomem=True)]
@contract("harbol_map_idx_set", props=["C06", "C20"])
def _(E):
    m = hmap(E); i = E.int(1); val, z = value_args(E, 2, 3)
    if m.null: return [Outcome("no entry", ret=FALSE)]
    E.hints = E.hints + [i]
    return [Outcome("no entry", when=i >= m.len, ret=FALSE)] + changed_value(E, m, i, val, z, i < m.len)
@contract("harbol_map_key_set", props=["C06", "C20"], inlines=("harbol_map_insert", "harbol_map_idx_set"))
def _(E):
    m = hmap(E); key, n = keyarg(E, 1, 2); val, z = value_args(E, 3, 4); f = lookup(E, m, key, n)
    outs = inserted(E, m, key, n, val, z, f)[1:]
    if not m.null: outs = outs + changed_value(E, m, f, val, z, f < m.len)
    return outs
@contract("harbol_map_key_val", props=["C06"])
def _(E):
    m = hmap(E); n = E.int(2); E.req(And(n >= 1, n <= MAXOBJ), "size"); val = E.buf_arg(1, n); kl = E.cell_arg(3, 8)
    if m.null: return [Outcome("empty", ret=NULLP)]
    f = E.least("first", L(0), m.len, lambda e: And(eq(m.dl.old(e), n), E.memeq(m.val(e), val.ptr(), n)))
    return [Outcome("absent", when=f >= m.len, ret=NULLP), Outcome("found", when=f < m.len, ret=m.key(f), sets={kl: m.kl.old(f)})]

# ------------------------------------------------------------------ removing
def removed(E, m, n, when):
    E.st.facts += perm(m.g[0].old, m.g[1].old, m.cap); replaced(E, m, m.cap, m.len - 1)
    def facts():
        out = []
        for f, b in (("hashes", m.hs), ("keylens", m.kl), ("datalens", m.dl), ("keys", m.ks), ("datum", m.dt)):
            F = FieldBuf(E, m.v, f, 8)
            out.append(forall(lambda e, F=F, b=b: Or(e < 0, e >= m.len - 1, eq(F.new(e), b.old(ite(e < n, e, e + 1)))), f + " of the remaining entries"))
        return out + after(E, m, m.cap, m.len - 1)()
    o = Outcome("removed", when=when, ret=TRUE, sets={(m.v, "len"): m.len - 1}, mods={b: None for b in (m.hs, m.kl, m.dl, m.ks, m.dt, m.bk)}, facts=facts)
    o.fams = {f: (lambda e: And(e >= 0, e < m.len, ne(e, n))) for f in (m.kf, m.df)}; o.any = m.g
    if not E.verify: o.extra = reorder(m.g, fresh_uf("bucket", 1, 0), fresh_uf("entry", 1, 0))
    return o
@contract("harbol_map_idx_rm", props=["C07"])
def _(E):
    m = hmap(E, again=True); n = E.int(1)
    if m.null: return [Outcome("no entry", ret=FALSE)]
    E.hints = E.hints + [n]
    return [Outcome("no entry", when=n >= m.len, ret=FALSE), removed(E, m, n, n < m.len)]
@contract("harbol_map_key_rm", props=["C07"])
def _(E):
    m = hmap(E, again=True); key, n = keyarg(E, 1, 2); f = lookup(E, m, key, n)
    if m.null: return [Outcome("absent", ret=FALSE)]
    return [Outcome("absent", when=f >= m.len, ret=FALSE), removed(E, m, f, f < m.len)]
