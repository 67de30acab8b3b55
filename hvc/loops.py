"""Loop cutting: modified locations, affine forms, inductive invariants (Houdini), history facts and
automatic summaries of block writes. Everything assumed at the loop head is either proved inductive here or
is the definition of a history symbol."""
import time
from . import terms as T
from .terms import *
from .engine import *
from .solver import Forall
from .quant import apps_in, triggers, forall, solve_for
from .exec import veq, leaves, LV, LocRef, FnRef, natural_loops, promotable

def value_bits(v, n):
    return 8 * n

DBG = False
class LoopCtx: pass

def changed(eng, H, s, depth):
    """locations whose value differs between the head state H and a back-edge state s"""
    out = {}
    f0 = H.frames[depth - 1]; f1 = s.frames[depth - 1]
    for k, v in f1.locs.items():
        if not veq(v, f0.locs.get(k, UNDEF)): out[("loc", k)] = v
    for oid, o1 in s.objs.items():
        o0 = H.objs.get(oid)
        if o0 is o1: continue
        if o0 is None:
            if oid >= H.nextid and o1.live and o1.heap: raise Unsupported("object allocated in a loop")
            continue
        if o0.live != o1.live: raise Unsupported("object released in a loop")
        if o0.kind != o1.kind or o0.w != o1.w:
            if o0.kind == "lazy" and o1.kind == "plane":
                out[("shape", oid)] = (o1.w, o1.vt); continue
            if o0.kind == "lazy" and o1.kind == "cells":
                out[("shape", oid)] = ("cells",); continue
            if o0.kind == "cells" and o1.kind == "plane":
                out[("shape", oid)] = ("toplane", o1.w, o1.vt); continue
            raise Unsupported("object reshaped in a loop")
        if o1.kind == "cells":
            for off, (n, v) in o1.cells.items():
                c0 = o0.cells.get(off)
                if c0 is None or c0[0] != n or not veq(c0[1], v): out[("cell", oid, off, n)] = v
            for off, c in o0.cells.items():
                if off not in o1.cells: raise Unsupported("cell split in a loop")
        elif o1.kind == "plane":
            if o0.chain is not o1.chain: out[("plane", oid)] = o1
    for name, g1 in s.fams.items():
        g0 = H.fams.get(name)
        if g0 is g1: continue
        if g0 is None: raise Unsupported("family created in a loop")
        if g0.live is not g1.live: out[("flive", name)] = g1
        if g0.chain is not g1.chain: out[("fplane", name)] = g1
        for k in g1.fields:
            if g0.fields[k][1] is not g1.fields[k][1]: out[("ffield", name, k)] = g1
    return out

def lookup(s, depth, key):
    if key[0] == "loc": return s.frames[depth - 1].locs.get(key[1], UNDEF)
    if key[0] == "cell":
        c = s.objs[key[1]].cells.get(key[2])
        return c[1] if c is not None else UNDEF

def assign(eng, s, depth, key, v):
    if key[0] == "loc": s.frames[depth - 1].locs[key[1]] = v
    else:
        o = eng.wobj(s, key[1]); o.cells[key[2]] = (key[3], v)

def key_name(eng, st, depth, key):
    if key[0] == "loc":
        return st.frames[depth - 1].fn.srcname.get(key[1]) or key[1]
    return "%s+%s" % (st.objs[key[1]].name, key[2])

def raw_of(x):
    """unwrapped form of a machine result"""
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        r = RAW.get(x.t[0][0])
        if r is not None: return r
    r = RAW.get(("mod", LinKey(x)))
    return r

def cut_loop(eng, S, header, body, key):
    from .exec import Exec
    d = len(S.frames); fr = S.frames[-1]
    eng.loopn = getattr(eng, "loopn", 0) + 1
    name = "%s loop@%s" % (fr.fn.name if fr.fn.name != eng.fname else "", header)
    line = next((i.line for i in fr.fn.blocks[header] if i.line), 0)
    name = "loop at line %d" % line if fr.fn.name == eng.fname else "loop in %s at line %d" % (fr.fn.name, line)
    S = S.clone(); S.choices = (); S.cpos = 0
    mark_facts = len(S.facts)
    it = fresh("it", 0)
    itid = it.t[0][0]
    mods = {}          # key -> LV
    planes = {}        # key -> dict(mode)
    lc = LoopCtx(); lc.eng = eng; lc.S = S; lc.it = it; lc.mods = mods; lc.planes = planes; lc.d = d; lc.name = name
    eng.dry += 1
    try:
        lc.approx = True; lc.guessed = False
        _discover(lc, header, body)
        for rnd in range(3):
            ch = _affine(lc, header, body)
            if rnd: lc.approx = False
            _houdini(lc, header, body)
            if not ch and rnd: break
        _affine(lc, header, body)
        _houdini(lc, header, body, final=True)
    finally:
        eng.dry -= 1
    H = _head(lc, final=True)
    # termination
    eng.loopinfo[name] = {"vars": [lv.name for lv in mods.values()], "invariants": [repr(c) for c in lc.kept_terms]}
    backs, exits = eng.body_once(H, header, body)
    for s in backs:
        for k in changed(eng, H, s, d):
            if k not in mods and k not in planes: raise Unsupported("loop modifies %r after all" % (k,))
        if lc.guessed: _recheck(lc, s)
    eng.dry += 1
    try:
        # invariants hold again at every back edge: re-established on the final body run
        for s in backs:
            for c in lc.kept:
                b = _cand_at(lc, c, s, it + 1)
                if b is None: continue
                if isinstance(b, Forall): s1, b = _skolem(s, b)
                else: s1 = s
                eng.dry -= 1
                try: eng.prove(s1, b, "%s: invariant preserved: %s" % (name, c.label))
                finally: eng.dry += 1
    finally:
        eng.dry -= 1
    if backs and not eng.dry:
        _variant(lc, H, backs)
    for s in exits:
        s.pc = None
        _pin(lc, s)
    return exits

def _recheck(lc, s):
    """closed forms found with guessed pointer values hold in the final run of the body"""
    eng = lc.eng; it = lc.it
    for key, lv in lc.mods.items():
        if lv.mode == "gen": continue
        v = lookup(s, lc.d, key); x = _raw(lv, it + 1)
        if lv.kind == "p":
            if not isinstance(v, Ptr) or v.obj != lv.targets[0]: raise Unsupported("closed form of %s" % lv.name)
            v = v.off
        eng.prove(s, eq(v, eng.fits(s, x, lv.bits) if lv.kind != "p" else x), "%s: closed form of %s" % (lc.name, lv.name))
    for key, pl in lc.planes.items():
        if pl.mode != "sum": continue
        if len(pl.sums) != 1: raise Unsupported("several write patterns found with guessed pointers")
        sm = pl.sums[0]; ch = plane_chain(s, key)
        while ch is not pl.headchain:
            if isinstance(ch, PtW): o, n = ch.co[-1], L(ch.n)
            elif isinstance(ch, RngW): o, n = ch.lo, ch.hi - ch.lo
            else: raise Unsupported("write pattern of %s" % pl.name)
            if not (o.same(sm.off) and n.same(sm.len)): raise Unsupported("write pattern of %s" % pl.name)
            ch = ch.prev
        if sm.simple:
            r = fresh("R", 0); s2 = s.clone(); s2.facts += [r < sm.len]
            eng.cur = s2; v = eng.rd(s2, plane_chain(s2, key), (sm.off + r,))
            if isinstance(v, (Ptr, PIte)): v = eng.ptr_to_int(s2, v)
            eng.prove(s2, eq(v, sm.val(sm.off + r)), "%s: value written to %s" % (lc.name, pl.name))

def _pin(lc, s):
    """when the exit condition fixes the number of iterations, write it instead of the counter"""
    eng = lc.eng; itid = lc.it.t[0][0]
    best = None
    cands = []
    for f in s.facts[lc.mark:]:
        if isinstance(f, Forall) or f.kind not in ("le", "eq"): continue
        l = f.args.l
        for i, k in l.t:
            if i == itid and k in (1, -1):
                r = l - lc.it.scale(k)
                r = -r if k == 1 else r
                if itid in r.deps: continue
                for x in ((r,) if f.kind == "eq" else (r, r - 1, r + 1)): cands.append(x)
    for x in cands:
        if any(i >= lc.amark for i in x.deps): continue
        if eng.entails(s, eq(lc.it, x)): best = x; break
    if best is None:
        if eng.entails(s, eq(lc.it, 0)): best = ZERO
        else: return
    SB = Subst({itid: best})
    def sub(v):
        if isinstance(v, Lin): return SB.lin(v) if itid in v.deps else v
        if isinstance(v, B): return SB.b(v) if itid in v.deps else v
        if isinstance(v, Ptr) and isinstance(v.obj, int): return Ptr(v.obj, sub(v.off)) if itid in v.off.deps else v
        return v
    fr = s.frames[lc.d - 1]
    for k, v in list(fr.locs.items()): fr.locs[k] = sub(v)
    for k, v in list(fr.regs.items()): fr.regs[k] = sub(v)
    for oid, o in list(s.objs.items()):
        if o.kind == "cells" and any(isinstance(v, Lin) and itid in v.deps for n, v in o.cells.values()):
            o = eng.wobj(s, oid)
            for off, (n, v) in list(o.cells.items()): o.cells[off] = (n, sub(v))
    for key, pl in lc.planes.items():
        if pl.mode != "sum" or key[0] != "plane": continue
        o = s.objs[key[1]]
        if o.chain is pl.headchain:
            ch = pl.base
            for sm in pl.sums: ch = sm.node(ch, best)
            o = eng.wobj(s, key[1]); o.chain = ch

# ------------------------------------------------------------------ head state
def _head(lc, final=False):
    eng, S, it = lc.eng, lc.S, lc.it
    H = S.clone()
    d = lc.d
    for sh in lc.shapes:
        oid, spec = sh
        o = H.objs[oid]
        if spec[0] == "cells":
            o = eng.wobj(H, oid); o.kind = "cells"
        elif spec[0] == "toplane": eng.cells_to_plane(H, o, spec[1], spec[2])
        else: eng.shape(H, o, spec[0], spec[1])
    lc.S0 = H.clone()
    lc.cur = {}
    facts = []
    # affine ones after the facts (representation depends on them)
    for key, lv in lc.mods.items():
        if lv.mode == "gen":
            v = _genval(lc, lv, it)
            assign(eng, H, d, key, v); lc.cur[key] = v
    for key, lv in lc.mods.items():
        if lv.mode != "gen": lc.cur[key] = _raw(lv, it)
    # candidate facts
    rawvals = dict(lc.cur)
    lc.kept_terms = []
    for key, pl in lc.planes.items():
        _setplane(lc, H, key, pl)
    for c in lc.kept:
        b = c.fn(rawvals, it) if c.sfn is None else c.sfn(H, rawvals, it)
        if b is None or b is TRUE: continue
        if isinstance(b, Forall):
            H.facts.append(b); continue
        lc.kept_terms.append(b)
        H.facts.append(b) if b.kind != "and" else H.facts.extend(b.args)
    for f in _history(lc):
        if f is not TRUE: H.facts.append(f)
    H.hints = list(H.hints) + [it - 1, ZERO] + ([it] if getattr(getattr(eng, 'E', None), 'hint_it', False) else [])
    for key, lv in lc.mods.items():
        if lv.mode != "gen":
            raw = lc.cur[key]
            if lv.kind == "p":
                obj = lv.targets[0]
                v = Ptr(obj, raw)
            else:
                v = eng.fits(H, raw, lv.bits)
            assign(eng, H, d, key, v)
    H.choices = (); H.cpos = 0
    lc.mark = len(H.facts); lc.H = H
    lc.amark = len(T._atoms); lc.fmark = T._fresh[0]
    return H

def _raw(lv, it):
    """closed form of a loop variable"""
    if lv.mode == "aff": return lv.raw0 + it * lv.coef
    it = L(it)
    if it.isconst() and it.c == 0: return lv.raw0
    return ite(it <= 0, lv.raw0, lv.coef(it - 1))

def _genval(lc, lv, it):
    if lv.kind == "i": return lv.uf(it)
    if lv.kind == "b": return eq(lv.uf(it), 1)
    if lv.kind == "f": return Flt(lv.uf(it), lv.bits // 8)
    if lv.kind == "p":
        r = None
        for k, (obj) in enumerate(lv.targets):
            if isinstance(obj, int) and obj == 0: p = NULLP
            elif isinstance(obj, tuple) and obj[0] == "fam":
                p = Ptr(FamRef(obj[1], lv.uf[1](it)), ZERO)
            elif isinstance(obj, tuple) and obj[0] == "fix":
                p = obj[1]
            else:
                off = lv.uf[0](it)
                if lv.unitw > 1: off = off * lv.unitw + lv.raw0
                p = Ptr(obj, off)
            r = p if r is None else pite(eq(lv.sel(it), k), p, r)
        return r
    raise Unsupported("loop variable kind")

def _mkvar(lc, key, v0, vs):
    """create the loop variable for a modified location"""
    eng = lc.eng
    lv = LV(); lv.key = key; lv.v0 = v0; lv.mode = "gen"; lv.coef = None; lv.raw0 = None; lv.targets = None; lv.sel = None; lv.unitw = 1
    lv.name = key_name(eng, lc.S, lc.d, key)
    allv = [v0] + vs
    smp = next((v for v in vs if not isinstance(v, Undef)), v0)
    n = None
    if key[0] == "cell": n = key[3]
    if isinstance(smp, (Ptr, PIte)):
        lv.kind = "p"; lv.bits = 64
        _ptargets(lc, lv, allv)
    elif isinstance(smp, Flt): lv.kind = "f"; lv.bits = smp.w * 8; lv.uf = fresh_uf(lv.name, 1, 0, (1 << lv.bits) - 1)
    elif isinstance(smp, B): lv.kind = "b"; lv.bits = 1; lv.uf = fresh_uf(lv.name, 1, 0, 1)
    elif isinstance(smp, Lin):
        if n is None:
            fn = lc.S.frames[lc.d - 1].fn
            t = promotable(fn)[key[1]]
            n = max(1, t[1] // 8)
            lv.bits = t[1]
        else: lv.bits = 8 * n
        lv.kind = "i"
        lv.uf = fresh_uf(lv.name, 1, 0, (1 << lv.bits) - 1)
    else: raise Unsupported("loop variable %s of kind %s" % (lv.name, type(smp).__name__))
    if isinstance(v0, Undef):
        lv.v0 = None
    return lv

def _ptargets(lc, lv, vals):
    ts = list(lv.targets or [])
    for v in vals:
        for p in leaves(v, []):
            if isinstance(p, Undef): continue
            if isinstance(p, Lin): p = lc.eng.int_to_ptr(lc.S, p)
            if isinstance(p, PIte):
                for q in leaves(p, []): vals.append(q)
                continue
            if isinstance(p.obj, int): o = p.obj
            else: o = ("fam", p.obj.fam)
            if o not in ts: ts.append(o)
    lv.targets = ts
    if not isinstance(lv.sel, UF): lv.sel = fresh_uf("sel_" + lv.name, 1, 0, 63)
    if len([t for t in ts if t != 0]) > 6: raise Unsupported("too many pointer targets")
    if lv.unitw == 1 and not isinstance(getattr(lv, "uf", None), tuple):
        lv.uf = (fresh_uf("off_" + lv.name, 1), fresh_uf("idx_" + lv.name, 1))
    # unit width
    lv.raw0 = ZERO
    for t in ts:
        if isinstance(t, int) and t != 0:
            o = lc.S.objs.get(t)
            if o is not None and o.kind == "plane" and o.w > 1: lv.unitw = o.w

# ------------------------------------------------------------------ discovery
def _discover(lc, header, body):
    eng = lc.eng
    lc.kept = []; lc.hist = []; lc.shapes = []; lc.wsum = {}
    for rnd in range(12):
        H = _head(lc)
        backs, exits = eng.body_once(H, header, body)
        lc.backs = backs
        new = False
        for s in backs:
            for key, v in changed(eng, H, s, lc.d).items():
                if key[0] == "shape":
                    if (key[1], v) not in lc.shapes:
                        lc.shapes.append((key[1], v)); new = True
                    continue
                if key[0] in ("plane", "fplane", "ffield", "flive"):
                    if key not in lc.planes:
                        lc.planes[key] = _mkplane(lc, H, key); new = True
                    continue
                if key in lc.mods:
                    lv = lc.mods[key]
                    if lv.kind == "p":
                        n0 = len(lv.targets)
                        _ptargets(lc, lv, [v])
                        if len(lv.targets) != n0: new = True
                    continue
                vs = [lookup(x, lc.d, key) for x in backs]
                lc.mods[key] = _mkvar(lc, key, lookup(lc.S0, lc.d, key), vs)
                new = True
            if new and rnd == 0: pass
        if not new: return
    raise Unsupported("loop modification set does not stabilise")

def _mkplane(lc, H, key):
    pl = LoopCtx()
    pl.mode = "gen"
    if key[0] == "plane":
        o = lc.S0.objs[key[1]]; pl.w = o.w; pl.vt = o.vt; pl.n = 1; pl.base = o.chain; pl.name = o.name
    elif key[0] == "fplane":
        g = lc.S0.fams[key[1]]; pl.w = g.w; pl.vt = g.vt; pl.n = 2; pl.base = g.chain; pl.name = g.name
    elif key[0] == "flive":
        g = lc.S0.fams[key[1]]; pl.w = 1; pl.vt = "i"; pl.n = 1; pl.base = g.live; pl.name = g.name + " live"
    else:
        g = lc.S0.fams[key[1]]; w, ch = g.fields[key[2]]; pl.w = w; pl.n = 1; pl.base = ch; pl.name = "%s.%d" % (g.name, key[2]); pl.vt = "i"
    pl.sums = None
    if pl.vt == "p":
        pl.mode = "ptr"
        pl.uf = None
    else:
        pl.uf = fresh_uf("M_" + pl.name, pl.n + 1, 0, (1 << (8 * pl.w)) - 1)
        lc.eng.guess[pl.uf.name] = (lc, pl.base)
    return pl

def _setplane(lc, H, key, pl):
    it = lc.it; eng = lc.eng
    if pl.mode == "gen":
        uf = pl.uf
        ch = Base(lambda *co: uf(it, *co), uf.name)
    elif pl.mode == "ptr":
        ch = Base(lambda *co: UNDEF, "undef-ptrs")
    else:
        ch = pl.base
        for sm in pl.sums:
            ch = sm.node(ch, it)
    pl.headchain = ch
    if key[0] == "plane":
        o = eng.wobj(H, key[1]); o.chain = ch
    elif key[0] == "fplane":
        g = H.fams[key[1]].copy(); H.fams[key[1]] = g; g.chain = ch
    elif key[0] == "flive":
        g = H.fams[key[1]].copy(); H.fams[key[1]] = g; g.live = ch
    else:
        g = H.fams[key[1]].copy(); H.fams[key[1]] = g; g.fields[key[2]] = (g.fields[key[2]][0], ch)

def plane_chain(s, key):
    if key[0] == "plane": return s.objs[key[1]].chain
    if key[0] == "fplane": return s.fams[key[1]].chain
    if key[0] == "flive": return s.fams[key[1]].live
    return s.fams[key[1]].fields[key[2]][1]

# ------------------------------------------------------------------ affine forms
def _free_of_body(lc, x):
    """term does not depend on the iteration or on anything created in the body"""
    itid = lc.it.t[0][0]
    for i in x.deps:
        if i == itid or i >= lc.amark: return False
    return True

def _affine(lc, header, body):
    """replace variables that change by a loop-invariant amount with closed forms; summarise block writes"""
    eng = lc.eng
    H = _head(lc)
    backs, exits = eng.body_once(H, header, body)
    lc.backs = backs
    if not backs: return False
    ch = False
    for key, lv in lc.mods.items():
        if lv.mode != "gen" or lv.v0 is None: continue
        if lv.kind == "i":
            cur = lc.cur[key]; c = None; ok = True
            for s in backs:
                v = lookup(s, lc.d, key)
                if not isinstance(v, Lin): ok = False; break
                dd = v - cur
                if not _free_of_body(lc, dd) :
                    r = raw_of(v)
                    if r is None: ok = False; break
                    dd = r - cur
                    if not _free_of_body(lc, dd): ok = False; break
                if dd.isconst():
                    M = 1 << lv.bits; m = dd.c % M
                    dd = L(m - M if m >= M // 2 else m)
                if c is None: c = dd
                elif not c.same(dd): ok = False; break
            if not ok or c is None:
                # assigned in every iteration from the iteration number alone: the value of the iteration before
                w = [lookup(s, lc.d, key) for s in backs]
                if isinstance(lv.v0, Lin) and all(isinstance(x, Lin) and x.same(w[0]) for x in w) and _iter_only(lc, w[0]):
                    lv.mode = "lag"; lv.raw0 = lv.v0; itid = lc.it.t[0][0]
                    lv.coef = lambda at, x=w[0], itid=itid: Subst({itid: at}).lin(x)
                    ch = True
                continue
            if ok and c is not None:
                v0 = lv.v0
                if v0.isconst() and v0.c >= 1 << (lv.bits - 1): v0 = v0 - (1 << lv.bits)
                lv.mode = "aff"; lv.coef = c; lv.raw0 = v0; ch = True
        elif lv.kind == "p" and len(lv.targets) == 1 and isinstance(lv.targets[0], int) and lv.targets[0] != 0 and isinstance(lv.v0, Ptr):
            cur = lc.cur[key]; c = None; ok = True
            for s in backs:
                v = lookup(s, lc.d, key)
                if not isinstance(v, Ptr): ok = False; break
                dd = v.off - cur.off
                if not _free_of_body(lc, dd): ok = False; break
                if c is None: c = dd
                elif not c.same(dd): ok = False; break
            if ok and c is not None:
                lv.mode = "aff"; lv.coef = c; lv.raw0 = lv.v0.off; ch = True
    if ch:
        H = _head(lc)
        backs, exits = eng.body_once(H, header, body)
        lc.backs = backs
    for key, pl in lc.planes.items():
        if pl.mode == "gen" and _summarise(lc, key, pl, backs): ch = True
    for rnd in range(3):
        if not any(pl.mode == "sum" and any(not sm.simple for sm in pl.sums) for pl in lc.planes.values()): break
        H = _head(lc)
        backs, exits = eng.body_once(H, header, body)
        lc.backs = backs
        c2 = False
        for key, pl in lc.planes.items():
            if pl.mode != "sum" or len(backs) != 1: continue
            for sm in pl.sums:
                if not sm.simple and _closed(lc, key, pl, sm, backs[0]): c2 = True
        if not c2: break
        ch = True
    return ch

def _closed(lc, key, pl, sm, s):
    """the value written by an iteration as a function of the unit offset only"""
    eng = lc.eng; itid = lc.it.t[0][0]
    r = fresh("R", 0); rid = r.t[0][0]
    s2 = s.clone(); s2.facts = list(s2.facts) + [r < sm.len]
    one = sm.len.isconst() and sm.len.c == 1
    old = eng.cur; eng.cur = s2
    try: v = eng.rd(s2, plane_chain(s2, key), (sm.off + (ZERO if one else r),))
    finally: eng.cur = old
    if isinstance(v, Undef): return False
    if not isinstance(v, Lin): return False
    if not _iter_only(lc, v, {x.W.name for x in pl.sums}, rid): return False
    n = sm.len
    def q(x):
        if n.isconst(): return divc(x, n.c)
        return UF("udiv", 2, 0)(x, n)
    def val(off):
        if sm.up: j = q(off - sm.a0); rr = off - sm.a0 - j * n
        else: j = q(sm.a0 + n - 1 - off); rr = off - sm.a0 + j * n
        return Subst({itid: j, rid: rr}).lin(v)
    sm.simple = True; sm.val = val
    return True

def _iter_only(lc, v, own=(), rid=None):
    """the value depends on the iteration number and on nothing else that the loop changes"""
    for i in v.deps:
        if i >= lc.amark and i != rid: 
            # terms built in the body from older atoms are fine as long as their leaves are
            a = T.atom(i)
            if a.kind == "var": return False
            if a.kind == "app":
                nm = a.args[0]; k = nm.rfind("!")
                if k >= 0 and nm[k + 1:].isdigit() and int(nm[k + 1:]) > lc.fmark: return False
        a = T.atom(i)
        if a.kind == "app" and (a.args[0] in own or any(lv.mode == "gen" and _ufnames(lv, a.args[0]) for lv in lc.mods.values()) or any(p2.uf is not None and p2.mode == "gen" and p2.uf.name == a.args[0] for p2 in lc.planes.values())): return False
    return True

class Sum:
    """one affine family of writes: iteration j writes [a0 + s*j, a0 + s*j + len)"""
    def node(self, ch, it):
        sm = self
        if self.up: lo, hi = self.a0, self.a0 + it * self.s
        else: lo, hi = self.a0 + self.len - it * self.len, self.a0 + self.len
        W = self.W; pre = self.pre
        if self.simple:
            # value given as a function of the unit offset
            return RngW(ch, pre, lo, hi, lambda *co: sm.val(co[-1]), "loop")
        return RngW(ch, pre, lo, hi, lambda *co: W(co[-1]), "loop")

def _summarise(lc, key, pl, backs):
    """recognise per-iteration writes at affine positions"""
    eng = lc.eng; it = lc.it; itid = it.t[0][0]
    if pl.n != 1: return False
    if pl.vt == "p": return False
    pos = []        # list of (off Lin, len Lin)
    per = []
    for s in backs:
        ch = plane_chain(s, key); ws = []
        while ch is not pl.headchain:
            if isinstance(ch, Base): return False
            if isinstance(ch, PtW): o, n = ch.co[-1], L(ch.n)
            else: o, n = ch.lo, ch.hi - ch.lo
            ws.append((o, n, ch)); ch = ch.prev
        per.append(ws)
        for o, n, _ in ws:
            if not any(o.same(p) and n.same(m) for p, m in pos): pos.append((o, n))
    if not pos or len(pos) > 3: return False
    sums = []
    for o, n in pos:
        # o = a0 + s*it
        if any(i >= lc.amark for i in o.deps) or any(i >= lc.amark or i == itid for i in n.deps): return False
        o0 = Subst({itid: ZERO}).lin(o); o1 = Subst({itid: it + 1}).lin(o)
        s = o1 - o
        if itid in s.deps or any(i >= lc.amark for i in s.deps): return False
        # all other variables must be closed forms
        for i in o.deps:
            a = T.atom(i)
            if a.kind == "app" and any(lv.mode == "gen" and _ufnames(lv, a.args[0]) for lv in lc.mods.values()): return False
        sm = Sum(); sm.pre = (); sm.a0 = o0; sm.s = s; sm.len = n; sm.simple = False
        if s.same(n): sm.up = True
        elif s.same(-n): sm.up = False
        else: return False
        sm.off = o; sm.W = fresh_uf("W_" + pl.name, 1, 0, (1 << (8 * pl.w)) - 1)
        sums.append(sm)
    # disjointness between different families is decided when reading: the newest write wins in the chain,
    # so require that the positions written in one iteration were not written by another family before
    if len(sums) > 1:
        H = lc.H.clone()
        for a in range(len(sums)):
            for b in range(len(sums)):
                if a == b: continue
                A, Bm = sums[a], sums[b]
                # A's position now vs B's already written range
                lo, hi = (Bm.a0, Bm.a0 + it * Bm.s) if Bm.up else (Bm.a0 + Bm.len - it * Bm.len, Bm.a0 + Bm.len)
                for s in lc.backs:
                    if not eng.entails(s, Or(A.off + A.len <= lo, A.off >= hi, A.len <= 0), eng.ctx.timeout): return False
                    # and within the iteration
                    if not eng.entails(s, Or(A.off + A.len <= Bm.off, A.off >= Bm.off + Bm.len, A.off.same(Bm.off) and TRUE or FALSE), eng.ctx.timeout): return False
    pl.mode = "sum"; pl.sums = sums
    return True

def _ufnames(lv, n):
    u = lv.uf
    if isinstance(u, tuple): return n in (u[0].name, u[1].name) or (lv.sel is not None and n == lv.sel.name)
    return u.name == n

# ------------------------------------------------------------------ history facts
def _mk_hist(lc):
    """after a dry run: transition facts valid for every earlier iteration"""
    eng = lc.eng; it = lc.it; itid = it.t[0][0]
    lc.hist = []
    paths = []
    if len(lc.backs) > 24: return
    for s in lc.backs:
        conj = []
        for f in s.facts[lc.mark:]:
            if isinstance(f, Forall): continue
            conj.append(f)
        for key, lv in lc.mods.items():
            if lv.mode != "gen": continue
            v = lookup(s, lc.d, key)
            c = _eqnext(lc, lv, v)
            if c is not None: conj.append(c)
        for key, pl in lc.planes.items():
            if pl.mode != "sum": continue
            for sm in pl.sums:
                c = _wfact(lc, s, key, pl, sm)
                if c is not None: conj.append(c)
        paths.append(And(*conj))
    T_ = Or(*paths)
    lc.trans = T_
    mark = lc.amark; fm = lc.fmark
    J = fresh("J"); jid = J.t[0][0]
    def ren(a, args):
        if a.kind == "var":
            if a.id >= mark and a.id != itid and not str(a.args).startswith(("J!", "K!", "addr#")):
                return UF("h!" + str(a.args), 1, a.lo, a.hi)(J)
            return None
        nm = a.args[0]
        k = nm.rfind("!")
        if k >= 0 and nm[k + 1:].isdigit() and int(nm[k + 1:]) > fm and not nm.startswith("W_"):
            return UF("h!" + nm, len(args) + 1, a.lo, a.hi)(J, *args)
        return None
    # rename per-iteration symbols, then substitute it -> J
    R = Subst({itid: J}, ren)
    TJ = R.b(T_)
    if TJ is TRUE: return
    skip = set()
    for lv in lc.mods.values():
        u = lv.uf if lv.mode == "gen" else None
        if isinstance(u, tuple): skip.update((u[0].name, u[1].name, lv.sel.name))
        elif u is not None: skip.add(u.name)
    trigs = triggers(TJ, jid, skip)
    def inst(j):
        return Or(L(j) < 0, L(j) >= it, Subst({jid: L(j)}).b(TJ))
    lc.hist.append(Forall(trigs, inst, "history of " + lc.name))
    # block writes with several units: two index history
    for key, pl in lc.planes.items():
        if pl.mode != "sum": continue
        for sm in pl.sums:
            if sm.len.isconst() and sm.len.c == 1: continue
            blk = _blockfact(lc, key, pl, sm, R, jid, J)
            if blk is not None: lc.hist.append(blk)

def _wfact(lc, s, key, pl, sm):
    """W(off) == value stored there in this iteration"""
    eng = lc.eng
    if not (sm.len.isconst() and sm.len.c <= 8): return None
    cs = []
    eng.cur = s
    for k in range(sm.len.c):
        v = eng.rd(s, plane_chain(s, key), (sm.off + k,))
        if isinstance(v, Flt): v = v.bits
        if isinstance(v, (Ptr, PIte)): v = eng.ptr_to_int(s, v)
        if isinstance(v, B): v = b2i(v)
        if isinstance(v, Undef): continue
        cs.append(eq(sm.W(sm.off + k), v))
    return And(*cs)

def _blockfact(lc, key, pl, sm, R, jid, J):
    """forall j, r: iteration j stored value(j, r) at a0 + s*j + r"""
    eng = lc.eng
    if len(lc.backs) != 1: return None
    s = lc.backs[0]
    r = fresh("R"); rid = r.t[0][0]
    s2 = s.clone(); s2.facts = list(s2.facts) + [r >= 0, r < sm.len]
    eng.cur = s2
    v = eng.rd(s2, plane_chain(s2, key), (sm.off + r,))
    if not isinstance(v, Lin): return None
    pc = And(*[f for f in s.facts[lc.mark:] if not isinstance(f, Forall)])
    t = And(Or(r < 0, r >= sm.len, eq(sm.W(sm.off + r), v)))
    tj = R.b(t)
    it = lc.it
    return Forall([], lambda j, q: Or(L(j) < 0, L(j) >= it, Subst({jid: L(j), rid: L(q)}).b(tj)), "block history", 2)

def _eqnext(lc, lv, v):
    eng = lc.eng; it = lc.it
    nx = it + 1
    if lv.kind == "i":
        if isinstance(v, B): v = b2i(v)
        return eq(lv.uf(nx), v) if isinstance(v, Lin) else None
    if lv.kind == "b": return iff(eq(lv.uf(nx), 1), v if isinstance(v, B) else i2b(v))
    if lv.kind == "f": return eq(lv.uf(nx), v.bits) if isinstance(v, Flt) else None
    if lv.kind == "p":
        return _ptreq(lc, lv, v, nx)

def _ptreq(lc, lv, v, at):
    if isinstance(v, PIte):
        a = _ptreq(lc, lv, v.a, at); b = _ptreq(lc, lv, v.b, at)
        if a is None or b is None: return None
        return Or(And(v.c, a), And(Not(v.c), b))
    if not isinstance(v, Ptr): return None
    o = v.obj if isinstance(v.obj, int) else ("fam", v.obj.fam)
    if o not in lv.targets: return None
    k = lv.targets.index(o)
    cs = []
    if len(lv.targets) > 1:
        if k: cs.append(eq(lv.sel(at), k))
        else: cs += [ne(lv.sel(at), j) for j in range(1, len(lv.targets))]
    if isinstance(o, tuple): cs.append(eq(lv.uf[1](at), v.obj.idx))
    elif o != 0:
        off = v.off
        if lv.unitw > 1:
            cs.append(eq(lv.uf[0](at) * lv.unitw + lv.raw0, off))
        else: cs.append(eq(lv.uf[0](at), off))
    return And(*cs)

def _history(lc):
    out = list(lc.hist)
    # initial values of the history variables
    for key, lv in lc.mods.items():
        if lv.mode != "gen" or lv.v0 is None: continue
        if lv.kind == "i" and isinstance(lv.v0, Lin): out.append(eq(lv.uf(0), lv.v0))
        elif lv.kind == "b" and isinstance(lv.v0, B): out.append(iff(eq(lv.uf(0), 1), lv.v0))
        elif lv.kind == "p":
            e = _ptreq(lc, lv, lv.v0, ZERO)
            if e is not None: out.append(e)
    if lc.hist:
        h = lc.hist[0]
        b = h.fn(lc.it - 1)
        if b is not TRUE: out.append(b)
    return out

# ------------------------------------------------------------------ invariant candidates
class Cand:
    __slots__ = ("fn", "label", "sfn")
    def __init__(self, fn, label, sfn=None): self.fn = fn; self.label = label; self.sfn = sfn

def _scalar(lv, v):
    """integer view of a loop variable's value"""
    if lv.kind == "p":
        if isinstance(v, Ptr): return v.off
        return None
    if isinstance(v, B): return b2i(v)
    return v if isinstance(v, Lin) else None

def _cand_at(lc, c, s, it):
    vals = {}
    for key, lv in lc.mods.items():
        if lv.mode != "gen": vals[key] = _raw(lv, it)
        else: vals[key] = lookup(s, lc.d, key)
    return c.fn(vals, it) if c.sfn is None else c.sfn(s, vals, it)

def _bounds(lc):
    """loop-invariant integers of the surrounding state usable as bounds"""
    S = lc.S0; out = []; seen = set()
    def add(x, nm):
        if isinstance(x, Lin) and lk(x) not in seen:
            seen.add(lk(x)); out.append((x, nm))
    f = S.frames[lc.d - 1]
    for k, v in f.locs.items():
        if ("loc", k) not in lc.mods:
            if isinstance(v, Lin): add(v, f.fn.srcname.get(k) or k)
            elif isinstance(v, Ptr) and isinstance(v.obj, int) and v.obj != 0: add(v.off, "off(%s)" % (f.fn.srcname.get(k) or k))
    used = set()
    for k, lv in lc.mods.items():
        if lv.kind == "p":
            for t in lv.targets:
                if isinstance(t, int) and t != 0: used.add(t)
    for oid, o in S.objs.items():
        if oid < 0 or not o.live: continue
        if o.kind == "cells" and o.born != "local":
            for off, (n, v) in o.cells.items():
                if isinstance(v, Lin) and ("cell", oid, off, n) not in lc.mods: add(v, "%s+%d" % (o.name, off))
        if o.kind == "plane" and (oid in used or True):
            add(o.size, "size(%s)" % o.name)
            for w in o.nul: add(w, "end(%s)" % o.name)
    k = [x for x in out if x[0].isconst()]
    if len(k) > 4: out = [x for x in out if not x[0].isconst()]     # flag constants and the like
    return out[:14]

def _candidates(lc):
    eng = lc.eng; out = []
    bs = _bounds(lc)
    items = list(lc.mods.items())
    def get(key):
        lv = lc.mods[key]
        return lambda vals: _scalar(lv, vals[key]) if lv.mode == "gen" else vals[key]
    for key, lv in items:
        if lv.kind not in ("i", "p", "b"): continue
        g = get(key); n = lv.name
        v0 = lv.v0
        if lv.kind == "b": continue
        if lv.kind == "p" and not (len(lv.targets) == 1 and isinstance(lv.targets[0], int) and lv.targets[0] != 0): continue
        s0 = _scalar(lv, v0) if v0 is not None else None
        if lv.mode == "gen" and s0 is not None:
            out.append(Cand(lambda vals, it, g=g, s=s0: _c(g(vals), lambda v: v >= s), "%s >= initial" % n))
            out.append(Cand(lambda vals, it, g=g, s=s0: _c(g(vals), lambda v: v <= s), "%s <= initial" % n))
            out.append(Cand(lambda vals, it, g=g, s=s0: _c(g(vals), lambda v: v <= s + it), "%s <= initial + iterations" % n))
            out.append(Cand(lambda vals, it, g=g, s=s0: _c(g(vals), lambda v: v >= s + it), "%s >= initial + iterations" % n))
        if lv.mode == "gen" and lv.kind == "i" and s0 is not None and eng.opts.get("loose_bits") == "zero":
            out.append(Cand(lambda vals, it, g=g, s=s0: _c(g(vals), lambda v: Or(it > 0, eq(v, s))), "%s = initial before the first iteration" % n))
        if lv.mode == "gen" and lv.kind == "i":
            out.append(Cand(lambda vals, it, g=g, h=1 << (lv.bits - 1): _c(g(vals), lambda v: v < h), "%s non-negative" % n))
        if lv.mode == "aff" and lv.coef.isconst() and lv.coef.c < 0:
            out.append(Cand(lambda vals, it, g=g: _c(g(vals), lambda v: v >= -1), "%s >= -1" % n))
            out.append(Cand(lambda vals, it, g=g: _c(g(vals), lambda v: v >= 0), "%s >= 0" % n))
        for b, bn in bs:
            up = not (lv.mode == "aff" and lv.coef.isconst() and lv.coef.c < 0)
            dn = not (lv.mode == "aff" and lv.coef.isconst() and lv.coef.c > 0)
            if up:
                out.append(Cand(lambda vals, it, g=g, b=b: _c(g(vals), lambda v: v <= b), "%s <= %s" % (n, bn)))
                out.append(Cand(lambda vals, it, g=g, b=b: _c(g(vals), lambda v: v < b), "%s < %s" % (n, bn)))
                if s0 is not None and not s0.isconst(): out.append(Cand(lambda vals, it, g=g, b=b: _c(g(vals), lambda v: Or(it <= 0, v <= b)), "%s <= %s after the first iteration" % (n, bn)))
            if dn:
                out.append(Cand(lambda vals, it, g=g, b=b: _c(g(vals), lambda v: v >= b), "%s >= %s" % (n, bn)))
    for a in range(len(items)):
        for b in range(len(items)):
            if a == b: continue
            ka, la = items[a]; kb, lb = items[b]
            if la.kind not in ("i", "p") or lb.kind not in ("i", "p"): continue
            if la.mode == "aff" and lb.mode == "aff": continue
            ga, gb = get(ka), get(kb)
            out.append(Cand(lambda vals, it, ga=ga, gb=gb: _c2(ga(vals), gb(vals), lambda x, y: x <= y), "%s <= %s" % (la.name, lb.name)))
    out += eng.spec_candidates(lc)
    return out

def _c(v, f): return None if v is None else f(v)
def _c2(a, b, f): return None if a is None or b is None else f(a, b)

def _notind(lc, backs, cands):
    eng = lc.eng; drop = set()
    for s in backs:
        todo = []
        for c in cands:
            if c in drop: continue
            b = _cand_at(lc, c, s, lc.it + 1)
            if b is None: drop.add(c)
            elif isinstance(b, Forall):
                if not _entails_all(eng, s, b): drop.add(c)
            elif b is not TRUE: todo.append((c, b))
        while todo:
            if time.time() > eng.deadline: raise Budget()
            r = eng.ctx.falsified(s.facts, [b for _, b in todo], eng.quick)
            if r is None or (r == [] and False):
                for c, b in todo:
                    if not eng.entails(s, b): drop.add(c)
                break
            if not r: break
            r = set(r)
            for k in r: drop.add(todo[k][0])
            todo = [x for k, x in enumerate(todo) if k not in r]
    return drop

def _skolem(s, f):
    ks = [fresh("sk") for _ in range(f.arity)]
    s = s.clone(); s.hints = list(s.hints) + ([ks[0]] if f.arity == 1 else [tuple(ks)])
    return s, f.fn(*ks)

def _entails_all(eng, s, f):
    s, b = _skolem(s, f)
    return b is TRUE or eng.entails(s, b) or eng.ctx.check(s.facts, [Not(b)], eng.quick * (4 if not getattr(f, "slow", False) else 14), s.hints) == "unsat"

def _houdini(lc, header, body, final=False):
    eng = lc.eng
    cands = _candidates(lc)
    lc.hist = []
    # initialisation
    init = []
    for c in cands:
        vals = {}
        for key, lv in lc.mods.items():
            vals[key] = lv.raw0 if lv.mode != "gen" else (lv.v0 if lv.v0 is not None else UNDEF)
        b = c.fn(vals, ZERO) if c.sfn is None else c.sfn(lc.S0, vals, ZERO)
        if b is None:
            if DBG and c.sfn is not None: print(lc.name, "not applicable:", c.label, flush=True)
            continue
        if isinstance(b, Forall):
            if _entails_all(eng, lc.S0, b): init.append(c)
            continue
        if eng.entails(lc.S0, b): init.append(c)
    lc.kept = init
    for rnd in range(12):
        H = _head(lc)
        backs, exits = eng.body_once(H, header, body)
        lc.backs = backs
        drop = _notind(lc, backs, lc.kept)
        if DBG:
            for c in drop: print(lc.name, "round", rnd, "drops", c.label, flush=True)
        if not drop: break
        lc.kept = [c for c in lc.kept if c not in drop]
    else:
        lc.kept = []
        H = _head(lc); lc.backs, _ = eng.body_once(H, header, body)
    # prune candidates that do not say anything new is not attempted; history for the next head
    _mk_hist(lc)
    if final:
        # with history available more candidates may be inductive: one more round from the initially true ones
        extra = [c for c in init if c not in lc.kept]
        if extra:
            base = lc.kept
            lc.kept = base + extra
            for rnd in range(8):
                H = _head(lc)
                backs, exits = eng.body_once(H, header, body)
                drop = _notind(lc, backs, [c for c in lc.kept if c not in base])
                if not drop: break
                lc.kept = [c for c in lc.kept if c not in drop]
            else: lc.kept = base

# ------------------------------------------------------------------ termination
def _variant(lc, H, backs):
    eng = lc.eng; it = lc.it; itid = it.t[0][0]
    amap0 = {itid: it + 1}
    cand = []
    seen = set()
    def collect(b):
        if b.kind == "le":
            if b.id not in seen: seen.add(b.id); cand.append(b.args.l)
        elif b.kind == "and":
            for y in b.args: collect(y)
        elif b.kind == "not" and b.args.kind == "eq":
            d = b.args.args.l
            for z in (d + 1, -d + 1):
                k = ("ne", lk(z))
                if k not in seen: seen.add(k); cand.append(z)
    for t in lc.kept_terms: collect(t)
    if backs:
        for f in backs[0].facts[lc.mark:]:
            if not isinstance(f, Forall): collect(f)
    def nextval(s, x):
        m = {itid: it + 1}
        ufs = {}
        for key, lv in lc.mods.items():
            if lv.mode != "gen": continue
            v = lookup(s, lc.d, key)
            if lv.kind == "i" and isinstance(v, Lin): ufs[lv.uf.name] = v
            elif lv.kind == "p" and isinstance(v, Ptr) and isinstance(v.obj, int):
                off = v.off
                if lv.unitw > 1: off = divc(off - lv.raw0, lv.unitw)
                ufs[lv.uf[0].name] = off
        def af(a, args):
            if a.kind == "app" and a.args[0] in ufs and a.args[1].l.same(it): return ufs[a.args[0]]
            return None
        return Subst(m, af).lin(x)
    ok = None
    for x in cand:
        if not any(i < lc.amark for i in x.deps): continue
        if any(i >= lc.amark for i in x.deps): continue
        good = True
        for s in backs:
            if not (eng.entails(s, x <= 0) and eng.entails(s, nextval(s, x) >= x + 1)): good = False; break
        if good: ok = x; break
    full = "%s: terminates" % lc.name
    if ok is not None:
        eng.prove(H, TRUE, full)
        eng.loopinfo[lc.name]["variant"] = repr(-ok)
    elif full in eng.opts.get("noterm", ()) or eng.opts.get("noterm_all"):
        eng.assumptions.add("termination not shown: %s" % lc.name)
    else:
        eng.prove(H, FALSE, full, "no decreasing bounded measure found") if False else eng.fail(H, full, "no decreasing bounded measure found")
