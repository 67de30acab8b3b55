"""Quantified facts built from terms, with triggers derived from the terms."""
from . import terms as T
from .terms import *
from .solver import Forall

def apps_in(x, out, seen):
    """app atoms occurring in a Lin or B"""
    if isinstance(x, Lin):
        for i, _ in x.t: _apps_atom(i, out, seen)
    elif isinstance(x, B):
        if x.id in seen: return
        seen.add(x.id)
        if x.kind in ("le", "eq"): apps_in(x.args.l, out, seen)
        elif x.kind == "not": apps_in(x.args, out, seen)
        elif x.kind in ("and", "or", "iff"):
            for y in x.args: apps_in(y, out, seen)

def _apps_atom(i, out, seen):
    if ("a", i) in seen: return
    seen.add(("a", i))
    a = T.atom(i)
    if a.kind == "app":
        out.append(a)
        for y in a.args[1:]: apps_in(y.l, out, seen)
    elif a.kind == "ite":
        apps_in(a.args[0], out, seen); apps_in(a.args[1].l, out, seen); apps_in(a.args[2].l, out, seen)
    elif a.kind == "div": apps_in(a.args[0].l, out, seen)
    elif a.kind == "prod":
        for j in a.args: _apps_atom(j, out, seen)

def atoms_in(x):
    """all atom ids (deps)"""
    return x.deps

def solve_for(lin, kid):
    """lin = c*K + rest with |c| == 1 and rest free of K: returns fn(value) -> K"""
    c = 0
    for i, k in lin.t:
        if i == kid: c = k
        elif kid in T.atom(i).deps and T.atom(i).kind != "prod": return None
    if c and any(i != kid and kid in T.atom(i).deps for i, _ in lin.t): return None
    if c == 0: return _solve_prod(lin, kid)
    if c not in (1, -1): return None
    rest = lin - alin(T.atom(kid)).scale(c)
    if c == 1: return lambda v: v - rest
    return lambda v: rest - v

def _solve_prod(lin, kid):
    """lin = d*K + rest for one symbolic factor d: K is recovered from values that are such a multiple"""
    part = [(i, k) for i, k in lin.t if kid in T.atom(i).deps]
    if len(part) != 1 or part[0][1] not in (1, -1): return None
    i, k = part[0]; a = T.atom(i)
    fs = list(a.args)
    if a.kind != "prod" or fs.count(kid) != 1: return None
    fs.remove(kid)
    if len(fs) != 1 or kid in T.atom(fs[0]).deps: return None
    d = fs[0]; rest = lin - alin(a).scale(k)
    def f(v):
        x = v - rest if k == 1 else rest - v
        return T.lin_div(x, d)
    return f

def triggers(term, kid, skip=()):
    out = []; seen = set(); apps = []
    apps_in(term, apps, seen)
    res = []; have = set()
    for a in apps:
        if a.args[0] in skip or a.args[0].startswith("h!"): continue
        for p, y in enumerate(a.args[1:]):
            if kid not in y.l.deps: continue
            f = solve_for(y.l, kid)
            if f is None: continue
            key = (a.args[0], p, lk(y.l))
            if key in have: continue
            have.add(key)
            def inv(*args, p=p, f=f):
                x = f(args[p])
                return None if x is None else (x,)
            res.append((a.args[0], inv))
            break
    # a term that compares texts is only made where such a comparison occurs, not at every character read
    cmp = [x for x in res if x[0].startswith(("strncmp#", "diff_strncmp#"))]
    return cmp or res

def forall(body, label="", trig=True, skip=()):
    """forall K. body(K)"""
    K = fresh("K"); kid = K.t[0][0]
    term = body(K)
    if term is TRUE: return TRUE
    trigs = triggers(term, kid, skip) if trig else []
    return Forall(trigs, lambda k: Subst({kid: L(k)}).b(term), label)

def forall2(body, label=""):
    K = fresh("K"); J = fresh("J")
    term = body(K, J)
    ids = (K.t[0][0], J.t[0][0])
    return Forall([], lambda k, j: Subst({ids[0]: L(k), ids[1]: L(j)}).b(term), label, 2)
