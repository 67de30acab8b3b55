"""Incremental query context over z3: facts are a path's assumption list; product lemmas, range axioms
and quantified facts are instantiated for the atoms that occur."""
import time, z3
from . import terms as T
from .terms import *

class Forall:
    """forall args. fn(*args). Instantiated at hint terms and at trigger occurrences: trigs is a list of
    (UF name, inv) where inv maps the occurrence's arguments to an argument tuple of fn (or None)."""
    _all = []
    def __init__(self, trigs, fn, label="", arity=1):
        if isinstance(trigs, str): trigs = [(trigs, lambda *a: a)]
        self.trigs = list(trigs or ())
        self.names = {}
        for n, inv in self.trigs: self.names.setdefault(n, []).append(inv)
        self.fn = fn; self.label = label; self.arity = arity
        self.id = len(Forall._all); Forall._all.append(self)
    kind = "forall"
    def __repr__(self): return "Forall(%s)" % self.label

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unknown = 0; self.maxt = 0.0

class Ctx:
    def __init__(self, timeout=4000):
        self.s = z3.SimpleSolver()
        self.s.set("random_seed", 1)
        self.stack = []            # facts / foralls pushed
        self.levels = []           # per level: (atoms added, lemma keys added, apps added, foralls added)
        self.known = {}            # atom id -> True
        self.lem = set()
        self.apps = {}             # ufname -> list of atoms
        self.foralls = []
        self.timeout = timeout
        self.stats = Stats()
        self.inst = set()
        self.cache = {}; self.axdepth = 0

    # -- level management
    def _push(self):
        self.s.push(); self.levels.append(([], [], [], 0, []))
    def _pop(self):
        self.s.pop()
        a, l, ap, nf, ins = self.levels.pop()
        for i in a: del self.known[i]
        for k in l: self.lem.discard(k)
        for n in reversed(ap): self.apps[n].pop()
        if nf:
            del self.foralls[-nf:]
        for k in ins: self.inst.discard(k)

    def sync(self, facts):
        n = 0
        st = self.stack; m = min(len(st), len(facts))
        while n < m and st[n] is facts[n]: n += 1
        while len(st) > n:
            self._pop(); st.pop()
        for f in facts[n:]:
            self._push(); st.append(f)
            if isinstance(f, Forall):
                self.foralls.append(f)
                self._bump()
                self._inst_forall(f)
            else:
                self._add(f)

    def _bump(self):
        a, l, ap, nf, ins = self.levels[-1]
        self.levels[-1] = (a, l, ap, nf + 1, ins)

    def _add(self, b, depth=0):
        self._atoms(b.deps, depth)
        self.s.add(zb(b))

    def _atoms(self, deps, depth=0):
        new = [i for i in deps if i not in self.known]
        if not new: return
        lev = self.levels[-1]
        newapps = []
        newd = False
        for i in new:
            if i in self.known: continue
            self.known[i] = True; lev[0].append(i)
            a = T.atom(i); z = zatom(a)
            if a.lo is not None: self.s.add(z >= a.lo)
            if a.hi is not None: self.s.add(z <= a.hi)
            if a.kind == "prod": self._prod(a)
            elif a.kind == "app":
                self.apps.setdefault(a.args[0], []).append(a); lev[2].append(a.args[0])
                newapps.append(a)
                g = AXGEN.get(a.args[0])
                if g is not None:
                    for x in g(a, *[y.l for y in a.args[1:]]):
                        if isinstance(x, Forall):
                            self.foralls.append(x); self._bump()
                            if self.axdepth < 4:          # axioms of terms introduced by instances of axioms ...
                                self.axdepth += 1
                                try: self._inst_forall(x)
                                finally: self.axdepth -= 1
                        else: self._add(x, depth)
                if a.args[0] == "udiv": self._udiv(a)
            ax = AXIOMS.get(i)
            if ax:
                for x in ax: self._add(x, depth)
        self._sites(set(new))
        if depth < 3:
            for a in newapps:
                for f in list(self.foralls):
                    for inv in f.names.get(a.args[0], ()):
                        self._trig(f, inv, a, depth + 1)

    def _trig(self, f, inv, a, depth):
        args = inv(*[x.l for x in a.args[1:]])
        if args is not None: self._inst(f, tuple(args), depth)

    def _inst_forall(self, f):
        for name, invs in f.names.items():
            for a in list(self.apps.get(name, ())):
                for inv in invs: self._trig(f, inv, a, 1)

    def _inst(self, f, args, depth):
        k = (f.id,) + tuple(lk(x) for x in args)
        if k in self.inst: return
        self.inst.add(k); self.levels[-1][4].append(k)
        b = f.fn(*args)
        if b is None or b is TRUE: return
        self._add(b, depth)

    def _udiv(self, a):
        """quotients by the same divisor whose dividends differ (or add up) by a multiple of it"""
        x, y = a.args[1].l, a.args[2].l
        if len(y.t) != 1 or y.t[0][1] != 1 or y.c: return
        d = y.t[0][0]; q = alin(a)
        m = T.lin_div(x, d)
        if m is not None: self.s.add(z3.Implies(zb(y > 0), zb(eq(q, m))))
        for b in self.apps["udiv"][-8:]:
            if b is a or not b.args[2].l.same(y): continue
            w = b.args[1].l; p = alin(b)
            m = T.lin_div(x - w, d)
            if m is not None: self._add(Implies(y > 0, eq(q - p, m)), 3)
            m = T.lin_div(x + w + 1, d)
            if m is not None: self._add(Implies(y > 0, eq(q + p + 1, m)), 3)

    def falsified(self, facts, cands, timeout=None, hints=()):
        """indices of candidates false in some model of the facts; [] when all are entailed; None when unknown"""
        self.sync(facts); self._push()
        try:
            self._add(Or(*[Not(c) for c in cands]))
            for h in hints:
                h = h if isinstance(h, tuple) else (h,)
                for f in list(self.foralls):
                    if f.arity == len(h): self._inst(f, h, 2)
            self.s.set("timeout", timeout or self.timeout)
            t = time.time(); r = str(self.s.check()); dt = time.time() - t
            self.stats.queries += 1; self.stats.time += dt; self.stats.maxt = max(self.stats.maxt, dt)
            if r == "unsat": return []
            if r != "sat": self.stats.unknown += 1; return None
            m = self.s.model()
            return [k for k, c in enumerate(cands) if z3.is_false(m.eval(zb(c), model_completion=True))]
        finally: self._pop()

    def _prod(self, a):
        fs = [T.atom(i) for i in a.args]
        z = zatom(a)
        if len(fs) == 2 and all(f.lo is not None and f.lo >= 0 for f in fs):
            x, y = zatom(fs[0]), zatom(fs[1])
            self.s.add(z3.Implies(x == 0, z == 0), z3.Implies(y == 0, z == 0),
                       z3.Implies(x == 1, z == y), z3.Implies(y == 1, z == x),
                       z3.Implies(z3.And(x >= 1, y >= 1), z3.And(z >= x, z >= y, z >= x + y - 1)))
            if fs[0] is fs[1]: return
        elif len(fs) == 2:
            x, y = zatom(fs[0]), zatom(fs[1])
            self.s.add(z3.Implies(x == 0, z == 0), z3.Implies(y == 0, z == 0),
                       z3.Implies(z3.And(x >= 0, y >= 0), z >= 0))
        else:
            for f in fs: self.s.add(z3.Implies(zatom(f) == 0, z == 0))

    def _sites(self, new):
        lev = self.levels[-1]
        kn = self.known
        for d, sites in T.SITES.items():
            if d not in kn: continue
            act = []
            fresh_any = d in new
            for X, P in sites.items():
                if X.l.deps <= kn.keys() and all(i in kn for i, _ in P.t):
                    act.append((X.l, P))
            if len(act) < 1: continue
            dz = zatom(T.atom(d)); da = T.atom(d)
            if da.lo is None or da.lo < 0: continue
            dl = alin(da)
            for (X, P) in act:
                k = (d, lk(X))
                if k in self.lem: continue
                self.lem.add(k); lev[1].append(k)
                # X >= 1 -> P >= d ; X >= 0 -> P >= 0 ; X<=0 -> P<=0 ; X == 1 -> P == d
                self.s.add(z3.Implies(zb(X >= 0), zb(P >= 0)), z3.Implies(zb(X >= 1), zb(P >= dl)),
                           z3.Implies(zb(X <= 0), zb(P <= 0)), z3.Implies(zb(X <= -1), zb(P + dl <= 0)))
            if len(act) > 40: act = act[:40]
            for i in range(len(act)):
                for j in range(i):
                    X, P = act[i]; Y, Q = act[j]
                    k = (d, lk(X), lk(Y))
                    if k in self.lem: continue
                    self.lem.add(k); lev[1].append(k)
                    D = X - Y
                    if D.isconst(): continue
                    self.s.add(z3.Implies(zb(D <= 0), zb(P <= Q)), z3.Implies(zb(D <= -1), zb(P + dl <= Q)),
                               z3.Implies(zb(D >= 0), zb(P >= Q)), z3.Implies(zb(D >= 1), zb(P >= Q + dl)))

    # -- queries
    def check(self, facts, extra, timeout=None, hints=(), want_model=False):
        """satisfiability of facts + extra(list of B). returns 'sat'/'unsat'/'unknown'"""
        for e in extra:
            if e is FALSE: return "unsat"
        self.sync(facts)
        self._push()
        try:
            for e in extra: T.goal_sites(e); self._add(e)
            for h in hints:
                h = h if isinstance(h, tuple) else (h,)
                for f in list(self.foralls):
                    if f.arity == len(h): self._inst(f, h, 2)
            self.s.set("timeout", timeout or self.timeout)
            t = time.time()
            r = str(self.s.check())
            dt = time.time() - t
            self.stats.queries += 1; self.stats.time += dt; self.stats.maxt = max(self.stats.maxt, dt)
            if r == "unknown": self.stats.unknown += 1
            self.model = None
            if r == "sat" and want_model:
                self.model = self._model()
            return r
        finally:
            self._pop()

    def _model(self):
        m = self.s.model(); out = {}
        for i in self.known:
            a = T.atom(i)
            if a.kind in ("var", "app"):
                try:
                    v = m.eval(zatom(a), model_completion=True)
                    out[T.atom_str(a)] = v.as_long()
                except Exception: pass
        return out

    def entails(self, facts, goal, timeout=None, hints=()):
        if goal is TRUE: return True
        if goal is FALSE:
            return self.check(facts, [], timeout) == "unsat"
        return self.check(facts, [Not(goal)], timeout, hints) == "unsat"

# definitional axioms attached to atoms: atom id -> [B]
AXIOMS = {}
# definitional axioms of a function symbol: UF name -> fn(atom, *args) -> [B or Forall]
AXGEN = {}
def axiom(lin, *bs):
    """attach facts that hold whenever this atom occurs"""
    (i, k), = lin.t
    AXIOMS.setdefault(i, []).extend(bs)
