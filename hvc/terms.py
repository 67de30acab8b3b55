"""Hash-consed terms: linear integer forms over atoms, and boolean formulas over them.

Integers are mathematical; machine wrap-around is applied explicitly by the executor.
Atoms: variables, uninterpreted applications, if-then-else, div/mod by a constant, and products of
atoms (kept opaque, with monotonicity lemmas instantiated per query: see solver.py)."""
import z3

_atoms = []          # id -> Atom
_atom_key = {}

class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "deps", "z", "axioms", "name", "_ax")
    def __repr__(self):
        return atom_str(self)

def _mk_atom(kind, args, lo=None, hi=None, deps=(), name=None):
    key = (kind, args)
    a = _atom_key.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atoms); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi
    a.z = None; a.axioms = None; a.name = name; a._ax = None
    a.deps = frozenset(deps) | {a.id}
    _atoms.append(a); _atom_key[key] = a
    return a

def atom(i):
    return _atoms[i]

class Lin:
    __slots__ = ("c", "t", "_h", "_deps", "_z")
    def __init__(self, c, t):
        self.c = c; self.t = t; self._h = None; self._deps = None; self._z = None
    def key(self):
        return (self.c, self.t)
    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h
    def same(self, o):
        return self.c == o.c and self.t == o.t
    def isconst(self):
        return not self.t
    @property
    def deps(self):
        if self._deps is None:
            s = frozenset()
            for i, _ in self.t:
                s = s | _atoms[i].deps
            self._deps = s
        return self._deps
    def __add__(self, o):
        o = L(o)
        if not o.t: return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t: return Lin(self.c + o.c, o.t) if self.c else o
        d = dict(self.t)
        for i, k in o.t:
            v = d.get(i, 0) + k
            if v: d[i] = v
            else: d.pop(i, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def scale(self, k):
        if k == 0: return Lin(0, ())
        if k == 1: return self
        return Lin(self.c * k, tuple((i, v * k) for i, v in self.t))
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-L(o))
    def __rsub__(self, o): return L(o) + (-self)
    def __mul__(self, o):
        o = L(o)
        if not o.t: return self.scale(o.c)
        if not self.t: return o.scale(self.c)
        return _mul(self, o)
    __rmul__ = __mul__
    def __le__(self, o): return le(self, o)
    def __lt__(self, o): return le(self + 1, o)
    def __ge__(self, o): return le(o, self)
    def __gt__(self, o): return le(L(o) + 1, self)
    def __eq__(self, o):
        return eq(self, o)
    def __ne__(self, o): return Not(eq(self, o))
    def __bool__(self): raise TypeError("Lin used as bool")
    def __repr__(self): return lin_str(self)

def L(x):
    if isinstance(x, Lin): return x
    if isinstance(x, bool): return Lin(int(x), ())
    if isinstance(x, int): return Lin(x, ())
    raise TypeError("not Lin: %r" % (x,))

ZERO = Lin(0, ()); ONE = Lin(1, ())

class LinKey:
    """hashable wrapper comparing structurally"""
    __slots__ = ("l", "h")
    def __init__(self, l): self.l = l; self.h = hash(l)
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, LinKey) and self.l.same(o.l)
    def __repr__(self): return repr(self.l)

def lk(x): return LinKey(L(x))

def alin(a): return Lin(0, ((a.id, 1),))

_fresh = [0]
def var(name, lo=None, hi=None):
    a = _mk_atom("var", name, lo, hi, name=name)
    return alin(a)
def fresh(name, lo=None, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), lo, hi)

def reset_terms():
    _atoms.clear(); _atom_key.clear(); _bkey.clear(); _fresh[0] = 0; SITES.clear(); _gsites.clear()
    global TRUE, FALSE
    _zfun.clear()

class UF:
    """uninterpreted function Int^n -> Int, optionally range restricted"""
    __slots__ = ("name", "n", "lo", "hi")
    def __init__(self, name, n, lo=None, hi=None):
        self.name = name; self.n = n; self.lo = lo; self.hi = hi
    def __call__(self, *args):
        args = tuple(lk(a) for a in args)
        assert len(args) == self.n
        deps = frozenset().union(*[a.l.deps for a in args]) if args else ()
        return alin(_mk_atom("app", (self.name,) + args, self.lo, self.hi, deps, self.name))

def fresh_uf(name, n, lo=None, hi=None):
    _fresh[0] += 1
    return UF("%s!%d" % (name, _fresh[0]), n, lo, hi)

def rng(x):
    """interval of a Lin from static atom ranges (None = unbounded)"""
    x = L(x); lo = hi = x.c
    for i, k in x.t:
        a = _atoms[i]
        al, ah = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
        lo = None if (lo is None or al is None) else lo + k * al
        hi = None if (hi is None or ah is None) else hi + k * ah
        if lo is None and hi is None: break
    return lo, hi

def ite(c, a, b):
    a = L(a); b = L(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a.same(b): return a
    # ite over a common offset
    al, ah = rng(a); bl, bh = rng(b)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    return alin(_mk_atom("ite", (c, lk(a), lk(b)), lo, hi, c.deps | a.deps | b.deps))

def divc(x, k):
    """floor division by positive constant"""
    x = L(x); assert k > 0
    if k == 1: return x
    if not x.t: return L(x.c // k)
    # split exactly divisible part
    dv = tuple((i, v // k) for i, v in x.t if v % k == 0)
    rest = tuple((i, v) for i, v in x.t if v % k)
    if not rest:
        return Lin(x.c // k, dv)
    r = Lin(x.c % k, rest)
    base = Lin(x.c // k, dv)
    lo, hi = rng(r)
    if lo is not None and hi is not None and lo // k == hi // k:
        return base + (lo // k)
    # (y div m) div k
    if r.c == 0 and len(rest) == 1 and rest[0][1] == 1 and _atoms[rest[0][0]].kind == "div":
        a = _atoms[rest[0][0]]
        return base + divc(a.args[0].l, a.args[1] * k)
    a = _mk_atom("div", (lk(r), k), None if lo is None else lo // k, None if hi is None else hi // k, r.deps)
    return base + alin(a)

def modc(x, k):
    x = L(x)
    if k == 1: return ZERO
    if not x.t: return L(x.c % k)
    return x - divc(x, k).scale(k)

# product sites: atom id d -> list of (LinKey X, product Lin)
SITES = {}

def _mono(ids):
    ids = tuple(sorted(ids))
    nn = all(_atoms[i].lo is not None and _atoms[i].lo >= 0 for i in ids)
    hi = 1
    for i in ids:
        h = _atoms[i].hi
        hi = None if (hi is None or h is None or not nn) else hi * h
    deps = frozenset().union(*[_atoms[i].deps for i in ids])
    return _mk_atom("prod", ids, 0 if nn else None, hi, deps)

def _factors(i):
    a = _atoms[i]
    return a.args if a.kind == "prod" else (i,)

def _mulraw(x, y):
    d = {}
    c = x.c * y.c
    def add(i, k):
        v = d.get(i, 0) + k
        if v: d[i] = v
        else: d.pop(i, None)
    for i, k in x.t: add(i, k * y.c) if y.c else None
    for j, k in y.t: add(j, k * x.c) if x.c else None
    extra = None
    for i, k in x.t:
        for j, m in y.t:
            fs = _factors(i) + _factors(j)
            q = next((f for f in fs if _atoms[f].kind == "ite"), None)
            if q is None: add(_mono(fs).id, k * m); continue
            rest = list(fs); rest.remove(q)
            p = ONE
            for f in rest: p = p * alin(_atoms[f])
            cc, a, b = _atoms[q].args
            z = ite(cc, a.l * p, b.l * p).scale(k * m)
            extra = z if extra is None else extra + z
    r = Lin(c, tuple(sorted(d.items())))
    return r if extra is None else r + extra

def _mul(x, y):
    r = _mulraw(x, y)
    for a, b in ((x, y), (y, x)):
        # a * b where b is a single atom with coefficient 1
        if b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1:
            SITES.setdefault(b.t[0][0], {})[LinKey(a)] = r
        elif b.c == 0 and len(b.t) == 1 and b.t[0][1] > 1 and a.t:
            SITES.setdefault(b.t[0][0], {})[LinKey(a)] = _mulraw(a, Lin(0, ((b.t[0][0], 1),)))
    return r

_gsites = set()
def goal_sites(b):
    """register comparisons whose terms share a factor as product sites"""
    if b.id in _gsites: return
    _gsites.add(b.id)
    if b.kind in ("le", "eq"):
        x = b.args.l
        y = Lin(0, x.t)
        ds = None
        for i, k in x.t:
            a = _atoms[i]
            if a.kind == "prod": fs = set(a.args)
            elif a.kind == "ite": fs = {j for j in a.deps if _atoms[j].kind != "ite"} if any(_atoms[j].kind == "prod" for j in a.deps) else {i}
            else: fs = {i}
            ds = fs if ds is None else ds & fs
            if not ds: return
        if len(x.t) == 1 and _atoms[x.t[0][0]].kind != "prod": return
        for d in ds or ():
            if _atoms[d].kind == "prod": continue
            q = lin_div(y, d)
            if q is not None and q.t and not q.same(alin(_atoms[d])): SITES.setdefault(d, {})[LinKey(q)] = y
    elif b.kind in ("and", "or"):
        for z in b.args: goal_sites(z)
    elif b.kind == "not":
        goal_sites(b.args if isinstance(b.args, B) else b.args[0])

def lin_div(x, d):
    """quotient of a linear form by atom d when every term is a multiple of it"""
    if x.c: return None
    r = []
    for i, k in x.t:
        if i == d: r.append((None, k)); continue
        a = _atoms[i]
        if a.kind == "ite":
            u, v = lin_div(a.args[1].l, d), lin_div(a.args[2].l, d)
            if u is None or v is None: return None
            r.append((ite(a.args[0], u, v), k)); continue
        if a.kind != "prod" or d not in a.args: return None
        fs = list(a.args); fs.remove(d)
        r.append((fs, k))
    q = ZERO
    for fs, k in r:
        if isinstance(fs, Lin): q = q + fs.scale(k); continue
        p = ONE
        for f in fs or (): p = p * alin(_atoms[f])
        q = q + p.scale(k)
    return q

# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("kind", "args", "deps", "_z", "id")
    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)
    def __invert__(self): return Not(self)
    def __bool__(self):
        raise TypeError("B used as python bool: %s" % (self,))
    def __repr__(self): return b_str(self)

_bkey = {}
_bid = [0]
def _mk_b(kind, args, deps):
    key = (kind, args)
    b = _bkey.get(key)
    if b is None:
        b = B(); b.kind = kind; b.args = args; b.deps = deps; b._z = None
        _bid[0] += 1; b.id = _bid[0]
        _bkey[key] = b
    return b

TRUE = B(); TRUE.kind = "true"; TRUE.args = (); TRUE.deps = frozenset(); TRUE._z = None; TRUE.id = -1
FALSE = B(); FALSE.kind = "false"; FALSE.args = (); FALSE.deps = frozenset(); FALSE._z = None; FALSE.id = -2

def mkb(x): return TRUE if x else FALSE

def le(a, b):
    d = L(a) - L(b)             # d <= 0
    if not d.t: return mkb(d.c <= 0)
    lo, hi = rng(d)
    if hi is not None and hi <= 0: return TRUE
    if lo is not None and lo > 0: return FALSE
    g = 0
    from math import gcd
    for _, k in d.t: g = gcd(g, abs(k))
    if g > 1:
        # sum <= -c  ->  sum/g <= floor(-c/g)
        d = Lin(-((-d.c) // g), tuple((i, k // g) for i, k in d.t))
    r = _iteb(d, lambda v: le(v, 0))
    if r is not None: return r
    return _mk_b("le", lk(d), d.deps)

def _iteb(d, rel):
    """a relation on k * (c ? a : b) + d where one branch decides it"""
    if len(d.t) != 1: return None
    at = _atoms[d.t[0][0]]
    if at.kind != "ite": return None
    c, a, b = at.args; k = d.t[0][1]
    x = rel(a.l * k + d.c); y = rel(b.l * k + d.c)
    if x is TRUE: return Or(c, y)
    if x is FALSE: return And(Not(c), y)
    if y is TRUE: return Or(Not(c), x)
    if y is FALSE: return And(c, x)
    return None

def eq(a, b):
    if isinstance(a, B) or isinstance(b, B): return iff(a, b)
    d = L(a) - L(b)
    if not d.t: return mkb(d.c == 0)
    lo, hi = rng(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
    from math import gcd
    g = 0
    for _, k in d.t: g = gcd(g, abs(k))
    if d.c % g: return FALSE
    if d.t[0][1] < 0: g = -g
    if g != 1:
        d = Lin(d.c // g, tuple((i, k // g) for i, k in d.t))
    r = _iteb(d, lambda v: eq(v, 0))
    if r is not None: return r
    return _mk_b("eq", lk(d), d.deps)

def ne(a, b): return Not(eq(a, b))
def lt(a, b): return le(L(a) + 1, b)

def bvar(name):
    # boolean variable as 0/1 integer atom == 1
    return eq(var(name, 0, 1), 1)
def fresh_b(name):
    return eq(fresh(name, 0, 1), 1)

def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.kind == "not": return a.args
    if a.kind == "le":
        d = a.args.l            # not d<=0  ->  d>=1  ->  1-d<=0
        return le(L(1) - d, 0)
    return _mk_b("not", a, a.deps)

def And(*xs):
    out = []; seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return FALSE
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.kind == "and":
            for y in x.args:
                if y.id not in seen: seen.add(y.id); out.append(y)
        elif x.id not in seen:
            seen.add(x.id); out.append(x)
    for x in out:
        if Not(x).id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    deps = frozenset().union(*[x.deps for x in out])
    return _mk_b("and", tuple(out), deps)

def Or(*xs):
    out = []; seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)): x = Or(*x)
        if x is False: continue
        if x is True: return TRUE
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.kind == "or":
            for y in x.args:
                if y.id not in seen: seen.add(y.id); out.append(y)
        elif x.id not in seen:
            seen.add(x.id); out.append(x)
    for x in out:
        if Not(x).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    deps = frozenset().union(*[x.deps for x in out])
    return _mk_b("or", tuple(out), deps)

def Implies(a, b): return Or(Not(a), b)
def iff(a, b):
    if isinstance(a, bool): a = mkb(a)
    if isinstance(b, bool): b = mkb(b)
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if Not(a) is b: return FALSE
    if a.id > b.id: a, b = b, a
    return _mk_b("iff", (a, b), a.deps | b.deps)

def b2i(b):
    if b is TRUE: return ONE
    if b is FALSE: return ZERO
    # undo eq(var01,1)
    if b.kind == "eq":
        d = b.args.l
        if len(d.t) == 1:
            a = _atoms[d.t[0][0]]
            if a.lo == 0 and a.hi == 1 and d.t[0][1] == 1 and d.c == -1: return alin(a)
    return ite(b, 1, 0)

def i2b(x):
    """nonzero test"""
    x = L(x)
    if not x.t: return mkb(x.c != 0)
    if x.c == 0 and len(x.t) == 1:
        a = _atoms[x.t[0][0]]
        if a.kind == "ite":
            c, p, q = a.args
            if p.l.isconst() and q.l.isconst():
                return Or(And(c, mkb(p.l.c != 0)), And(Not(c), mkb(q.l.c != 0)))
        if a.lo == 0 and a.hi == 1 and x.t[0][1] == 1: return eq(x, 1)
    return ne(x, 0)

# ---------------------------------------------------------------- substitution
class Subst:
    """amap: atom id -> Lin; afun(atom) -> Lin or None handles further atoms (leaf rewriting)"""
    def __init__(self, amap, afun=None):
        self.amap = amap; self.afun = afun; self.ca = {}; self.cb = {}
        self.ids = frozenset(amap)
    def hit(self, deps):
        return self.afun is not None or not self.ids.isdisjoint(deps)
    def lin(self, x):
        if not self.hit(x.deps): return x
        r = Lin(x.c, ())
        for i, k in x.t:
            r = r + self.atom(i).scale(k)
        return r
    def atom(self, i):
        r = self.ca.get(i)
        if r is not None: return r
        r = self._atom(i); self.ca[i] = r
        return r
    def _atom(self, i):
        if i in self.amap: return self.amap[i]
        a = _atoms[i]
        if not self.hit(a.deps): return alin(a)
        k = a.kind
        if k == "app":
            args = tuple(self.lin(y.l) for y in a.args[1:])
            if self.afun is not None:
                z = self.afun(a, args)
                if z is not None: return z
            return UF(a.args[0], len(args), a.lo, a.hi)(*args)
        if k == "var":
            if self.afun is not None:
                z = self.afun(a, ())
                if z is not None: return z
            return alin(a)
        if k == "ite": return ite(self.b(a.args[0]), self.lin(a.args[1].l), self.lin(a.args[2].l))
        if k == "div": return divc(self.lin(a.args[0].l), a.args[1])
        if k == "prod":
            r = ONE
            for j in a.args: r = r * self.atom(j)
            return r
        raise Exception(k)
    def b(self, x):
        if not self.hit(x.deps): return x
        r = self.cb.get(x.id)
        if r is not None: return r
        k = x.kind
        if k == "le": r = le(self.lin(x.args.l), 0)
        elif k == "eq": r = eq(self.lin(x.args.l), 0)
        elif k == "not": r = Not(self.b(x.args))
        elif k == "and": r = And(*[self.b(y) for y in x.args])
        elif k == "or": r = Or(*[self.b(y) for y in x.args])
        elif k == "iff": r = iff(self.b(x.args[0]), self.b(x.args[1]))
        else: r = x
        self.cb[x.id] = r
        return r

# ---------------------------------------------------------------- z3
_zfun = {}
def zfun(name, n):
    f = _zfun.get((name, n))
    if f is None:
        f = z3.Function(name, *([z3.IntSort()] * (n + 1)))
        _zfun[(name, n)] = f
    return f

def zatom(a):
    if a.z is None:
        k = a.kind
        if k == "var": a.z = z3.Int(a.args)
        elif k == "app": a.z = zfun(a.args[0], len(a.args) - 1)(*[zlin(x.l) for x in a.args[1:]])
        elif k == "ite": a.z = z3.If(zb(a.args[0]), zlin(a.args[1].l), zlin(a.args[2].l))
        elif k == "div": a.z = zlin(a.args[0].l) / a.args[1]
        elif k == "prod": a.z = z3.Int("prod_" + "_".join(map(str, a.args)))
        else: raise Exception(k)
    return a.z

def zlin(x):
    if x._z is None:
        ts = []
        for i, k in x.t:
            z = zatom(_atoms[i])
            ts.append(z if k == 1 else z3.IntVal(k) * z)
        if x.c or not ts: ts.append(z3.IntVal(x.c))
        x._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return x._z

def zb(b):
    if b._z is None:
        k = b.kind
        if k == "true": b._z = z3.BoolVal(True)
        elif k == "false": b._z = z3.BoolVal(False)
        elif k in ("le", "eq"):
            d = b.args.l
            pos = [(i, c) for i, c in d.t if c > 0]; neg = [(i, -c) for i, c in d.t if c < 0]
            l = zlin(Lin(max(d.c, 0), tuple(pos))); r = zlin(Lin(max(-d.c, 0), tuple(neg)))
            b._z = (l <= r) if k == "le" else (l == r)
        elif k == "not": b._z = z3.Not(zb(b.args))
        elif k == "and": b._z = z3.And([zb(x) for x in b.args])
        elif k == "or": b._z = z3.Or([zb(x) for x in b.args])
        elif k == "iff": b._z = zb(b.args[0]) == zb(b.args[1])
        else: raise Exception(k)
    return b._z

# ---------------------------------------------------------------- printing
def atom_str(a, depth=0):
    if depth > 6: return "..."
    k = a.kind
    if k == "var": return str(a.args)
    if k == "app": return "%s(%s)" % (a.args[0], ",".join(lin_str(x.l, depth + 1) for x in a.args[1:]))
    if k == "ite": return "(%s ? %s : %s)" % (b_str(a.args[0], depth + 1), lin_str(a.args[1].l, depth + 1), lin_str(a.args[2].l, depth + 1))
    if k == "div": return "(%s)/%d" % (lin_str(a.args[0].l, depth + 1), a.args[1])
    if k == "prod": return "*".join(atom_str(_atoms[i], depth + 1) for i in a.args)
    return "?"
def lin_str(x, depth=0):
    s = []
    for i, k in x.t:
        n = atom_str(_atoms[i], depth)
        s.append(n if k == 1 else "%d*%s" % (k, n))
    if x.c or not s: s.append(str(x.c) if abs(x.c) < 1 << 31 else hex(x.c))
    return " + ".join(s)
def b_str(b, depth=0):
    if depth > 6: return "..."
    k = b.kind
    if k in ("true", "false"): return k
    if k in ("le", "eq"):
        d = b.args.l
        pos = Lin(max(d.c, 0), tuple((i, c) for i, c in d.t if c > 0))
        neg = Lin(max(-d.c, 0), tuple((i, -c) for i, c in d.t if c < 0))
        return "%s %s %s" % (lin_str(pos, depth), "<=" if k == "le" else "==", lin_str(neg, depth))
    if k == "not": return "!(%s)" % b_str(b.args, depth + 1)
    if k == "iff": return "(%s <-> %s)" % (b_str(b.args[0], depth + 1), b_str(b.args[1], depth + 1))
    return "(" + (" & " if k == "and" else " | ").join(b_str(x, depth + 1) for x in b.args) + ")"
