"""Symbolic executor / verification-condition generator over LLVM IR."""
import sys, time
from . import terms as T
from .terms import *
from .solver import Ctx, Forall, AXIOMS, AXGEN, axiom
from . import ir as IR

M64 = 1 << 64
MAXOBJ = 1 << 62            # no object is larger than this (PTRDIFF_MAX is 2^63-1)

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class PathEnd(Exception): pass
class Budget(Exception): pass

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return "&%r+%r" % (self.obj, self.off)
class FamRef:
    """one object of a family of distinct objects, selected by an index term"""
    __slots__ = ("fam", "idx")
    def __init__(self, fam, idx): self.fam = fam; self.idx = L(idx)
    def __repr__(self): return "%s[%r]" % (self.fam, self.idx)
class PIte:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return "(%r?%r:%r)" % (self.c, self.a, self.b)
class Flt:
    __slots__ = ("bits", "w")
    def __init__(self, bits, w): self.bits = bits; self.w = w
class Agg:
    __slots__ = ("es", "ty")
    def __init__(self, es, ty=None): self.es = es; self.ty = ty
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
NULLP = Ptr(0, ZERO)

def pite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Ptr) and isinstance(b, Ptr) and same_obj(a.obj, b.obj):
        if a.off.same(b.off): return a
        return Ptr(a.obj, ite(c, a.off, b.off))
    return PIte(c, a, b)

def same_obj(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return a.fam == b.fam and a.idx.same(b.idx)

def vite(c, a, b):
    if a is b: return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Lin) and a.isconst() and a.c == 0: a = NULLP
            elif isinstance(b, Lin) and b.isconst() and b.c == 0: b = NULLP
            else: raise Unsupported("mixing pointer and integer values")
        return pite(c, a, b)
    if isinstance(a, B): return Or(And(c, a), And(Not(c), b))
    if isinstance(a, Flt): return Flt(ite(c, a.bits, b.bits), a.w)
    return ite(c, a, b)

# ------------------------------------------------------------------ memory contents
class Base:
    __slots__ = ("fn", "tag")
    def __init__(self, fn, tag=""): self.fn = fn; self.tag = tag
class PtW:
    """n consecutive units at coords (last coordinate = offset) hold value val"""
    __slots__ = ("prev", "co", "n", "val")
    def __init__(self, prev, co, n, val): self.prev = prev; self.co = co; self.n = n; self.val = val
class RngW:
    """units lo <= off < hi (fam index fixed by co prefix) hold fn(*coords)"""
    __slots__ = ("prev", "pre", "lo", "hi", "fn", "tag")
    def __init__(self, prev, pre, lo, hi, fn, tag=""): self.prev = prev; self.pre = pre; self.lo = L(lo); self.hi = L(hi); self.fn = fn; self.tag = tag

class Obj:
    """memory object. kind: 'cells' (constant offsets), 'plane' (unit array), 'lazy' (not yet shaped)"""
    __slots__ = ("id", "name", "size", "live", "kind", "cells", "chain", "w", "vt", "heap", "zero", "ro", "born", "acct", "nul", "ext", "dyn", "sub")
    def __init__(self, id, name, size, kind, heap=False):
        self.id = id; self.name = name; self.size = L(size); self.live = True; self.kind = kind
        self.cells = {}; self.chain = None; self.w = 1; self.vt = "i"; self.heap = heap; self.zero = False
        self.ro = False; self.born = "local"; self.acct = False; self.nul = (); self.ext = None; self.dyn = False; self.sub = ()
    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__: setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        return o

class Fam:
    """family of objects fam[idx]; fields: name -> chain (struct families) or one byte plane"""
    __slots__ = ("name", "live", "kind", "chain", "w", "vt", "heap", "fields", "sizefn", "nul", "born")
    def __init__(self, name, sizefn, kind="plane"):
        self.name = name; self.sizefn = sizefn; self.kind = kind; self.live = Base(lambda i: ONE, "live"); self.chain = None
        self.w = 1; self.vt = "i"; self.heap = True; self.fields = {}; self.nul = None; self.born = "entry"
    def copy(self):
        f = Fam.__new__(Fam)
        for s in Fam.__slots__: setattr(f, s, getattr(self, s))
        f.fields = dict(self.fields)
        return f

class Frame:
    __slots__ = ("fn", "mod", "regs", "locs", "blk", "prev", "ip", "loops", "dst", "site", "allocas", "va", "retty")
    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__: setattr(f, s, getattr(self, s))
        f.regs = dict(self.regs); f.locs = dict(self.locs); f.loops = list(self.loops); f.allocas = list(self.allocas)
        return f

class LoopRec:
    __slots__ = ("key", "header", "body", "it", "entry", "vars", "invs", "mode", "spec", "S", "aff", "mem", "hint", "count", "variant")

class State:
    __slots__ = ("facts", "objs", "fams", "frames", "nextid", "trace", "pc", "choices", "cpos", "dead", "log", "hints", "writes", "tag", "freed")
    def clone(self):
        s = State.__new__(State)
        s.facts = list(self.facts); s.objs = dict(self.objs); s.fams = dict(self.fams)
        s.frames = [f.copy() for f in self.frames]; s.nextid = self.nextid; s.trace = self.trace
        s.choices = self.choices; s.cpos = self.cpos; s.log = self.log; s.hints = list(self.hints)
        s.writes = self.writes; s.tag = self.tag; s.pc = self.pc; s.dead = self.dead; s.freed = self.freed
        return s

def new_state():
    s = State.__new__(State)
    s.facts = []; s.objs = {}; s.fams = {}; s.frames = []; s.nextid = 1; s.trace = (); s.choices = (); s.cpos = 0
    s.log = None; s.hints = []; s.writes = None; s.tag = ""; s.pc = None; s.dead = False; s.freed = ()
    return s

class Oblig:
    __slots__ = ("name", "status", "time", "detail", "model", "line")
    def __init__(self, name): self.name = name; self.status = "proved"; self.time = 0.0; self.detail = None; self.model = None; self.line = 0

RAW = {}     # atom id of a wrapped result -> raw mathematical Lin

class Engine:
    def __init__(self, prog, contracts, opts=None):
        self.prog = prog; self.contracts = contracts; self.opts = opts or {}
        self.ctx = Ctx(timeout=self.opts.get("timeout", 8000))
        self.quick = self.opts.get("quick_ms", 1500)
        self.obl = {}; self.work = []; self.dry = 0; self.fname = "?"
        self.cache = {}; self.paths = 0; self.returns = 0; self.loopcache = {}
        self.assumptions = set(); self.used_contracts = set(); self.inlined = set()
        self.deadline = time.time() + self.opts.get("budget", 600)
        self.steps = 0; self.loopinfo = {}; self.bounded = set(); self.case = ""
        self.wrapneg = True
        self.max_fail = self.opts.get("max_fail", 3)

    # ---------------------------------------------------------------- logic helpers
    guess = {}
    def decide(self, st, b, timeout=None):
        """True / False / None"""
        if b is TRUE: return True
        if b is FALSE: return False
        k = (b.id, len(st.facts), id(st.facts[-1]) if st.facts else 0, tuple(id(f) for f in st.facts[-3:]))
        fk = tuple(id(f) for f in st.facts)
        key = (b.id, fk)
        r = self.cache.get(key, 0)
        if r != 0: return r
        if time.time() > self.deadline: raise Budget()
        r = None
        if self.ctx.check(st.facts, [Not(b)], timeout or self.quick) == "unsat": r = True
        elif self.ctx.check(st.facts, [b], timeout or self.quick) == "unsat": r = False
        self.cache[key] = r
        self._keep.append(st.facts[-1] if st.facts else None)
        return r
    _keep = []

    def entails(self, st, b, timeout=None):
        if b is TRUE: return True
        if b is FALSE: return False
        fk = tuple(id(f) for f in st.facts)
        key = ("e", b.id, fk)
        r = self.cache.get(key)
        if r is None:
            if time.time() > self.deadline: raise Budget()
            r = self.ctx.check(st.facts, [Not(b)], timeout or self.quick) == "unsat"
            self.cache[key] = r
        return r

    def assume(self, st, b):
        if b is TRUE: return
        if b is FALSE: raise Infeasible()
        if not isinstance(b, Forall) and b.kind == "and":
            for x in b.args: self.assume(st, x)
            return
        st.facts.append(b)

    def feasible(self, st, b=TRUE):
        if b is FALSE: return False
        return self.ctx.check(st.facts, [b] if b is not TRUE else [], self.quick) != "unsat"

    def prove(self, st, b, name, detail=None):
        """an obligation"""
        if self.dry:
            if b is not TRUE:
                if b is FALSE: raise Infeasible()
                self.assume(st, b)
            return True
        full = "%s: %s" % (self.fname, name)
        o = self.obl.get(full)
        if o is None:
            o = self.obl[full] = Oblig(full); o.line = self.curline(st)
        if b is TRUE: return True
        if time.time() > self.deadline: raise Budget()
        t = time.time()
        ok = self.entails(st, b) or self._prove_hard(st, b)
        o.time += time.time() - t
        if not ok:
            r = self.ctx.check(st.facts, [Not(b)], self.ctx.timeout, st.hints, want_model=True)
            if r == "unsat": ok = True
            else:
                if o.status == "proved":
                    o.status = "failed" if r == "sat" else "unknown"
                    o.detail = "goal: %s\n%s" % (T.b_str(b), detail or "")
                    o.model = self.ctx.model
                if r == "sat": o.status = "failed"
                nf = sum(1 for x in self.obl.values() if x.status != "proved")
                if nf >= self.max_fail: raise Budget()
        if b is FALSE: raise Infeasible()
        self.assume(st, b)
        return ok

    def _prove_hard(self, st, b):
        # split conjunctions
        if b.kind == "and":
            return all(self.entails(st, x) or self._prove_hard(st, x) for x in b.args)
        if self.ctx.check(st.facts, [Not(b)], self.ctx.timeout, st.hints) == "unsat": return True
        return self._cases(st, b, 0)

    def _cases(self, st, b, depth):
        """split on the condition of an if-then-else inside the goal"""
        if depth > 5 or time.time() > self.deadline: return False
        best = None
        for i in b.deps:
            a = T.atom(i)
            if a.kind == "ite":
                inner = any(T.atom(j).kind == "ite" for j in a.args[0].deps)
                r = (inner, len(a.deps), i)
                if best is None or r < best[0]: best = (r, a)
        if best is None: return False
        a = best[1]; c = a.args[0]
        for cond, val in ((c, a.args[1].l), (Not(c), a.args[2].l)):
            if self.ctx.check(st.facts, [cond], self.quick) == "unsat": continue
            g = Subst({a.id: val}).b(b)
            if g is TRUE: continue
            s = st.clone()
            try: self.assume(s, cond)
            except Infeasible: continue
            if self.ctx.check(s.facts, [Not(g)], self.ctx.timeout, s.hints) == "unsat": continue
            if not self._cases(s, g, depth + 1): return False
        return True

    def curline(self, st):
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.blk]
            if f.ip < len(ins): return ins[f.ip].line
        return 0

    # ---------------------------------------------------------------- choice points
    def choose(self, st, opts):
        """opts: list of (payload, condition). forks the current instruction; returns payload"""
        if st.cpos < len(st.choices):
            i = st.choices[st.cpos]; st.cpos += 1
            p, c = opts[i]
            self.assume(st, c)
            return p
        feas = []
        for i, (p, c) in enumerate(opts):
            if c is FALSE: continue
            if c is TRUE or self.feasible(st, c): feas.append(i)
        if not feas: raise Infeasible()
        base = st.choices[:st.cpos]
        for i in reversed(feas[1:]):
            s2 = self.snap.clone()
            s2.choices = base + (i,); s2.cpos = 0
            self.work.append(s2)
        st.choices = base + (feas[0],); st.cpos += 1
        p, c = opts[feas[0]]
        self.assume(st, c)
        return p

    def branch(self, st, b):
        if b is TRUE: return True
        if b is FALSE: return False
        return self.choose(st, [(True, b), (False, Not(b))])

    # ---------------------------------------------------------------- machine arithmetic
    def fits(self, st, s, bits):
        """representation of integer s modulo 2^bits, in [0, 2^bits)"""
        M = 1 << bits
        lo, hi = rng(s)
        lok = lo is not None and lo >= 0; hik = hi is not None and hi < M
        if lok and hik: return s
        if not lok: lok = self.entails(st, s >= 0)
        if not hik: hik = self.entails(st, s < M)
        if lok and hik: return s
        if not s.t: return L(s.c % M)
        # one wrap up or down?
        if lok:
            if self.entails(st, And(s >= M, s < 2 * M)): return s - M
            if (hi is not None and hi < 2 * M) or self.entails(st, s < 2 * M):
                r = ite(s < M, s, s - M)
                RAW[r.t[0][0]] = s
                return r
        elif hik:
            if self.entails(st, And(s < 0, s >= -M)): return s + M
            if (lo is not None and lo >= -M) or self.entails(st, s >= -M):
                r = ite(s >= 0, s, s + M)
                RAW[r.t[0][0]] = s
                return r
        r = modc(s, M)
        if not r.isconst() and len(r.t): RAW.setdefault(("mod", LinKey(r)), s)
        return r

    def signed(self, st, x, bits):
        M = 1 << bits; H = M >> 1
        lo, hi = rng(x)
        if hi is not None and hi < H: return x
        if lo is not None and lo >= H: return x - M
        if self.entails(st, x < H): return x
        if self.entails(st, x >= H): return x - M
        return ite(x < H, x, x - M)

    def sfits(self, st, s, bits, flag=False, name=""):
        """signed mathematical result -> unsigned representation"""
        H = 1 << (bits - 1)
        if flag:
            self.prove(st, And(s >= -H, s < H), "no signed overflow " + name)
        lo, hi = rng(s)
        if lo is not None and lo >= 0 and hi is not None and hi < H: return s
        if self.entails(st, s >= 0):
            if hi is not None and hi < 2 * H: return s
            return self.fits(st, s, bits)
        if self.entails(st, And(s < 0, s >= -2 * H)): return s + 2 * H
        return self.fits(st, s, bits)

    def arith(self, st, op, x, y, bits, fl):
        M = 1 << bits
        if op == "add":
            if "nsw" in fl:
                a, b = self.signed(st, x, bits), self.signed(st, y, bits)
                return self.sfits(st, a + b, bits, True, "(add)")
            if y.isconst() and y.c >= M // 2: return self.fits(st, x + (y.c - M), bits)
            if x.isconst() and x.c >= M // 2: return self.fits(st, y + (x.c - M), bits)
            return self.fits(st, x + y, bits)
        if op == "sub":
            if "nsw" in fl:
                a, b = self.signed(st, x, bits), self.signed(st, y, bits)
                return self.sfits(st, a - b, bits, True, "(sub)")
            return self.fits(st, x - y, bits)
        if op == "mul":
            if "nsw" in fl:
                a, b = self.signed(st, x, bits), self.signed(st, y, bits)
                return self.sfits(st, a * b, bits, True, "(mul)")
            p = x * y
            lo, hi = rng(p)
            if lo is not None and lo >= 0 and hi is not None and hi < M: return p
            if self.entails(st, And(p >= 0, p < M)): return p
            if y.isconst() and y.c == M - 1: return self.fits(st, -x, bits)
            for a, b in ((x, y), (y, x)):          # a wrapped difference times something: the difference itself times something
                r = RAW.get(a.t[0][0]) if len(a.t) == 1 and a.t[0][1] == 1 and a.c == 0 else None
                if r is None: continue
                p2 = r * b
                if self.entails(st, p2 < M) and self.entails(st, p2 >= -M): return self.fits(st, p2, bits)
            w = fresh("wmul", 0, M - 1); q = fresh("qmul", 0)
            axiom(w, eq(p, w + q * M), Implies(p < M, eq(w, p)))
            return w
        if op == "udiv":
            if y.isconst():
                if y.c == 0: self.prove(st, FALSE, "division by zero")
                return divc(x, y.c)
            self.prove(st, ne(y, 0), "division by zero")
            return self.udiv(x, y)
        if op == "urem":
            if y.isconst():
                if y.c == 0: self.prove(st, FALSE, "division by zero")
                return modc(x, y.c)
            self.prove(st, ne(y, 0), "division by zero")
            return x - self.udiv(x, y) * y
        if op in ("sdiv", "srem"):
            a, b = self.signed(st, x, bits), self.signed(st, y, bits)
            if not b.isconst() or b.c <= 0:
                if b.isconst(): raise Unsupported("sdiv by negative constant")
                self.prove(st, ne(b, 0), "division by zero")
                if self.entails(st, And(a >= 0, b > 0)):
                    q = self.udiv(a, b)
                    return q if op == "sdiv" else a - q * b
                raise Unsupported("sdiv")
            if self.entails(st, a >= 0): q = divc(a, b.c)
            else: q = ite(a >= 0, divc(a, b.c), -divc(-a, b.c))
            return self.sfits(st, q if op == "sdiv" else a - q * b.c, bits)
        if op in ("and", "or", "xor") and self.opts.get("loose_bits") and not (x.isconst() and y.isconst()):
            # only ranges are kept (sound: any result of that range is considered)
            his = [h for h in (rng(x)[1], rng(y)[1]) if h is not None]
            h = min(his, default=M - 1) if op == "and" else (1 << max([0] + [h.bit_length() for h in his])) - 1 if len(his) == 2 else M - 1
            r = fresh(op, 0, h)
            if op == "and" and self.opts["loose_bits"] == "zero": self.assume(st, And(*[r <= z for z in (x, y) if not z.isconst()]))
            return r
        if op == "and":
            if x.isconst(): x, y = y, x
            if y.isconst(): return self.andc(st, x, y.c, bits)
            lo, hi = 0, None
            if x.same(y): return x
            r = UFAND(x, y)
            return r
        if op == "or":
            if x.isconst() and x.c == 0: return y
            if y.isconst() and y.c == 0: return x
            if x.isconst() and y.isconst(): return L(x.c | y.c)
            for a, b in ((x, y), (y, x)):
                # a multiple of 2^s, b < 2^s
                from math import gcd
                g = abs(a.c)
                for i, k in a.t: g = gcd(g, abs(k))
                if g == 0: return b
                s = (g & -g)
                if s > 1 and self.entails(st, And(b < s, b >= 0)): return a + b
            lo1, hi1 = rng(x); lo2, hi2 = rng(y)
            if hi1 is not None and hi1 <= 1 and hi2 is not None and hi2 <= 1:
                return b2i(Or(eq(x, 1), eq(y, 1)))
            r = UFOR(x, y)
            return r
        if op == "xor":
            if y.isconst() and y.c == M - 1: return L(M - 1) - x
            if x.isconst() and y.isconst(): return L(x.c ^ y.c)
            if y.isconst() and y.c == 0: return x
            lo1, hi1 = rng(x); lo2, hi2 = rng(y)
            if hi1 is not None and hi1 <= 1 and hi2 is not None and hi2 <= 1:
                return b2i(Not(iff(eq(x, 1), eq(y, 1))))
            return UF("xor%d" % bits, 2, 0, M - 1)(x, y)
        if op == "shl":
            if y.isconst():
                if y.c >= bits: return fresh("shl_undef", 0, M - 1)
                if "nsw" in fl:
                    a = self.signed(st, x, bits)
                    return self.sfits(st, a * (1 << y.c), bits, True, "(shl)")
                p = x * (1 << y.c)
                return self.fits(st, p, bits)
            self.prove(st, y < bits, "shift amount in range")
            r = UF("shl%d" % bits, 2, 0, M - 1)(x, y)
            return r
        if op == "lshr":
            if y.isconst():
                if y.c >= bits: return fresh("lshr_undef", 0, M - 1)
                return divc(x, 1 << y.c)
            self.prove(st, y < bits, "shift amount in range")
            return UF("lshr%d" % bits, 2, 0, M - 1)(x, y)
        if op == "ashr":
            a = self.signed(st, x, bits)
            if y.isconst(): return self.sfits(st, divc(a, 1 << y.c), bits)
            return UF("ashr%d" % bits, 2, 0, M - 1)(x, y)
        raise Unsupported(op)

    def udiv(self, x, y):
        return UF("udiv", 2, 0)(x, y)

    def andc(self, st, x, m, bits):
        M = 1 << bits
        m &= M - 1
        if m == 0: return ZERO
        if m == M - 1: return x
        if x.isconst(): return L(x.c & m)
        if m & (m - 1) == 0 and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:      # one character class
            a = T._atoms[x.t[0][0]]
            if a.kind == "app" and a.args[0] == "ctype_b": return UF("ctype_%d" % m, 1, 0, 1)(a.args[1].l) * m
        # contiguous runs
        res = ZERO; i = 0; runs = []
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1: j += 1
                runs.append((i, j)); i = j
            else: i += 1
        if len(runs) > 4:
            return UFAND(x, L(m))
        for i, j in runs:
            v = divc(x, 1 << i) if i else x
            if j < bits: v = modc(v, 1 << (j - i))
            res = res + v * (1 << i)
        return res

    # ---------------------------------------------------------------- pointers
    def addr(self, st, obj):
        if isinstance(obj, int):
            if obj == 0: return ZERO
            a = var("addr#%d" % obj, 4096, 1 << 62)
            (i, k), = a.t
            if i not in AXIOMS:
                o = st.objs[obj]
                axiom(a, a + o.size <= (1 << 62) + 4096)
                if o.heap or o.ext == "aligned": axiom(a, eq(modc(a, 16), 0))
            return a
        f = UF("addrf#%s" % obj.fam, 1, 4096, 1 << 62)
        return f(obj.idx)

    def ptr_to_int(self, st, p):
        if isinstance(p, Lin): return p
        if isinstance(p, PIte):
            return ite(p.c, self.ptr_to_int(st, p.a), self.ptr_to_int(st, p.b))
        if isinstance(p, Undef): raise Unsupported("unknown pointer as an integer")
        return self.addr(st, p.obj) + p.off

    def int_to_ptr(self, st, x):
        if isinstance(x, (Ptr, PIte)): return x
        if x.isconst() and x.c == 0: return NULLP
        for i, k in x.t:
            a = T.atom(i)
            if k == 1 and a.kind == "var" and str(a.args).startswith("addr#"):
                oid = int(str(a.args)[5:])
                return Ptr(oid, x - alin(a))
        if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
            a = T.atom(x.t[0][0])
            if a.kind == "ite":
                c, p, q = a.args; r = []
                for y in (p.l, q.l):
                    try: r.append(self.int_to_ptr(st, y))
                    except Unsupported: r.append(UNDEF)     # a word that is not known to be an address: using it is not supported
                if any(isinstance(y, Undef) for y in r) and not all(isinstance(y, Undef) for y in r):
                    d = self.decide(st, c)
                    if d is not None and not isinstance(r[0 if d else 1], Undef): return r[0 if d else 1]
                if not all(isinstance(y, Undef) for y in r): return pite(c, *r)
            if a.kind == "app" and a.args[0].startswith("addrf#"):
                return Ptr(FamRef(a.args[0][6:], a.args[1].l), ZERO)
            if a.kind == "app" and a.args[0] in self.guess:
                # only while looking for what a loop modifies (checked again afterwards): the word as it was before the loop
                lc, base = self.guess[a.args[0]]
                if lc.approx:
                    lc.guessed = True
                    return self.int_to_ptr(st, self.rd(st, base, tuple(y.l for y in a.args[2:])))
        raise Unsupported("integer to pointer: %r" % x)

    def ptr_eq(self, st, p, q):
        if isinstance(p, Lin): p = self.int_to_ptr(st, p)
        if isinstance(q, Lin): q = self.int_to_ptr(st, q)
        if isinstance(p, Undef) or isinstance(q, Undef): raise Unsupported("comparison of an unknown pointer")
        if isinstance(p, PIte): return Or(And(p.c, self.ptr_eq(st, p.a, q)), And(Not(p.c), self.ptr_eq(st, p.b, q)))
        if isinstance(q, PIte): return self.ptr_eq(st, q, p)
        if isinstance(p.obj, int) and isinstance(q.obj, int):
            if p.obj != q.obj: return FALSE
            return eq(p.off, q.off)
        if isinstance(p.obj, int) or isinstance(q.obj, int): return FALSE
        if p.obj.fam != q.obj.fam: return FALSE
        return And(eq(p.obj.idx, q.obj.idx), eq(p.off, q.off))

    def concrete(self, st, p):
        """resolve a pointer choice by forking"""
        while isinstance(p, PIte):
            p = p.a if self.branch(st, p.c) else p.b
        if isinstance(p, Lin): p = self.int_to_ptr(st, p)
        if isinstance(p, PIte): return self.concrete(st, p)
        if isinstance(p, Undef): raise Unsupported("use of an uninitialised pointer")
        return p

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, name, size, kind="lazy", heap=False, born="local"):
        i = st.nextid; st.nextid += 1
        o = Obj(i, name, size, kind, heap); o.born = born
        st.objs[i] = o
        return o

    def obj(self, st, i): return st.objs[i]
    def wobj(self, st, i):
        o = st.objs[i].copy(); st.objs[i] = o
        return o

    def new_plane(self, st, name, size, w=1, vt="i", heap=True, base=None, born="entry"):
        o = self.new_obj(st, name, size, "plane", heap, born)
        o.w = w; o.vt = vt
        if base is None:
            uf = fresh_uf(name, 1, 0, (1 << (8 * w)) - 1)
            o.ext = uf
            base = Base(lambda i: uf(i), uf.name)
        o.chain = base
        return o

    def undef_chain(self, st, name, w, vt):
        if vt == "p":
            def f(*a): return UNDEF
            return Base(f, "undef")
        uf = fresh_uf("undef_" + name, 1, 0, (1 << (8 * w)) - 1)
        return Base(lambda i: uf(i), "undef")

    def shape(self, st, o, w, vt):
        """fix the shape of a lazy object"""
        if o.kind != "lazy": return o
        o = self.wobj(st, o.id)
        o.kind = "plane"; o.w = w; o.vt = vt
        if o.zero: o.chain = Base(lambda i: NULLP if vt == "p" else ZERO, "zero")
        else: o.chain = self.undef_chain(st, o.name, w, vt)
        return o

    def unit(self, st, off, w):
        """off / w if provably divisible"""
        if w == 1: return off
        q = divc(off, w)
        if (off - q.scale(w)).isconst() and (off - q.scale(w)).c == 0: return q
        if self.entails(st, eq(modc(off, w), 0)):
            return q
        return None

    # ---- chains
    def rdp(self, ch, co):
        """value of one unit, without solver decisions"""
        nodes = []
        while not isinstance(ch, Base):
            same = TRUE
            pre = ch.co[:-1] if isinstance(ch, PtW) else ch.pre
            for a, b in zip(co[:-1], pre): same = And(same, eq(a, b))
            if isinstance(ch, PtW):
                d = co[-1] - ch.co[-1]
                c = And(same, eq(d, 0)) if ch.n == 1 else And(same, d >= 0, d < ch.n)
            else: c = And(same, ch.lo <= co[-1], co[-1] < ch.hi)
            if c is FALSE: ch = ch.prev; continue
            nodes.append((c, ch))
            if c is TRUE: break
            ch = ch.prev
        v = ch.fn(*co) if isinstance(ch, Base) else None
        for c, n in reversed(nodes):
            if isinstance(n, PtW): w = n.val if n.n == 1 else self.subunit(None, n.val, co[-1] - n.co[-1], n.n)
            else:
                old = self.pure; self.pure = True
                try: w = n.fn(*co)
                finally: self.pure = old
            v = w if v is None else vite(c, w, v)
        return v
    pure = False

    def rd(self, st, ch, co):
        if self.pure: return self.rdp(ch, co)
        """value of one unit"""
        if isinstance(ch, Base): return ch.fn(*co)
        if isinstance(ch, PtW):
            same = TRUE
            for a, b in zip(co[:-1], ch.co[:-1]): same = And(same, eq(a, b))
            d = co[-1] - ch.co[-1]
            if ch.n == 1: c = And(same, eq(d, 0))
            else: c = And(same, d >= 0, d < ch.n)
            r = self.dec(st, c)
            if r is False: return self.rd(st, ch.prev, co)
            if ch.n == 1: v = ch.val
            else:
                # sub-byte of a multi unit value
                v = self.subunit(st, ch.val, d, ch.n)
            if r is True: return v
            return vite(c, v, self.rd(st, ch.prev, co))
        # RngW
        same = TRUE
        for a, b in zip(co[:-1], ch.pre): same = And(same, eq(a, b))
        c = And(same, ch.lo <= co[-1], co[-1] < ch.hi)
        r = self.dec(st, c)
        if r is False: return self.rd(st, ch.prev, co)
        v = ch.fn(*co)
        if r is True: return v
        return vite(c, v, self.rd(st, ch.prev, co))

    def dec(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        return self.decide(st, c, self.opts.get("dec_ms", 400))

    def subunit(self, st, v, d, n):
        if isinstance(v, Flt): v = v.bits
        if isinstance(v, (Ptr, PIte)): v = self.ptr_to_int(st, v)
        if d.isconst(): return modc(divc(v, 256 ** d.c), 256)
        r = modc(v, 256)
        for k in range(1, n):
            r = ite(eq(d, k), modc(divc(v, 256 ** k), 256), r)
        return r

    def rd_multi(self, st, ch, co, n):
        """n-byte little-endian value from a byte plane"""
        c = ch
        while isinstance(c, PtW):
            d = co[-1] - c.co[-1]
            if len(co) > 1 or not d.isconst():
                dd = And(*[eq(a, b) for a, b in zip(co, c.co)])
                r = self.dec(st, dd)
                if r is True and c.n == n: return c.val
                if r is not False or len(co) > 1: break
                # offsets differ; may still overlap
                ov = And(d > -n, d < c.n)
                if self.dec(st, ov) is False: c = c.prev; continue
                break
            if d.c == 0 and c.n == n: return c.val
            if d.c >= c.n or d.c <= -n: c = c.prev; continue
            break
        v = ZERO
        for k in range(n):
            b = self.rd(st, ch, co[:-1] + (co[-1] + k,))
            if isinstance(b, Undef): return UNDEF
            v = v + b * (256 ** k)
        return recombine(v)

    # ---- access checks
    def chk(self, st, p, n, what, write=False):
        """obligations for accessing n bytes at p; returns the object"""
        n = L(n)
        if isinstance(p.obj, int):
            if p.obj == 0:
                self.prove(st, eq(n, 0), "%s: null pointer" % what)
                return None
            o = st.objs[p.obj]
            if not o.live: self.prove(st, FALSE, "%s: use after free of %s" % (what, o.name))
            self.prove(st, And(p.off >= 0, p.off + n <= o.size), "%s: in bounds of %s" % (what, o.name),
                       "off=%r n=%r size=%r" % (p.off, n, o.size))
            if write and o.ro: self.prove(st, eq(n, 0), "%s: write to read-only %s" % (what, o.name))
            return o
        f = st.fams[p.obj.fam]
        self.prove(st, eq(self.rd(st, f.live, (p.obj.idx,)), 1), "%s: live %s" % (what, f.name))
        self.prove(st, And(p.off >= 0, p.off + n <= f.sizefn(p.obj.idx)), "%s: in bounds of %s" % (what, f.name))
        return f

    def conv(self, st, v, ty):
        """value loaded from memory -> value of IR type"""
        k = ty[0]
        if isinstance(v, Undef): return self.undef_of(ty)
        if k == "ptr":
            if isinstance(v, (Ptr, PIte)) or hasattr(v, "call"): return v
            return self.int_to_ptr(st, v)
        if k == "i":
            if isinstance(v, (Ptr, PIte)): return self.ptr_to_int(st, v)
            if isinstance(v, Flt): v = v.bits
            if ty[1] == 1: return i2b(v) if isinstance(v, Lin) else v
            if isinstance(v, B): v = b2i(v)
            return v
        if k in ("double", "float", "x86_fp80"):
            if isinstance(v, Flt): return v
            return Flt(v, {"double": 8, "float": 4, "x86_fp80": 10}[k])
        return v

    def undef_of(self, ty):
        k = ty[0]
        if k == "i":
            return fresh_b("undef") if ty[1] == 1 else fresh("undef", 0, (1 << ty[1]) - 1)
        if k in ("double", "float", "x86_fp80"):
            w = {"double": 8, "float": 4, "x86_fp80": 10}[k]
            return Flt(fresh("undeff", 0, (1 << (8 * w)) - 1), w)
        return UNDEF

    def load(self, st, p, ty, mod, what="load"):
        if ty[0] in ("named", "struct", "arr"):
            if ty[0] == "arr":
                return Agg([self.load(st, Ptr(p.obj, p.off + i * mod.size(ty[2])), ty[2], mod) for i in range(ty[1])], ty)
            offs = mod.layout(ty)[0]
            p = self.concrete(st, p)
            return Agg([self.load(st, Ptr(p.obj, p.off + o), f, mod) for o, f in zip(offs, mod.fields(ty))], ty)
        p = self.concrete(st, p)
        n = mod.size(ty) if ty[0] != "x86_fp80" else 10
        o = self.chk(st, p, n, what)
        if o is None: raise Infeasible()
        vt = "p" if ty[0] == "ptr" else "i"
        if isinstance(o, Fam):
            return self.conv(st, self.fam_load(st, o, p, n, vt), ty)
        if o.kind == "lazy": 
            if o.size.isconst() and o.size.c <= 4096 and p.off.isconst():
                o = self.wobj(st, o.id); o.kind = "cells"
            else: o = self.shape(st, o, n, vt)
        if o.kind == "cells":
            if not p.off.isconst():
                o = self.cells_to_plane(st, o, n, vt)
            else:
                return self.conv(st, self.cell_get(st, o, p.off.c, n, vt), ty)
        return self.conv(st, self.plane_get(st, o, p.off, n), ty)

    def plane_get(self, st, o, off, n):
        if n == o.w:
            u = self.unit(st, off, o.w)
            if u is None: raise Unsupported("misaligned access to %s" % o.name)
            return self.rd(st, o.chain, (u,))
        if o.w == 1: return self.rd_multi(st, o.chain, (off,), n)
        raise Unsupported("access width %d on %s (unit %d)" % (n, o.name, o.w))

    def cells_to_plane(self, st, o, w, vt):
        """an object accessed at a symbolic offset becomes a unit plane"""
        o = self.wobj(st, o.id)
        if o.zero: ch = Base((lambda i: NULLP) if vt == "p" else (lambda i: ZERO), "zero")
        else: ch = self.undef_chain(st, o.name, w, vt)
        for off, (n, v) in sorted(o.cells.items()):
            if n != w:
                if w == 1: ch = PtW(ch, (L(off),), n, v)
                else: raise Unsupported("mixed widths in %s" % o.name)
            else:
                if off % w: raise Unsupported("misaligned cell")
                ch = PtW(ch, (L(off // w),), 1, v)
        o.kind = "plane"; o.w = w; o.vt = vt; o.chain = ch; o.cells = {}
        return o

    def cell_get(self, st, o, off, n, vt):
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        # assemble from other cells
        if c is None and not any(o2 < off + n and off < o2 + c2[0] for o2, c2 in o.cells.items()):
            if o.zero: return NULLP if vt == "p" else ZERO
            v = UNDEF
            if vt == "i":
                v = fresh("undef_%s_%d" % (o.name, off), 0, (1 << (8 * n)) - 1)
                o2 = self.wobj(st, o.id); o2.cells[off] = (n, v)
            return v
        v = ZERO
        for k in range(n):
            b = self.cell_byte(st, o, off + k)
            if isinstance(b, Undef): return UNDEF
            v = v + b * (256 ** k)
        return recombine(v)

    def cell_byte(self, st, o, off):
        for o2, (n, v) in o.cells.items():
            if o2 <= off < o2 + n:
                if isinstance(v, Undef): return fresh("undefb", 0, 255)
                if isinstance(v, Flt): v = v.bits
                if isinstance(v, (Ptr, PIte)): v = self.ptr_to_int(st, v)
                if isinstance(v, B): v = b2i(v)
                return modc(divc(v, 256 ** (off - o2)), 256) if n > 1 else v
        if o.zero: return ZERO
        return fresh("undefb", 0, 255)

    def cell_set(self, st, o, off, n, v):
        o = self.wobj(st, o.id)
        # remove / split overlapping cells
        for o2 in [k for k, c in o.cells.items() if k < off + n and off < k + c[0]]:
            m, old = o.cells[o2]
            if o2 == off and m == n: continue
            if o2 >= off and o2 + m <= off + n:
                del o.cells[o2]; continue
            del o.cells[o2]
            for k in range(m):
                if not (off <= o2 + k < off + n):
                    if isinstance(old, Undef): continue
                    b = old.bits if isinstance(old, Flt) else self.ptr_to_int(st, old) if isinstance(old, (Ptr, PIte)) else old
                    o.cells[o2 + k] = (1, modc(divc(b, 256 ** k), 256))
        o.cells[off] = (n, v)
        self.note_write(st, o.id, off)

    def note_write(self, st, oid, where=None):
        if st.writes is not None: st.writes.add((oid, where))

    def store(self, st, p, v, ty, mod, what="store"):
        if ty[0] in ("named", "struct"):
            if not isinstance(v, Agg): raise Unsupported("aggregate store")
            p = self.concrete(st, p)
            for o, f, x in zip(mod.layout(ty)[0], mod.fields(ty), v.es):
                self.store(st, Ptr(p.obj, p.off + o), x, f, mod)
            return
        p = self.concrete(st, p)
        n = mod.size(ty) if ty[0] != "x86_fp80" else 10
        o = self.chk(st, p, n, what, True)
        if o is None: raise Infeasible()
        if isinstance(v, B): v = b2i(v)
        vt = "p" if ty[0] == "ptr" else "i"
        if isinstance(o, Fam):
            self.fam_store(st, o, p, n, v); return
        if o.kind == "lazy":
            if o.size.isconst() and o.size.c <= 4096 and p.off.isconst():
                o = self.wobj(st, o.id); o.kind = "cells"
            else: o = self.shape(st, o, n, vt)
        if o.kind == "cells":
            if not p.off.isconst(): o = self.cells_to_plane(st, o, n, vt)
            else:
                self.cell_set(st, o, p.off.c, n, v); return
        o = self.wobj(st, o.id)
        if n == o.w:
            u = self.unit(st, p.off, o.w)
            if u is None: raise Unsupported("misaligned store to %s" % o.name)
            if o.vt == "i" and isinstance(v, (Ptr, PIte)): v = self.ptr_to_int(st, v)
            if o.vt == "p" and isinstance(v, Lin): v = self.int_to_ptr(st, v)
            o.chain = PtW(o.chain, (u,), 1, v)
            if n == 1 and isinstance(v, Lin) and v.same(ZERO): self.add_nul(st, p, ZERO)
        elif o.w == 1:
            if isinstance(v, Flt): v = v.bits
            o.chain = PtW(o.chain, (p.off,), n, v)
        else: raise Unsupported("store width %d to %s" % (n, o.name))
        self.note_write(st, o.id)

    # ---- families
    def fam_load(self, st, f, p, n, vt):
        if f.kind == "plane":
            if n == f.w:
                u = self.unit(st, p.off, f.w)
                return self.rd(st, f.chain, (p.obj.idx, u))
            if f.w == 1: return self.rd_multi(st, f.chain, (p.obj.idx, p.off), n)
            raise Unsupported("family access width")
        if not p.off.isconst(): raise Unsupported("family struct offset")
        off = p.off.c
        if off not in f.fields: raise Unsupported("family field %d" % off)
        w, ch = f.fields[off]
        if w != n: raise Unsupported("family field width")
        return self.rd(st, ch, (p.obj.idx,))

    def fam_store(self, st, f, p, n, v):
        g = f.copy(); st.fams[f.name] = g
        if g.kind == "plane":
            if n == g.w:
                u = self.unit(st, p.off, g.w)
                g.chain = PtW(g.chain, (p.obj.idx, u), 1, v)
            elif g.w == 1: g.chain = PtW(g.chain, (p.obj.idx, p.off), n, v)
            else: raise Unsupported("family store width")
        else:
            if not p.off.isconst() or p.off.c not in g.fields: raise Unsupported("family struct store")
            w, ch = g.fields[p.off.c]
            if w != n: raise Unsupported("family field width")
            g.fields[p.off.c] = (w, PtW(ch, (p.obj.idx,), 1, v))
        self.note_write(st, f.name)

    # ---------------------------------------------------------------- bulk memory
    def view(self, st, p, w=1):
        """(get(off)->unit value reader over snapshot, unit width) for source ranges"""
        if isinstance(p.obj, int):
            o = st.objs[p.obj]
            return o
        return st.fams[p.obj.fam]

    def mem_copy(self, st, dst, src, n, what):
        dst = self.concrete(st, dst); src = self.concrete(st, src)
        n = L(n)
        if n.isconst() and n.c == 0: return
        so = self.chk(st, src, n, what + " source")
        do = self.chk(st, dst, n, what + " destination", True)
        if so is None or do is None:
            return                       # n == 0 was proved
        # constant-size copies involving cell objects
        dcell = isinstance(do, Obj) and (do.kind == "cells" or (do.kind == "lazy" and do.size.isconst() and do.size.c <= 4096 and dst.off.isconst() and n.isconst()))
        scell = isinstance(so, Obj) and so.kind == "cells"
        if n.isconst() and n.c <= 4096 and (dcell or scell) and (not dcell or dst.off.isconst()) and (not scell or src.off.isconst()):
            self.copy_const(st, dst, src, n.c, do, so); return
        if scell or (isinstance(so, Obj) and so.kind == "lazy"):
            so = self.to_plane_like(st, so, do, src)
        if dcell or (isinstance(do, Obj) and do.kind == "lazy"):
            do = self.to_plane_like(st, do, so, dst)
        w = so.w
        if do.w != w:
            raise Unsupported("copy between %s (unit %d) and %s (unit %d)" % (so.name, so.w, do.name, do.w))
        su, du, nu = self.unit(st, src.off, w), self.unit(st, dst.off, w), self.unit(st, n, w)
        if su is None or du is None or nu is None: raise Unsupported("misaligned block copy")
        sch = so.chain
        spre = () if isinstance(so, Obj) else (src.obj.idx,)
        dpre = () if isinstance(do, Obj) else (dst.obj.idx,)
        sst = st.clone() if False else None
        eng = self
        def fn(*co):
            return eng.rd(eng.cur, sch, spre + (co[-1] - du + su,))
        if nu.isconst() and nu.c <= 8:
            for k in range(nu.c):
                v = self.rd(st, sch, spre + (su + k,))
                if isinstance(do, Obj):
                    o2 = self.wobj(st, do.id); o2.chain = PtW(o2.chain, (du + k,), 1, v)
                else:
                    g = st.fams[do.name].copy(); st.fams[do.name] = g
                    g.chain = PtW(g.chain, dpre + (du + k,), 1, v)
        else:
            self.set_range(st, do, dpre, du, du + nu, fn, "copy")
        self.note_write(st, do.id if isinstance(do, Obj) else do.name)

    def set_range(self, st, o, pre, lo, hi, fn, tag):
        if isinstance(o, Obj):
            o = self.wobj(st, o.id); o.chain = RngW(o.chain, pre, lo, hi, fn, tag)
        else:
            g = st.fams[o.name].copy(); st.fams[o.name] = g
            g.chain = RngW(g.chain, pre, lo, hi, fn, tag)

    def to_plane_like(self, st, o, like, p):
        if o.kind == "plane": return o
        w, vt = (like.w, like.vt) if (like is not None and getattr(like, "kind", None) == "plane") else (1, "i")
        if o.kind == "lazy": return self.shape(st, o, w, vt)
        return self.cells_to_plane(st, o, w, vt)

    def copy_const(self, st, dst, src, n, do, so):
        """cell-wise copy of a constant number of bytes"""
        if isinstance(so, Obj) and so.kind == "lazy":
            so = self.wobj(st, so.id); so.kind = "cells"
        if isinstance(do, Obj) and do.kind == "lazy":
            do = self.wobj(st, do.id); do.kind = "cells"
        vals = []
        if isinstance(so, Obj) and so.kind == "cells":
            base = src.off.c; k = 0
            while k < n:
                c = so.cells.get(base + k)
                if c and k + c[0] <= n: vals.append((k, c[0], c[1])); k += c[0]
                elif any(o2 < base + k + 1 and base + k < o2 + c2[0] for o2, c2 in so.cells.items()):
                    vals.append((k, 1, self.cell_byte(st, so, base + k))); k += 1
                else:
                    # gap
                    j = k + 1
                    while j < n and (base + j) not in so.cells: j += 1
                    if so.zero: vals.append((k, j - k, 0))
                    else: vals.append((k, j - k, UNDEF))
                    k = j
        else:
            w = so.w
            if n % w: raise Unsupported("copy_const unit")
            u = self.unit(st, src.off, w)
            pre = () if isinstance(so, Obj) else (src.obj.idx,)
            # an exact multi-unit value?
            if w == 1 and n in (2, 4, 8):
                vals.append((0, n, self.rd_multi(st, so.chain, pre + (u,), n)))
            else:
                for k in range(n // w): vals.append((k * w, w, self.rd(st, so.chain, pre + (u + k,))))
        if isinstance(do, Obj) and do.kind == "cells":
            b = dst.off.c
            for k, m, v in vals:
                if v is UNDEF or (isinstance(v, int) and v == 0):
                    o = self.wobj(st, do.id)
                    z = isinstance(v, int)
                    # clear range
                    for q in [q for q in o.cells if b + k <= q < b + k + m]: del o.cells[q]
                    if z and not o.zero:
                        q = 0
                        while q < m:
                            step = 8 if (m - q >= 8 and (b + k + q) % 8 == 0) else 4 if (m - q >= 4 and (b + k + q) % 4 == 0) else 1
                            o.cells[b + k + q] = (step, ZERO if True else None); q += step
                    elif not z and o.zero:
                        for q in range(m): o.cells[b + k + q] = (1, fresh("undefb", 0, 255))
                    self.note_write(st, do.id, b + k)
                else: self.cell_set(st, st.objs[do.id], b + k, m, v)
        else:
            w = do.w
            u = self.unit(st, dst.off, w)
            pre = () if isinstance(do, Obj) else (dst.obj.idx,)
            if u is None: raise Unsupported("misaligned")
            for k, m, v in vals:
                if isinstance(v, int): v = ZERO
                if isinstance(v, Undef): v = fresh("undefm", 0, (1 << (8 * m)) - 1)
                if m != w and w != 1: raise Unsupported("copy_const width")
                if isinstance(v, Flt): v = v.bits
                if isinstance(v, B): v = b2i(v)
                if do.vt == "i" and isinstance(v, (Ptr, PIte)): v = self.ptr_to_int(st, v)
                if do.vt == "p" and isinstance(v, Lin): v = self.int_to_ptr(st, v)
                node = lambda ch: PtW(ch, pre + (u + (k // w),), m // w, v)
                if isinstance(do, Obj):
                    o = self.wobj(st, do.id); o.chain = node(o.chain)
                else:
                    g = st.fams[do.name].copy(); st.fams[do.name] = g; g.chain = node(g.chain)
            self.note_write(st, do.id if isinstance(do, Obj) else do.name)

    def mem_set(self, st, dst, c, n, what):
        dst = self.concrete(st, dst); n = L(n)
        if n.isconst() and n.c == 0: return
        o = self.chk(st, dst, n, what, True)
        if o is None: return
        if isinstance(o, Obj) and o.sub:         # a struct with arrays kept apart: each piece by itself
            if not (dst.off.isconst() and n.isconst()): raise Unsupported("fill of a part of %s" % o.name)
            b, e = dst.off.c, dst.off.c + n.c
            for lo, hi, i in o.sub:
                x, y = max(lo, b), min(hi, e)
                if x < y: self.mem_set(st, Ptr(i, L(x - lo)), c, y - x, what)
            cuts = [b] + [z for lo, hi, i in o.sub for z in (lo, hi)] + [e]
            sub = o.sub; o = self.wobj(st, o.id); o.sub = ()
            for x, y in zip(cuts[::2], cuts[1::2]):
                x, y = max(x, b), min(y, e)
                if x < y: self.mem_set(st, Ptr(o.id, L(x)), c, y - x, what)
            o = self.wobj(st, o.id); o.sub = sub
            return
        c = modc(c, 256)
        if isinstance(o, Obj) and o.kind == "lazy":
            if o.size.isconst() and o.size.c <= 4096 and n.isconst() and dst.off.isconst():
                o = self.wobj(st, o.id); o.kind = "cells"
            elif c.isconst() and c.c == 0 and dst.off.isconst() and dst.off.c == 0 and self.entails(st, eq(n, o.size)):
                o = self.wobj(st, o.id); o.zero = True; self.note_write(st, o.id); return
            elif o.zero and c.isconst() and c.c == 0: return
            elif c.isconst() and not n.isconst() and self.unit(st, n, 8) is not None and self.unit(st, dst.off, 8) is not None and self.unit(st, o.size, 8) is not None: o = self.shape(st, o, 8, "i")
            else: o = self.shape(st, o, 1, "i")
        if isinstance(o, Obj) and o.kind == "cells":
            if dst.off.isconst() and n.isconst():
                b = dst.off.c
                if not c.isconst() or c.c != 0:
                    for k in range(n.c): self.cell_set(st, st.objs[o.id], b + k, 1, c)
                    return
                o = self.wobj(st, o.id)
                for q, (m, v) in list(o.cells.items()):
                    if b <= q and q + m <= b + n.c:
                        o.cells[q] = (m, NULLP if isinstance(v, (Ptr, PIte)) else Flt(ZERO, v.w) if isinstance(v, Flt) else ZERO); self.note_write(st, o.id, q)
                    elif q < b + n.c and b < q + m: raise Unsupported("partial memset")
                # uncovered bytes
                if b == 0 and o.size.isconst() and n.c == o.size.c: o.zero = True
                else:
                    cov = set()
                    for q, (m, v) in o.cells.items(): cov.update(range(q, q + m))
                    k = b
                    while k < b + n.c:
                        if k in cov: k += 1; continue
                        if not o.zero: o.cells[k] = (1, ZERO)
                        k += 1
                self.note_write(st, o.id, b)
                return
            o = self.cells_to_plane(st, o, 1, "i")
        w = o.w
        u, nu = self.unit(st, dst.off, w), self.unit(st, n, w)
        if u is None or nu is None: raise Unsupported("misaligned memset")
        pre = () if isinstance(o, Obj) else (dst.obj.idx,)
        if w == 1: val = c
        elif c.isconst() and c.c == 0: val = NULLP if o.vt == "p" else ZERO
        elif c.isconst(): val = L(int.from_bytes(bytes([c.c]) * w, "little"))
        else: raise Unsupported("memset of words")
        self.set_range(st, o, pre, u, u + nu, lambda *co: val, "fill")
        self.note_write(st, o.id if isinstance(o, Obj) else o.name)

    def byte_at(self, st, p, k):
        """byte at p+k (no checks)"""
        if isinstance(p.obj, int):
            o = st.objs[p.obj]
            if o.kind == "lazy": o = self.shape(st, o, 1, "i")
            off = p.off + k
            if o.kind == "cells":
                if off.isconst(): return self.cell_byte(st, o, off.c)
                # build over all bytes
                v = ZERO; n = o.size.c
                v = self.cell_byte(st, o, n - 1)
                for i in range(n - 1): v = ite(eq(off, i), self.cell_byte(st, o, i), v)
                return v
            if o.w != 1:
                if o.size.isconst() or off.isconst() or True:
                    q = divc(off, o.w); r = off - q.scale(o.w)
                    v = self.rd(st, o.chain, (q,))
                    if isinstance(v, (Ptr, PIte)): v = self.ptr_to_int(st, v)
                    return self.subunit(st, v, r, o.w)
            return self.rd(st, o.chain, (off,))
        f = st.fams[p.obj.fam]
        if f.w != 1: raise Unsupported("bytes of a word family")
        return self.rd(st, f.chain, (p.obj.idx, p.off + k))

    def snap_bytes(self, st, p):
        """function k -> byte at p+k in the current memory snapshot"""
        if isinstance(p.obj, int):
            o = st.objs[p.obj]
            if o.kind == "plane" and o.w == 1:
                ch = o.chain
                return lambda k: self.rd(self.cur, ch, (p.off + k,))
        else:
            f = st.fams[p.obj.fam]; ch = f.chain
            if f.w == 1: return lambda k: self.rd(self.cur, ch, (p.obj.idx, p.off + k))
        s2 = st.clone()
        return lambda k: self.byte_at(s2, p, k)

    # ---------------------------------------------------------------- heap
    def alloc(self, st, total, zero, name, fail=True):
        """fork: NULL or a fresh object"""
        ok = self.choose(st, [(True, And(total >= 0, total <= MAXOBJ)), (False, TRUE)]) if fail else True
        if not ok:
            st.tag = "nomem"
            return NULLP
        o = self.new_obj(st, name, total, "lazy", heap=True, born="alloc")
        o.zero = zero
        if zero: o.nul = (ZERO,)
        return Ptr(o.id, ZERO)

    def do_free(self, st, p, what="free"):
        p = self.concrete(st, p)
        if isinstance(p.obj, int):
            if p.obj == 0: return
            o = st.objs[p.obj]
            self.prove(st, mkb(o.live), "%s: not already freed (%s)" % (what, o.name))
            self.prove(st, mkb(o.heap), "%s: heap object (%s)" % (what, o.name))
            self.prove(st, eq(p.off, 0), "%s: start of allocation (%s)" % (what, o.name))
            o = self.wobj(st, o.id); o.live = False
            self.note_write(st, o.id, "live")
            return
        f = st.fams[p.obj.fam]
        self.prove(st, eq(self.rd(st, f.live, (p.obj.idx,)), 1), "%s: not already freed (%s)" % (what, f.name))
        self.prove(st, eq(p.off, 0), "%s: start of allocation (%s)" % (what, f.name))
        g = f.copy(); st.fams[f.name] = g
        g.live = PtW(g.live, (p.obj.idx,), 1, ZERO)
        self.note_write(st, f.name, "live")

    def do_realloc(self, st, p, n):
        p = self.concrete(st, p)
        if isinstance(p.obj, int) and p.obj == 0:
            return self.alloc(st, n, False, "realloc")
        if not isinstance(p.obj, int): raise Unsupported("realloc of family object")
        o = st.objs[p.obj]
        self.prove(st, mkb(o.live and o.heap), "realloc: live heap object (%s)" % o.name)
        self.prove(st, eq(p.off, 0), "realloc: start of allocation")
        z = self.branch(st, eq(n, 0))
        if z:
            self.do_free(st, p, "realloc")
            return NULLP
        ok = self.choose(st, [(True, n <= MAXOBJ), (False, TRUE)])
        if not ok:
            st.tag = "nomem"; return NULLP
        o = self.wobj(st, o.id); o.live = False; self.note_write(st, o.id, "live")
        q = self.new_obj(st, o.name + "'", n, o.kind, heap=True, born="alloc")
        q.w = o.w; q.vt = o.vt; q.zero = False; q.nul = o.nul
        if o.kind == "cells":
            if not n.isconst(): raise Unsupported("realloc of a struct to symbolic size")
            q.cells = {k: c for k, c in o.cells.items() if k + c[0] <= n.c}
            if o.zero: raise Unsupported("realloc of zeroed struct")
        elif o.kind == "lazy":
            if o.zero:
                q.kind = "plane"; q.w = 1; q.vt = "i"
                q.chain = RngW(Base(lambda i: ZERO, "zero"), (), o.size, 1 << 70, self.undef_chain(st, q.name, 1, "i").fn, "uninit")
        else:
            u = self.unit(st, o.size, o.w)
            q.chain = RngW(o.chain, (), u if u is not None else divc(o.size, o.w), 1 << 70, self.undef_chain(st, q.name, o.w, o.vt).fn, "uninit")
        return Ptr(q.id, ZERO)

UFAND = UF("band", 2, 0)
UFOR = UF("bor", 2, 0)
AXGEN["band"] = lambda a, x, y: (alin(a) <= x, alin(a) <= y)
AXGEN["bor"] = lambda a, x, y: (alin(a) >= x, alin(a) >= y, alin(a) <= x + y)
AXGEN["udiv"] = lambda a, x, y: (Implies(y > 0, And(alin(a) * y <= x, x < alin(a) * y + y)), alin(a) <= x)
for _b in (8, 16, 32, 64): AXGEN["lshr%d" % _b] = lambda a, x, y: (alin(a) <= x,)

def recombine(v):
    """sum of byte extracts of the same value -> the value"""
    # v = sum 256^k * ((x div 256^k) mod 256) ; modc produces  a_k - 256*a_{k+1} with a_k = x div 256^k, so the sum telescopes
    return v

def _forks(self, st, fn):
    """run fn(state) exploring the choices it makes; list of (state, result)"""
    saved = self.work, getattr(self, "snap", None); out = []
    self.work = [st]
    try:
        while self.work:
            s = self.work.pop()
            self.snap = s.clone()
            s.cpos = 0; self.cur = s
            try: r = fn(s)
            except Infeasible: continue
            s.choices = (); s.cpos = 0
            out.append((s, r))
    finally:
        self.work = saved[0]
        if saved[1] is not None: self.snap = saved[1]
    return out
Engine.forks = _forks

def _fail(self, st, name, detail):
    """an obligation that cannot be established"""
    if self.dry: return
    full = "%s: %s" % (self.fname, name) if not name.startswith(self.fname) else name
    o = self.obl.get(full)
    if o is None: o = self.obl[full] = Oblig(full)
    o.status = "failed"; o.detail = detail
    if sum(1 for x in self.obl.values() if x.status != "proved") >= self.max_fail: raise Budget()
Engine.fail = _fail
