"""Contracts. A contract is one Python function spec(E) that states the precondition through E and returns
the list of permitted outcomes, all written over the pre-state. The same function is used in two roles:
  verify: the precondition is assumed, the real body is executed symbolically, and at every return the
          state must match one of the outcomes (values, contents, ownership, and nothing else changed);
  call:   at a call site the precondition is proved and one of the outcomes is assumed."""
import time
from . import terms as T
from .terms import *
from .engine import *
from .solver import Forall
from .quant import forall, forall2
from .exec import FnRef, PureFn, veq

CONTRACTS = {}

class Contract:
    def __init__(self, name, fn, props, opts):
        self.name = name; self.fn = fn; self.props = props; self.opts = opts; self.doc = (fn.__doc__ or "").strip()
    def apply(self, eng, st, vals, ty, mod, site):
        hit = eng.prog.lookup(self.name, mod)
        fmod, f = hit
        E = Env(eng, st, "call", fmod, f, vals, site)
        outs = self.fn(E)
        return E.take(outs)

def contract(name, props=(), **opts):
    def deco(fn):
        CONTRACTS[name] = Contract(name, fn, tuple(props), opts)
        return fn
    return deco

ANY = object()

class NewBuf:
    """a fresh heap block of `size` bytes; unit k holds fn(k) (None: unspecified)"""
    def __init__(self, size, fn=None, w=1, vt="i", old=None, name="new", nul=(), cells=None, struct=None, valid=None, atleast=False):   # atleast: or more bytes
        self.atleast = atleast
        self.size = L(size); self.fn = fn; self.w = w; self.vt = vt; self.old = old; self.name = name; self.nul = nul
        self.cells = cells; self.struct = struct; self.valid = valid if valid is not None else self.size

class In:
    """a pointer into buffer b at any offset in [lo, hi] (bytes from the start of the view)"""
    def __init__(self, b, lo, hi, keep=None): self.b = b; self.lo = L(lo); self.hi = L(hi); self.keep = keep.old() if keep is not None else None   # keep: or the value this cell had
    def fresh(self, E):
        if self.keep is not None and E.eng.choose(E.st, [(True, TRUE), (False, TRUE)]): return self.keep
        x = fresh("off_" + self.b.name); E.eng.assume(E.st, And(x >= self.lo, x <= self.hi))
        return Ptr(self.b.obj, self.b.off + x)
    def holds(self, x):
        if isinstance(x, PIte): return ite(x.c, self.holds(x.a), self.holds(x.b))
        if self.keep is not None and (x is self.keep or veq(x, self.keep) or isinstance(x, Undef) and isinstance(self.keep, Undef)): return TRUE
        if not isinstance(x, Ptr) or x.obj != self.b.obj: return FALSE
        d = x.off - self.b.off
        return And(d >= self.lo, d <= self.hi)

class Outcome:
    def __init__(self, label, when=TRUE, ret=ANY, sets=None, mods=None, frees=(), nomem=False, any=(), facts=(), keep=(), nul=None, extra=None, lens=None):
        self.label = label; self.when = when; self.ret = ret; self.sets = sets or {}; self.mods = mods or {}
        self.frees = list(frees); self.nomem = nomem; self.any = list(any); self.facts = facts if callable(facts) else list(facts); self.keep = list(keep)
        self.nul = nul or {}; self.extra = extra; self.placed = []; self.fams = {}   # fams: family -> fn(i): is block i still allocated afterwards; placed: (function giving a unit of memory, NewBuf it must point to, name)

class SV:
    """struct object view"""
    def __init__(self, E, obj, off, ty, name):
        self.E = E; self.obj = obj; self.off = off; self.ty = ty; self.name = name
        self.fields = E.dbg(ty); self.pre = {}
    def loc(self, f):
        if f not in self.fields: raise Unsupported("no field %s in %s" % (f, self.ty))
        return self.fields[f]
    def get(self, f):
        return self.pre.get(f) if f in self.pre else self.E.getfield(self, f)
    def __getattr__(self, f):
        if f.startswith("_"): raise AttributeError(f)
        return self.get(f)
    def __getitem__(self, f): return self.get(f)
    def __repr__(self): return self.name
    def ptr(self): return Ptr(self.obj, L(self.off))

class BV:
    """buffer view: units of width w starting at offset off of an object"""
    def __init__(self, E, obj, off, size, w, vt, name, chain, ln=None):
        self.E = E; self.obj = obj; self.off = L(off); self.size = L(size); self.w = w; self.vt = vt; self.name = name
        self.chain = chain; self.len = ln
    def old(self, k):
        """pre-state value of unit k"""
        eng = self.E.eng
        if self.chain is None: return ZERO
        if self.w == 1: return eng.rd(eng.cur, self.chain, (self.off + k,))
        u = divc(self.off, self.w)
        return eng.rd(eng.cur, self.chain, (u + k,))
    def new(self, k):
        """post-state value of unit k (in facts given as a function)"""
        eng = self.E.eng; o = self.E.st.objs[self.obj]; u = divc(self.off, self.w) if self.w > 1 else self.off
        return eng.rd(self.E.st, o.chain, (u + k,))
    def units(self): return divc(self.size, self.w) if self.w > 1 else self.size
    def ptr(self, k=0): return Ptr(self.obj, self.off + L(k) * self.w)
    def __repr__(self): return self.name

class FieldBuf:
    """the block a pointer field denotes in the post-state (facts) or at a loop head (E.inv)"""
    def __init__(self, E, sv, f, w=1): self.E = E; self.sv = sv; self.f = f; self.w = w
    def at(self, s):
        off, w, kind = self.sv.loc(self.f); c = s.objs[self.sv.obj].cells.get(self.sv.off + off)
        x = c[1] if c else None
        if isinstance(x, Lin): x = self.E.eng.int_to_ptr(s, x)
        if not isinstance(x, Ptr) or not isinstance(x.obj, int) or x.obj == 0 or not (x.off.isconst() and x.off.c == 0): raise Unsupported("block of " + self.f)
        return x.obj
    def get(self, s, k):
        o = s.objs[self.at(s)]
        if o.kind == "lazy": o = self.E.eng.shape(s, o, self.w, "i")
        if o.kind == "cells": o = self.E.eng.cells_to_plane(s, o, self.w, "i")
        if o.kind != "plane" or o.w != self.w: raise Unsupported("shape")
        x = self.E.eng.rd(s, o.chain, (L(k),))
        return self.E.eng.ptr_to_int(s, x) if isinstance(x, (Ptr, PIte)) else x
    def new(self, k): return self.get(self.E.st, k)

class Env:
    filestream = None
    def __init__(self, eng, st, mode, mod, fn, args, site=""):
        self.eng = eng; self.st = st; self.mode = mode; self.mod = mod; self.fn = fn
        self.sretn = 1 if fn.params and "sret" in fn.params[0][2] else 0
        self.args = list(args) if args is not None else [None] * len(fn.params)
        self.site = site; self.svs = []; self.bvs = []; self.hints = []
        self.verify = mode == "verify"
        self.cands = []; self.noread = False
        self.unread = ()          # fields the contract never looks at
        self.retfield = None

    # ---- helpers
    def dbg(self, ty): return self.mod.dbgfields(ty)
    def lab(self, s): return ("%s: precondition: %s" % (self.site, s))
    def pre(self, b, label="precondition"):
        """precondition"""
        if b is TRUE: return
        if self.verify: self.eng.assume(self.st, b)
        else: self.eng.prove(self.st, b, self.lab(label))
    req = pre
    def branch(self, b):
        return self.eng.branch(self.st, b)
    def isbits(self, i): return self.fn.params[i + self.sretn][1]

    def int(self, i, name=None, lo=None, hi=None):
        k = i + self.sretn
        t = self.fn.params[k][1]; nm = name or self.fn.params[k][0]
        if self.verify and self.args[k] is None:
            if t == ("i", 1): self.args[k] = fresh_b(nm)
            elif t[0] == "i": self.args[k] = fresh(nm, 0, (1 << t[1]) - 1)
            elif t[0] in ("double", "float"):
                w = 8 if t[0] == "double" else 4
                self.args[k] = Flt(fresh(nm, 0, (1 << (8 * w)) - 1), w)
            else: raise Unsupported("parameter %d is not an integer" % i)
        return self.args[k]
    def sint(self, i, name=None):
        x = self.int(i, name); t = self.fn.params[i + self.sretn][1]
        return self.eng.signed(self.st, x, t[1])
    def rawptr(self, i):
        return self.args[i + self.sretn]
    def setarg(self, i, v):
        if self.verify: self.args[i + self.sretn] = v

    # ---- structs
    def struct(self, i, ty, name=None, init=True, heap=False, arrays=(), ghosts=()):
        """arrays: array fields kept as buffers (sv.arr); ghosts: extra integer fields that only contracts write"""
        k = i + self.sretn
        nm = name or self.fn.params[k][0]
        if self.verify:
            sv = self.newstruct(ty, nm, init, heap, arrays, ghosts)
            self.args[k] = Ptr(sv.obj, ZERO)
            return sv
        return self.structat(self.args[k], ty, nm, arrays, ghosts)
    def sret(self, ty, name="result"):
        if not self.sretn: raise Unsupported("no sret")
        if self.verify:
            sv = self.newstruct(ty, name, False)
            self.args[0] = Ptr(sv.obj, ZERO)
            return sv
        return self.structat(self.args[0], ty, name)
    def parts(self, sv, arrays, ghosts):
        """array fields become objects of their own"""
        sv.arr = {}; sv.fields = dict(sv.fields)
        if not arrays and not ghosts: return
        o = self.st.objs[sv.obj]
        for a in arrays:
            el = sorted((off, w, k) for f, (off, w, k) in sv.fields.items() if f.startswith(a + "["))
            for f in [f for f in sv.fields if f.startswith(a + "[")]: del sv.fields[f]
            lo = sv.off + el[0][0]; w = el[0][1]; hi = lo + len(el) * w
            i = next((i for l, h, i in o.sub if l == lo), None)
            if i is None:
                if any(q < hi and lo < q + c[0] for q, c in o.cells.items()): raise Unsupported("array field already used")
                p = self.eng.new_obj(self.st, sv.name + "." + a, hi - lo, "plane", False, born=o.born); p.w = w; p.vt = "i"
                if self.verify: uf = fresh_uf(p.name, 1, 0, (1 << (8 * w)) - 1); p.chain = Base(lambda i, uf=uf: uf(i), uf.name)
                else: p.chain = Base(lambda i: ZERO, "zero") if o.zero else self.eng.undef_chain(self.st, p.name, w, "i")
                o = self.eng.wobj(self.st, sv.obj); o.sub = tuple(o.sub) + ((lo, hi, p.id),); i = p.id
            b = BV(self, i, 0, hi - lo, w, "i", sv.name + "." + a, self.st.objs[i].chain); self.bvs.append(b); sv.arr[a] = b
        for j, g in enumerate(ghosts): sv.fields[g] = ((1 << 20) + 8 * j, 8, "i")
    def newstruct(self, ty, name, init=True, heap=False, arrays=(), ghosts=()):
        n = self.mod.size(("named", "struct." + ty)) if ("struct." + ty) in self.mod.structs else self.mod.size(("named", "union." + ty)) if ("union." + ty) in self.mod.structs else self.mod.dbgsize(ty)
        o = self.eng.new_obj(self.st, name, n, "cells", heap=heap, born="entry")
        sv = SV(self, o.id, 0, ty, name); self.svs.append(sv); self.parts(sv, arrays, ghosts); o = self.eng.wobj(self.st, o.id)
        if init:
            for f, (off, w, kind) in sv.fields.items():
                if kind == "i": o.cells[off] = (w, fresh("%s.%s" % (name, f), 0, (1 << (8 * w)) - 1))
                elif kind == "f": o.cells[off] = (w, Flt(fresh("%s.%s" % (name, f), 0, (1 << (8 * w)) - 1), w))
        return sv
    def structat(self, p, ty, name, arrays=(), ghosts=()):
        p = self.eng.concrete(self.st, p)
        if isinstance(p, Ptr) and isinstance(p.obj, int):
            if p.obj == 0: self.eng.prove(self.st, FALSE, self.lab("%s is not null" % name)); raise Infeasible()
            o = self.st.objs[p.obj]
            if not o.live: self.eng.prove(self.st, FALSE, self.lab("%s is live" % name)); raise Infeasible()
            if o.kind == "lazy": o = self.eng.wobj(self.st, o.id); o.kind = "cells"
            if o.kind != "cells" or not p.off.isconst(): raise Unsupported("struct argument %s inside an array" % name)
            n = self.mod.size(("named", "struct." + ty)) if ("struct." + ty) in self.mod.structs else 0
            self.eng.prove(self.st, L(p.off) + n <= o.size, self.lab("%s has the size of struct %s" % (name, ty)))
            sv = SV(self, p.obj, p.off.c, ty, name); self.svs.append(sv); self.parts(sv, arrays, ghosts)
            for f, (off, w, kind) in sv.fields.items():
                if f in self.unread: continue
                v = self.eng.cell_get(self.st, self.st.objs[p.obj], p.off.c + off, w, "p" if kind == "p" else "f" if kind == "f" else "i") if not self.noread else None
                if isinstance(v, Lin) and kind == "p": v = self.eng.int_to_ptr(self.st, v)
                if isinstance(v, Ptr) and kind == "i": v = self.eng.ptr_to_int(self.st, v)
                sv.pre[f] = v
            return sv
        raise Unsupported("struct argument %s" % name)
    def getfield(self, sv, f):
        off, w, kind = sv.loc(f)
        c = self.pst().objs[sv.obj].cells.get(sv.off + off)
        return c[1] if c else UNDEF
    def getfield_now(self, sv, f):
        """value of a field in the current (post) state"""
        off, w, kind = sv.loc(f); o = self.st.objs[sv.obj]
        x = self.eng.cell_get(self.st, o, sv.off + off, w, kind)
        return x.bits if isinstance(x, Flt) else x
    def setfield(self, sv, f, v):
        """pre-state definition of a field (verify)"""
        off, w, kind = sv.loc(f)
        o = self.eng.wobj(self.st, sv.obj); o.cells[sv.off + off] = (w, v)
    def alias(self, i, j):
        """do pointer parameters i and j denote the same object? (both cases are verified)"""
        if self.verify:
            return self.eng.choose(self.st, [(False, TRUE), (True, TRUE)])
        p, q = self.args[i + self.sretn], self.args[j + self.sretn]
        return self.branch(self.eng.ptr_eq(self.st, p, q))
    def samearg(self, i, j):
        if self.verify: self.args[i + self.sretn] = self.args[j + self.sretn]

    def fam(self, name, live, size=None):
        """a family of separate heap blocks numbered 0, 1, ...; block i is allocated when live(i). Returns the address of block i."""
        if not self.verify: raise Unsupported("family outside verification")
        uf = fresh_uf("size_" + name, 1, 0, MAXOBJ); name = "%s!%d" % (name, len(self.st.fams))
        f = Fam(name, size or (lambda i: uf(i))); f.live = Base(lambda i: b2i(live(i)), "live")
        by = fresh_uf("bytes_" + name, 2, 0, 255); f.chain = Base(lambda i, k: by(i, k), "content")
        self.st.fams[name] = f
        return name, lambda i: self.eng.addr(self.st, FamRef(name, L(i)))
    # ---- buffers
    def isnull(self, sv, f):
        if self.verify:
            if self.eng.choose(self.st, [(False, TRUE), (True, TRUE)]):
                self.setfield(sv, f, NULLP); return True
            return False
        return self.branch(self.eng.ptr_eq(self.st, sv.get(f), NULLP))
    def null_arg(self, i):
        if self.verify:
            if self.eng.choose(self.st, [(False, TRUE), (True, TRUE)]):
                self.args[i + self.sretn] = NULLP; return True
            return False
        return self.branch(self.eng.ptr_eq(self.st, self.args[i + self.sretn], NULLP))
    def buf(self, sv, f, size, w=1, vt="i", heap=True, name=None, nul=(), exact=True):
        """the field points to the start of a block of `size` bytes (verify: exactly; call: at least, or exactly)"""
        nm = name or "%s.%s" % (sv.name, f)
        if self.verify:
            o = self.eng.new_plane(self.st, nm, size, w, vt, heap=heap)
            o.nul = tuple(L(z) for z in nul)
            self.setfield(sv, f, Ptr(o.id, ZERO))
            b = BV(self, o.id, 0, size, w, vt, nm, o.chain); self.bvs.append(b)
            return b
        return self.bufat(sv.get(f), size, w, vt, heap, nm, exact, True)
    def bufat(self, p, size, w, vt, heap, nm, exact, start):
        eng, st = self.eng, self.st
        p = eng.concrete(st, p)
        if not isinstance(p.obj, int):
            f = st.fams[p.obj.fam]
            eng.chk(st, p, size, self.lab("%s accessible" % nm))
            raise Unsupported("buffer argument in a family")
        if p.obj == 0:
            if not (L(size).isconst() and L(size).c == 0): eng.prove(st, eq(size, 0), self.lab("%s is not null" % nm))
            return BV(self, 0, 0, 0, w, vt, nm, None)
        o = st.objs[p.obj]
        if not o.live: eng.prove(st, FALSE, self.lab("%s is live" % nm)); raise Infeasible()
        if start:
            eng.prove(st, eq(p.off, 0), self.lab("%s is the start of a block" % nm))
            if heap: eng.prove(st, mkb(o.heap), self.lab("%s is a heap block" % nm))
        eng.prove(st, And(p.off >= 0, p.off + size <= o.size), self.lab("%s has the required size" % nm))
        if o.kind == "lazy": o = eng.shape(st, o, w, vt)
        if o.kind == "cells": o = eng.cells_to_plane(st, o, w, vt)
        if o.w != w: raise Unsupported("unit width of %s" % nm)
        b = BV(self, p.obj, p.off, size, w, vt, nm, o.chain); self.bvs.append(b)
        return b
    def buf_arg(self, i, size, w=1, vt="i", name=None, ro=False, nul=(), heap=False):
        """pointer parameter to `size` accessible bytes"""
        k = i + self.sretn; nm = name or self.fn.params[k][0]
        if self.verify:
            o = self.eng.new_plane(self.st, nm, size, w, vt, heap=heap)
            o.ro = False; o.nul = tuple(L(z) for z in nul)
            self.args[k] = Ptr(o.id, ZERO)
            b = BV(self, o.id, 0, size, w, vt, nm, o.chain); self.bvs.append(b)
            return b
        return self.bufat(self.args[k], size, w, vt, False, nm, False, False)
    def cstr_arg(self, i, name=None, cap=None):
        """pointer parameter to a zero-terminated string"""
        k = i + self.sretn; nm = name or self.fn.params[k][0]
        if self.verify:
            n = fresh("len_" + nm, 0, MAXOBJ - 1)
            o = self.eng.new_plane(self.st, nm, n + 1 if cap is None else cap, 1, "i", heap=False)
            o.nul = (n,)
            ch = o.chain; uf = o.ext
            self.eng.assume(self.st, eq(uf(n), 0))
            self.st.facts.append(forall(lambda j: Or(j < 0, j >= n, ne(uf(j), 0)), "string " + nm))
            self.args[k] = Ptr(o.id, ZERO)
            b = BV(self, o.id, 0, n + 1, 1, "i", nm, ch, n); self.bvs.append(b)
            return b
        p = self.eng.concrete(self.st, self.args[k])
        if p.obj == 0: self.eng.prove(self.st, FALSE, self.lab("%s is not null" % nm)); raise Infeasible()
        n = self.eng.strlen_val(self.st, p, self.lab(nm))
        b = self.bufat(self.args[k], n + 1, 1, "i", False, nm, False, False)
        b.len = n
        return b
    # ---- linked nodes (functions on links are always inlined at call sites; these run in the verify role only)
    def opaque(self, name):
        o = self.eng.new_plane(self.st, name, 8, 1, "i", heap=False)
        return Ptr(o.id, ZERO)
    def named_file(self, i):
        """argument i names a file: (a condition: it can be opened; the stream this gives). The function has to close what it opens"""
        if not self.verify: raise Unsupported("a file name at a call site")
        self.cstr_arg(i); f = self.opaque("file"); self.st.objs[f.obj].live = False
        there = eq(fresh("there", 0, 1), 1); self.filestream = (f, there)
        return there, f.obj, lambda: [mkb(not self.st.objs[f.obj].live)]
    def node(self, ty, name, i=None, **fields):
        if not self.verify: raise Unsupported("node outside verification")
        sv = self.newstruct(ty, name, False)
        for f, v in fields.items(): self.setfield(sv, f, v.ptr() if isinstance(v, SV) else v)
        if i is not None: self.args[i + self.sretn] = sv.ptr()
        return sv
    def pcell(self, i, v, name=None):
        c = self.cell_arg(i, 8, "p", name, init=False)
        self.eng.wobj(self.st, c.obj).cells[0] = (8, v.ptr() if isinstance(v, SV) else v)
        return c
    def pick(self, *vals):
        return self.eng.choose(self.st, [(v, TRUE) for v in vals])

    def pure_arg(self, i, lo=0, hi=1):
        """function pointer parameter: any function without effects"""
        if self.verify:
            k = i + self.sretn; nm = self.fn.params[k][0]
            self.args[k] = PureFn(nm, fresh_uf(nm, 1, lo, hi))
    def ptr_arg(self, i, size=None, name=None):
        """pointer parameter that is only stored or compared (any object)"""
        k = i + self.sretn; nm = name or self.fn.params[k][0]
        if self.verify:
            o = self.eng.new_plane(self.st, nm, fresh("size_" + nm, 0, MAXOBJ) if size is None else size, 1, "i", heap=False)
            self.args[k] = Ptr(o.id, ZERO)
        return self.args[k]
    def cell_arg(self, i, w=8, kind="i", name=None, init=True):
        """pointer parameter to one scalar"""
        k = i + self.sretn; nm = name or self.fn.params[k][0]
        if self.verify:
            o = self.eng.new_obj(self.st, nm, w, "cells", born="entry")
            if kind == "i" and init: o.cells[0] = (w, fresh("*" + nm, 0, (1 << (8 * w)) - 1))
            self.args[k] = Ptr(o.id, ZERO)
            c = Cell(self, o.id, 0, w, nm); self.svs.append(c)
            return c
        p = self.eng.concrete(self.st, self.args[k])
        if not isinstance(p.obj, int) or p.obj == 0 : raise Unsupported("scalar argument " + nm)
        o = self.st.objs[p.obj]
        self.eng.chk(self.st, p, w, self.lab(nm), True)
        if o.kind == "lazy": o = self.eng.wobj(self.st, o.id); o.kind = "cells"
        if o.kind != "cells" or not p.off.isconst(): raise Unsupported("scalar argument " + nm)
        c = Cell(self, p.obj, p.off.c, w, nm)
        x = o.cells.get(p.off.c)
        c.val = x[1] if x else UNDEF
        self.svs.append(c)
        return c
    def memeq(self, p, q, n):
        """bytes [p,p+n) == [q,q+n) in the pre-state"""
        return Or(eq(n, 0), self.eng.memeq(self.pst(), p, q, n))
    def keyed(self, key, name, make):
        t = self.eng.__dict__.setdefault("keyedtab", {}); k = (name,) + tuple(lk(x) if isinstance(x, Lin) else x for x in key)
        if k not in t: t[k] = make()
        return t[k]
    def rec(self, name, base, step, lo=0, hi=None, key=None):
        """ghost function C with C(0) = base and C(j+1) = step(C(j), j); loops may relate a variable to it.
        key: what it is a function of (contracts that name the same things talk of the same function)"""
        uf = fresh_uf(name, 1, lo, hi) if key is None else self.keyed(key, name, lambda: fresh_uf(name, 1, lo, hi))
        ax = Forall([(uf.name, lambda x: (x,)), (uf.name, lambda x: (x - 1,))], lambda j: Or(L(j) < 0, eq(uf(L(j) + 1), step(uf(j), L(j)))), name)
        self.st.facts += [eq(uf(0), base), ax]
        if self.verify:
            from .loops import Cand, _scalar
            def cands(lc):
                out = []; ints = [(k, v) for k, v in lc.mods.items() if v.kind == "i"]
                for k, v in lc.mods.items():
                    if v.kind != "p" or v.mode != "gen" or not isinstance(v.v0, Ptr): continue
                    for e in (0, 1):
                        def fn(vals, it, k=k, v0=v.v0, e=e):
                            x = vals[k]
                            return eq(x.off + uf(L(e)), v0.off + uf(it + e)) if isinstance(x, Ptr) and same_obj(x.obj, v0.obj) else None
                        out.append(Cand(fn, "%s moves on like %s(iteration%s)" % (v.name, name, " + 1" if e else "")))
                for k, v in ints:
                    if v.mode != "gen" or v.v0 is None: continue
                    ixs = [(None, "iteration")] + [(k2, v2.name) for k2, v2 in ints if k2 != k]
                    for k2, n2 in ixs:
                        def fn(vals, it, k=k, k2=k2):
                            x = vals[k]; y = it if k2 is None else vals[k2]
                            if isinstance(x, Lin) and isinstance(y, Lin): return eq(x, uf(y))
                            return None
                        out.append(Cand(fn, "%s = %s(%s)" % (v.name, name, n2)))
                        if base is ZERO and v.v0 is not ZERO and isinstance(v.v0, Lin):
                            def fn(vals, it, k=k, k2=k2, v0=v.v0):
                                x = vals[k]; y = it if k2 is None else vals[k2]
                                return eq(x + uf(y), v0) if isinstance(x, Lin) and isinstance(y, Lin) else None
                            out.append(Cand(fn, "%s = initial - %s(%s)" % (v.name, name, n2)))
                        y0 = None if k2 is None else dict(ints)[k2].v0
                        if isinstance(v.v0, Lin) and isinstance(y0, Lin) and not y0.same(ZERO):
                            def fn(vals, it, k=k, k2=k2, v0=v.v0, y0=y0):     # counting down from the end
                                x = vals[k]; y = vals[k2]
                                return eq(x + uf(y), v0 + uf(y0)) if isinstance(x, Lin) and isinstance(y, Lin) else None
                            out.append(Cand(fn, "%s + %s(%s) constant" % (v.name, name, n2)))
                return out
            self.cands.append(cands)
        return uf
    def inv(self, label, body, trig=True, slow=False):
        """candidate loop invariant: for all k, body(cur, it, k), where cur(buffer, k) is the content at the loop head"""
        if not self.verify: return
        from .loops import Cand
        def cands(lc):
            def sfn(s, vals, it):
                eng = self.eng
                def cur(b, k):
                    if isinstance(b, FieldBuf): return b.get(s, k)
                    o = s.objs[b.obj]
                    if o.kind != "plane": raise Unsupported("shape")
                    old = eng.cur; eng.cur = s
                    try: return eng.rd(s, o.chain, ((divc(b.off, b.w) if b.w > 1 else b.off) + k,))
                    finally: eng.cur = old
                try:
                    f = forall(lambda k: body(cur, it, k), label)
                    if isinstance(f, Forall): f = Forall([t for t in f.trigs if t[0].startswith("M_")] if trig else [], f.fn, label); f.slow = slow
                    return f
                except Unsupported: return None
            return [Cand(None, label, sfn)]
        self.cands.append(cands)
    def newinv(self, label, body, w=1):
        """candidate loop invariant about a block (of w-byte units) made since the call: for all k, body(content at the loop head, it, k)"""
        if not self.verify: return
        from .loops import Cand
        def cands(lc):
            out = []
            for key in lc.planes:
                if key[0] != "plane" or key[1] in self.prestate.objs: continue
                oid = key[1]
                def sfn(s, vals, it, oid=oid):
                    eng = self.eng; o = s.objs.get(oid)
                    if o is None or o.kind != "plane" or o.w != w: return None
                    def cur(k):
                        old = eng.cur; eng.cur = s
                        try: return eng.rd(s, s.objs[oid].chain, (k,))
                        finally: eng.cur = old
                    f = forall(lambda k: body(cur, it, k), label)
                    if isinstance(f, Forall): f.trigs = [t for t in f.trigs if t[0].startswith("M_")]
                    return f
                out.append(Cand(None, label, sfn))
            return out
        self.cands.append(cands)
    def case(self, *conds):
        """the contract is verified separately for each of these cases (contract option cases=number); they cover everything.
        Returns the number of the case."""
        if not self.verify:
            return self.eng.choose(self.st, [(i, c) for i, c in enumerate(conds)])
        i = self.eng.opts.get("case")
        if i is None: i = self.eng.choose(self.st, [(i, TRUE) for i in range(len(conds))])
        elif i == 0: self.eng.prove(self.st, Or(*conds), "the cases cover everything")
        self.eng.assume(self.st, conds[i]); return i
    def induct(self, label, body, upto, uniform=False):
        """ghost lemma by induction: body(k, 0) and body(k, j) -> body(k, j + 1) for all k and j in [0, upto);
        gives body(k, upto) for all k, or, when the body does not mention k (uniform), body(j) for all j in [0, upto]"""
        if uniform: body = (lambda b: lambda k, j: b(j))(body)
        if self.verify:
            k, j = fresh("k"), fresh("j", 0)
            s = self.st.clone(); s.hints = list(s.hints) + [k, j, L(0)]
            self.eng.prove(s, body(k, L(0)), "lemma %s: base" % label)
            s = self.st.clone(); s.hints = list(s.hints) + [k, j, j + 1]; s.facts += [j < upto, body(k, j)]
            self.eng.prove(s, body(k, j + 1), "lemma %s: step" % label)
        if uniform: self.st.facts.append(forall(lambda j: Or(j < 0, j > upto, body(None, j)), label))
        else: self.st.facts.append(forall(lambda k: body(k, L(upto)), label))
    def lemma(self, label, body):
        """body(k) for all k, proved here from the facts so far"""
        if self.verify:
            k = fresh("k"); s = self.st.clone(); s.hints = list(s.hints) + [k]
            self.eng.prove(s, body(k), "lemma %s" % label)
        self.st.facts.append(forall(body, label))
    def linv(self, label, body):
        """candidate loop invariant about the iteration count: body(it)"""
        if not self.verify: return
        from .loops import Cand
        self.cands.append(lambda lc: [Cand(lambda vals, it: body(it), label)])
    def sinv(self, label, body):
        """candidate loop invariant on the state: body(get, it), get(struct, field) and get(buffer, unit) give the content at the loop head"""
        if not self.verify: return
        from .loops import Cand
        def sfn(s, vals, it):
            eng = self.eng
            def get(b, k):
                if isinstance(b, SV):
                    off, w, kind = b.loc(k); x = vals.get(("cell", b.obj, b.off + off, w))
                    if x is None: c = s.objs[b.obj].cells.get(b.off + off); x = c[1] if c and c[0] == w else UNDEF
                    if isinstance(x, Flt): x = x.bits
                    if not isinstance(x, (Lin, B)): raise Unsupported("shape")
                    return x
                o = s.objs[b.obj]; old = eng.cur; eng.cur = s
                if o.kind != "plane": raise Unsupported("shape")
                try: return eng.rd(s, o.chain, ((divc(b.off, b.w) if b.w > 1 else b.off) + k,))
                finally: eng.cur = old
            try: return body(get, it)
            except Unsupported: return None
        self.cands.append(lambda lc: [Cand(None, label, sfn)])
    def vinv(self, label, kind, body):
        """candidate loop invariant about each variable of a kind: body(get, value, it)"""
        if not self.verify: return
        from .loops import Cand
        def cands(lc):
            out = []
            for k, lv in lc.mods.items():
                if lv.kind != kind: continue
                def sfn(s, vals, it, k=k):
                    def get(b, f):
                        off, w, kd = b.loc(f); x = vals.get(("cell", b.obj, b.off + off, w))
                        if x is None: c = s.objs[b.obj].cells.get(b.off + off); x = c[1] if c and c[0] == w else UNDEF
                        if not isinstance(x, (Lin, B)): raise Unsupported("shape")
                        return x
                    x = vals[k]
                    x = x.bits if isinstance(x, Flt) else x
                    if not isinstance(x, (Lin, B)): return None
                    try: return body(get, x, it)
                    except Unsupported: return None
                out.append(Cand(None, "%s %s" % (lv.name, label), sfn))
            return out
        self.cands.append(cands)
    def ptrinv(self, label, ptr):
        """candidate loop invariant: a pointer variable equals ptr(it)"""
        if not self.verify: return
        from .loops import Cand
        def cands(lc):
            out = []
            for k, lv in lc.mods.items():
                if lv.kind != "p" or lv.mode != "gen": continue
                def fn(vals, it, k=k):
                    x = vals[k]
                    return self.eng.ptr_eq(lc.S, x, ptr(it)) if isinstance(x, (Ptr, PIte)) else None
                out.append(Cand(fn, "%s %s" % (lv.name, label)))
            return out
        self.cands.append(cands)
    def least(self, name, lo, hi, pred, key=None):
        """ghost: the first j in [lo, hi) with pred(j), or max(lo, hi) when there is none (always exists)"""
        m = L(lo).c if L(lo).isconst() else None
        f = fresh(name, m) if key is None else self.keyed(key, name, lambda: fresh(name, m))
        self.st.facts += [f >= lo, f <= ite(L(lo) < hi, hi, lo), Or(f >= hi, pred(f)), forall(lambda j: Or(j < lo, j >= f, Not(pred(j))), name)]
        if self.verify:
            from .loops import Cand
            def cands(lc):
                out = []; ints = [(k, v) for k, v in lc.mods.items() if v.kind in ("i", "b")]
                for k, v in ints:
                    if v.mode != "gen" or v.v0 is None: continue
                    if v.bits > 8:
                        if v.kind == "i" and isinstance(v.v0, Lin) and v.v0.isconst():
                            for k2, n2 in [(k2, v2.name) for k2, v2 in ints if k2 != k and v2.bits > 8]:
                                def fn(vals, it, k=k, k2=k2, c=v.v0):
                                    x = vals[k]; y = vals[k2]
                                    if not (isinstance(x, Lin) and isinstance(y, Lin)): return None
                                    seen = And(f < y, f < hi); return And(Or(Not(seen), eq(x, f)), Or(seen, eq(x, c)))
                                out.append(Cand(fn, "%s is the %s once %s has passed it" % (v.name, name, n2)))
                        if v.kind == "i" and isinstance(v.v0, Lin) and v.v0.isconst() and v.v0.c == 0:
                            def fn(vals, it, k=k):
                                x = vals[k]
                                seen = And(f < it, f < hi); return And(Or(Not(seen), And(x >= 1, x <= it)), Or(seen, eq(x, 0))) if isinstance(x, Lin) else None
                            out.append(Cand(fn, "%s counts from the first %s on" % (v.name, name)))
                        continue
                    for k2, n2 in [(None, "iteration")] + [(k2, v2.name) for k2, v2 in ints if k2 != k and v2.bits > 8]:
                        def fn(vals, it, k=k, k2=k2):
                            x = vals[k]; y = it if k2 is None else vals[k2]
                            if not isinstance(y, Lin): return None
                            seen = And(f < y, f < hi)
                            if isinstance(x, B): return iff(x, seen)
                            return Or(And(eq(x, 0), Not(seen)), And(eq(x, 1), seen)) if isinstance(x, Lin) else None
                        out.append(Cand(fn, "%s tells whether %s was met before %s" % (v.name, name, n2)))
                return out
            self.cands.append(cands)
        return f
    def pst(self):
        return self.prestate if self.verify and self.prestate is not None else self.st
    prestate = None

    # ---- call side
    def take(self, outs):
        eng, st = self.eng, self.st
        opts = []
        for o in outs:
            opts.append((o, o.when))
        o = eng.choose(st, opts) if len(outs) > 1 else outs[0]
        if len(outs) == 1: eng.assume(st, o.when)
        if o.nomem: st.tag = "nomem"
        if callable(o.extra): o.extra(self)
        for f in o.facts if not callable(o.facts) else ():
            st.facts.append(f) if isinstance(f, Forall) else eng.assume(st, f)
        eng.cur = st
        dead = []
        # contents first (they read the pre-state chains)
        for b, fn in o.mods.items():
            if isinstance(b, BV):
                if b.obj == 0: continue
                w = b.w; u = divc(b.off, w) if w > 1 else b.off; n = b.units()
                if n.isconst() and n.c == 0: continue
                ob = eng.wobj(st, b.obj)
                if fn is None:
                    ch = eng.undef_chain(st, b.name, w, b.vt)
                    ob.chain = RngW(ob.chain, (), u, u + n, ch.fn, "havoc")
                else:
                    ob.chain = RngW(ob.chain, (), u, u + n, (lambda fn, u: lambda k: fn(k - u))(fn, u), "contract")
                ob.nul = tuple(L(z) + b.off for z in o.nul.get(b, ()))
                eng.note_write(st, b.obj)
        for key, v in o.sets.items():
            sv, f = key if isinstance(key, tuple) else (key, None)
            if isinstance(v, NewBuf):
                p = self.mkbuf(v)
                if v.old is not None and v.old.obj: 
                    od = eng.wobj(st, v.old.obj); od.live = False; eng.note_write(st, od.id, "live")
                v = p
            off, w = self.slot(sv, f)
            if isinstance(v, In): v = v.fresh(self)
            if v is ANY:
                kind = "i" if f is None else sv.loc(f)[2]
                v = UNDEF if kind == "p" else fresh("any", 0, (1 << (8 * w)) - 1)
                if kind == "f": v = Flt(v, w)
            eng.cell_set(st, st.objs[sv.obj], off, w, v)
        for b in o.frees:
            if b.obj == 0: continue
            od = eng.wobj(st, b.obj); od.live = False; eng.note_write(st, od.id, "live")
        if o.placed: raise Unsupported("call to a contract that places blocks")
        for name, fn in o.fams.items():
            g = st.fams[name].copy(); st.fams[name] = g; g.live = Base((lambda fn: lambda i: b2i(fn(i)))(fn), "live")
        if callable(o.facts):
            eng.cur = st
            for f in o.facts(): st.facts.append(f) if isinstance(f, Forall) else eng.assume(st, f)
        r = o.ret
        if isinstance(r, NewBuf): r = self.mkbuf(r)
        if isinstance(r, In): r = r.fresh(self)
        if isinstance(r, tuple):
            from .exec import Agg
            return Agg([self.mkbuf(x) if isinstance(x, NewBuf) else x for x in r], self.fn.ret)
        if r is ANY:
            return self.eng.undef_of(self.fn.ret) if self.fn.ret[0] != "void" else None
        if callable(r) and not isinstance(r, (Lin, B)):
            x = self.eng.undef_of(self.fn.ret)
            b, fa = retparts(r, x)
            eng.assume(st, b); st.facts += fa; r = x
        return r
    def slot(self, sv, f):
        if isinstance(sv, Cell): return sv.off, sv.w
        off, w, kind = sv.loc(f)
        return sv.off + off, w
    def mkbuf(self, v):
        eng, st = self.eng, self.st
        if v.struct is not None:
            o = eng.new_obj(st, v.name, v.size, "cells", heap=True, born="alloc")
            fl = self.dbg(v.struct)
            for f, x in v.cells.items():
                if isinstance(x, NewBuf): x = self.mkbuf(x)
                off, w, kind = fl[f]
                o.cells[off] = (w, x)
            return Ptr(o.id, ZERO)
        size = v.size
        if v.atleast: size = fresh("size_" + v.name, 0, MAXOBJ); eng.assume(st, size >= v.size)
        o = eng.new_obj(st, v.name, size, "plane", heap=True, born="alloc")
        o.w = v.w; o.vt = v.vt; o.nul = tuple(L(z) for z in v.nul)
        fn = v.fn
        o.chain = Base(fn, "contract") if fn is not None else eng.undef_chain(st, v.name, v.w, v.vt)
        return Ptr(o.id, ZERO)

class Cell:
    def __init__(self, E, obj, off, w, name): self.E = E; self.obj = obj; self.off = off; self.w = w; self.name = name; self.val = None
    def old(self):
        if self.val is not None: return self.val
        c = self.E.pst().objs[self.obj].cells.get(self.off)
        self.val = c[1] if c else UNDEF
        return self.val
    def ptr(self): return Ptr(self.obj, L(self.off))

# ------------------------------------------------------------------ verification of one function
class Verifier:
    def __init__(self, eng, con, mod, fn):
        self.eng = eng; self.con = con; self.mod = mod; self.fn = fn
        self.reached = {}

    def run(self):
        eng = self.eng; con = self.con
        eng.fname = con.name; eng.noctr = con.name if not con.opts.get("recursive") else None
        st = new_state()
        pres = eng.forks(st, self.setup)
        if not pres: eng.fail(st, "%s: precondition satisfiable" % con.name, "no feasible pre-state")
        for s, (E, outs) in pres:
            # note: E.st is the state object the spec ran on
            E.prestate = s.clone()
            s.frames = []; s.choices = (); s.cpos = 0
            for o in outs: self.reached.setdefault(o.label, False)
            eng.E = E
            eng.push(s, self.fn, self.mod, E.args, None, getattr(E, "extra_args", ()))
            n = 0
            for r in eng.explore([s]):
                n += 1; eng.returns += 1
                self.check(E, outs, r[1], r[2])
            lab = "%s: some execution returns" % con.name
            if n == 0 and not con.opts.get("noreturn"): eng.fail(s, lab, "every path is infeasible (vacuous)")
            else: eng.prove(s, TRUE, lab)

    def setup(self, st):
        E = Env(self.eng, st, "verify", self.mod, self.fn, None)
        outs = self.con.fn(E)
        for k, a in enumerate(E.args):
            if a is None: raise Unsupported("contract of %s leaves parameter %d undefined" % (self.con.name, k))
        return (E, outs)

    def retmatch(self, E, R, o, ret):
        r = o.ret
        if r is ANY: return TRUE
        if isinstance(r, tuple):
            return And(*[self.onematch(E, R, x, y) for x, y in zip(r, ret.es)])
        return self.onematch(E, R, r, ret)

    def onematch(self, E, R, r, ret):
        if r is ANY: return TRUE
        if isinstance(r, In): return r.holds(ret)
        if isinstance(r, NewBuf):
            c = Not(self.eng.ptr_eq(R, ret, NULLP))
            if r.struct is not None and isinstance(ret, Ptr) and isinstance(ret.obj, int) and ret.obj:
                fl = E.dbg(r.struct); ob = R.objs[ret.obj]
                for f, v in r.cells.items():
                    off, w, kind = fl[f]
                    x = ob.cells.get(off) if ob.kind == "cells" else None
                    if x is None and ob.zero and ob.kind in ("cells", "lazy"): x = (w, NULLP if kind == "p" else ZERO)
                    if x is None or x[0] != w: continue
                    if isinstance(v, NewBuf): c = And(c, self.onematch(E, R, v, x[1]))
                    elif isinstance(v, (Lin, B)) or v is NULLP: c = And(c, self.valeq(R, x[1], v))
            return c
        if callable(r) and not isinstance(r, (Lin, B)): return retparts(r, ret)[0]
        if isinstance(r, (Ptr, PIte)):
            return self.eng.ptr_eq(R, ret, r)
        if isinstance(r, Flt): return eq(ret.bits, r.bits)
        if isinstance(r, B) or isinstance(ret, B):
            a = ret if isinstance(ret, B) else i2b(ret); b = r if isinstance(r, B) else i2b(r)
            return iff(a, b)
        return eq(ret, r)

    def setmatch(self, E, R, o):
        """the scalar slots of the outcome have their values (to tell overlapping outcomes apart)"""
        cs = []
        for key in o.rebuilds:
            v = o.sets.get(key)
            sv, f = key; off, w = E.slot(sv, f); c = R.objs[sv.obj].cells.get(off) if R.objs[sv.obj].kind == "cells" else None
            if c is None or c[0] != w or not isinstance(c[1], (Ptr, PIte)): continue
            if isinstance(v, NewBuf):
                if isinstance(c[1], Ptr): cs.append(mkb(c[1].obj not in E.prestate.objs and c[1].obj != 0))
            elif v is None: cs.append(self.eng.ptr_eq(R, c[1], E.prestate.objs[sv.obj].cells[off][1]) if E.prestate.objs[sv.obj].cells.get(off) else TRUE)
        for key, v in o.sets.items():
            if not isinstance(v, (Lin, B, int)): continue
            sv, f = key if isinstance(key, tuple) else (key, None)
            off, w = E.slot(sv, f)
            ob = R.objs[sv.obj]
            c = ob.cells.get(off) if ob.kind == "cells" else None
            if c is not None and c[0] == w and isinstance(c[1], (Lin, B)): cs.append(self.valeq(R, c[1], v if not isinstance(v, int) else L(v)))
        return And(*cs)

    def check(self, E, outs, R, ret):
        eng = self.eng
        E.st = R
        eng.cur = R
        if isinstance(ret, PIte):
            # resolve pointer results by cases
            for s, v in eng.forks(R, lambda s: eng.concrete(s, ret)):
                self.check(E, outs, s, v)
            return
        cand = []
        nomem = R.tag == "nomem"
        rebuilds = {key for o in outs for key, v in o.sets.items() if isinstance(v, NewBuf) and isinstance(key, tuple)}
        for o in outs: o.rebuilds = rebuilds
        for o in outs:
            if o.nomem and not nomem: continue
            same = sum(1 for p in outs if p is not o and (not p.nomem or nomem) and eng.feasible(R, And(o.when, p.when)))
            c = o.when
            if same: c = And(c, self.retmatch(E, R, o, ret), self.setmatch(E, R, o))
            cand.append((o, c))
        lab = "post: some specified outcome applies"
        eng.prove(R, Or(*[c for _, c in cand]), lab, "return value %r; outcomes %s" % (ret, [(o.label, c) for o, c in cand]))
        for o, c in cand:
            if c is FALSE or not eng.feasible(R, c): continue
            s = R.clone()
            try:
                eng.assume(s, c)
                self.effects(E, o, s, ret)
            except Infeasible: pass
            self.reached[o.label] = True

    def prove(self, s, b, o, what, detail=None):
        self.eng.prove(s, b, "post[%s]: %s" % (o.label, what), detail)

    def effects(self, E, o, R, ret):
        eng = self.eng; P0 = E.prestate
        eng.cur = R; E.st = R
        R.hints = list(R.hints) + list(E.hints)
        if callable(o.extra): o.extra(E)
        consumed = set(); R = R
        m = self.retmatch(E, R, o, ret)
        self.prove(R, m, o, "return value", "returned %r" % (ret,))
        for k, f in enumerate(o.facts() if callable(o.facts) else o.facts):
            self.prove_fact(R, f, o, "fact %d" % k)
        if callable(o.ret) and not isinstance(o.ret, (Lin, B)):
            for f in retparts(o.ret, ret)[1]: self.prove_fact(R, f, o, "property of the return value")
        if isinstance(o.ret, NewBuf):
            self.consume(E, o, R, ret, o.ret, "returned block", consumed)
        if isinstance(o.ret, tuple):
            for k, (x, y) in enumerate(zip(o.ret, ret.es)):
                if isinstance(x, NewBuf): self.consume(E, o, R, y, x, "returned block (member %d)" % k, consumed)
        # slots
        setmap = {}
        for key, v in o.sets.items():
            sv, f = key if isinstance(key, tuple) else (key, None)
            off, w = E.slot(sv, f)
            setmap[(sv.obj, off)] = (w, v, "%s.%s" % (sv.name, f) if f else "*" + sv.name)
        anyobj = {x.obj for x in o.any}
        modmap = {}
        for b, fn in o.mods.items():
            if b.obj: modmap.setdefault(b.obj, []).append((b, fn))
        freed = {b.obj for b in o.frees}
        released = set()
        for (obj, off), (w, v, nm) in setmap.items():
            ob = R.objs[obj]
            if not ob.live: self.prove(R, FALSE, o, "%s still exists" % nm); continue
            c = ob.cells.get(off)
            x = c[1] if c is not None and c[0] == w else UNDEF if isinstance(v, In) else eng.cell_get(R, ob, off, w, "i") if not isinstance(v, (Ptr, PIte, NewBuf)) else (c[1] if c else (NULLP if ob.zero else UNDEF))
            if v is ANY: continue
            if isinstance(v, NewBuf):
                self.consume(E, o, R, x, v, nm, consumed)
                if v.old is not None and v.old.obj: released.add(v.old.obj)
                continue
            self.prove(R, self.valeq(R, x, v), o, nm, "actual %r expected %r" % (x, v))
        for get, nb, nm in o.placed: self.consume(E, o, R, get(), nb, nm, consumed)
        # frame
        for oid, o0 in P0.objs.items():
            o1 = R.objs.get(oid, o0)
            if o0.born == "local" : continue
            if oid in freed:
                self.prove(R, mkb(not o1.live), o, "%s is released" % o0.name); continue
            if oid in released:
                if o1.live and oid not in consumed: self.prove(R, FALSE, o, "old storage %s is released" % o0.name)
                continue
            if oid in anyobj: continue
            if o0 is o1: 
                if oid in modmap: pass
                else: continue
            if o0.live and not o1.live:
                self.prove(R, FALSE, o, "%s is not released" % o0.name); continue
            if oid in modmap:
                self.content(E, o, R, oid, o0, o1, modmap[oid]); continue
            if o0.kind == "cells" and o1.kind == "cells":
                for off, (w, v) in o1.cells.items():
                    if (oid, off) in setmap: continue
                    c0 = o0.cells.get(off)
                    if c0 is not None and c0[0] == w:
                        if not veq(v, c0[1]): self.prove(R, self.valeq(R, v, c0[1]), o, "%s+%d unchanged" % (o0.name, off))
                    elif c0 is None and not any(k[0] == oid and k[1] <= off < k[1] + setmap[k][0] for k in setmap):
                        if o0.born == "entry" and o0.cells and any(k <= off < k + c[0] for k, c in o0.cells.items()):
                            self.prove(R, FALSE, o, "%s+%d unchanged" % (o0.name, off))
                        elif oid not in {s.obj for s in E.svs}: self.prove(R, FALSE, o, "%s+%d not written" % (o0.name, off))
            elif o0.kind == "plane":
                if o0.chain is o1.chain: continue
                self.content(E, o, R, oid, o0, o1, [])
            elif o0.kind == "lazy": self.prove(R, FALSE, o, "%s unchanged" % o0.name)
            elif o0.kind == "cells" and o1.kind == "plane":
                eng0 = o0
                raise Unsupported("frame of reshaped %s" % o0.name)
        for name, f0 in P0.fams.items():
            f1 = R.fams.get(name, f0)
            if f0 is f1: continue
            if name in o.fams:
                i = fresh("i_" + name, 0); s = R.clone(); s.facts += [i >= 0]; s.hints = list(s.hints) + [i]
                eng.cur = s
                self.prove(s, eq(eng.rd(s, f1.live, (i,)), b2i(o.fams[name](i))), o, "blocks of %s released" % name)
                if f0.chain is not f1.chain: raise Unsupported("contents of a released family")
                continue
            self.famframe(E, o, R, name, f0, f1)
        # leaks
        for oid, o1 in R.objs.items():
            if o1.heap and o1.live and o1.born == "alloc" and oid not in consumed:
                self.prove(R, FALSE, o, "no block allocated here is leaked (%s)" % o1.name)
            elif o1.heap and o1.live and oid not in P0.objs and oid not in consumed:
                self.prove(R, FALSE, o, "no block allocated here is leaked (%s)" % o1.name)

    def famframe(self, E, o, R, name, f0, f1):
        eng = self.eng
        i = fresh("i_" + name, 0); 
        s = R.clone()
        self.prove(s, eq(eng.rd(s, f1.live, (i,)), eng.rd(s, f0.live, (i,))), o, "no %s released" % name)
        if f0.chain is not f1.chain:
            k = fresh("k")
            s.facts += [k >= 0]
            self.prove(s, self.valeq(s, eng.rd(s, f1.chain, (i, k)), eng.rd(s, f0.chain, (i, k))), o, "contents of %s unchanged" % name)
        for off in f0.fields:
            if f0.fields[off][1] is not f1.fields[off][1]:
                self.prove(s, self.valeq(s, eng.rd(s, f1.fields[off][1], (i,)), eng.rd(s, f0.fields[off][1], (i,))), o, "field %d of %s unchanged" % (off, name))

    def prove_fact(self, R, f, o, what):
        if isinstance(f, Forall):
            ks = [fresh("sk") for _ in range(f.arity)]
            s = R.clone(); s.hints = s.hints + ([ks[0]] if f.arity == 1 else [tuple(ks)])
            self.prove(s, f.fn(*ks), o, what)
        else: self.prove(R, f, o, what)

    def valeq(self, R, x, v):
        eng = self.eng
        if isinstance(v, In): return v.holds(x)
        if isinstance(x, Undef) or isinstance(v, Undef): return mkb(x is v)
        if isinstance(v, FnRef) or isinstance(x, FnRef): return mkb(isinstance(x, FnRef) and isinstance(v, FnRef) and x.name == v.name)
        if isinstance(v, (Ptr, PIte)) or isinstance(x, (Ptr, PIte)):
            if isinstance(v, Lin): return eq(eng.ptr_to_int(R, x), v)
            if isinstance(x, Lin): return eq(x, eng.ptr_to_int(R, v))
            return eng.ptr_eq(R, x, v)
        if isinstance(v, Flt) or isinstance(x, Flt):
            a = x.bits if isinstance(x, Flt) else x; b = v.bits if isinstance(v, Flt) else v
            return eq(a, b)
        if isinstance(v, B): v = b2i(v)
        if isinstance(x, B): x = b2i(x)
        return eq(x, v)

    def content(self, E, o, R, oid, o0, o1, mods):
        """every unit of the object has its specified value"""
        eng = self.eng
        w = o0.w if o0.kind == "plane" else 1
        if o1.kind != "plane" or o1.w != w: raise Unsupported("content of reshaped object")
        s = R.clone(); s.hints = list(s.hints)
        k = fresh("k", 0)
        kid = k.t[0][0]
        s.facts += [k >= 0, (k + 1) * w <= o0.size]
        s.hints.append(k)
        nm = o0.name
        if not mods:
            eng.cur = s
            self.split(E, o, s, lambda st: self.valeq(st, eng.rd(st, o1.chain, (k,)), eng.rd(st, o0.chain, (k,))), "%s unchanged" % nm)
            return
        for b, fn in mods:
            if fn is None: continue
            u = divc(b.off, w) if w > 1 else b.off
            s2 = s.clone(); s2.facts += [k >= u, k < u + b.units()]
            self.split(E, o, s2, lambda st: self.valeq(st, eng.rd(st, o1.chain, (k,)), fn(k - u)), "contents of %s" % b.name)
        # outside the modified part
        b = mods[0][0]
        if not (b.off.isconst() and b.off.c == 0 and b.size.same(o0.size)):
            u = divc(b.off, w) if w > 1 else b.off
            conds = []
            s3 = s.clone()
            for b, fn in mods:
                u = divc(b.off, w) if w > 1 else b.off
                s3.facts.append(Or(k < u, k >= u + b.units()))
            self.split(E, o, s3, lambda st: self.valeq(st, eng.rd(st, o1.chain, (k,)), eng.rd(st, o0.chain, (k,))), "%s outside the modified range unchanged" % nm)

    def split(self, E, o, s, goal, what):
        """prove goal(s), forking on the memory reads it makes"""
        eng = self.eng
        for cond in self.casesplit:
            pass
        eng.cur = s
        g = goal(s)
        self.prove(s, g, o, what)
    casesplit = ()

    def consume(self, E, o, R, x, v, nm, consumed):
        eng = self.eng
        if isinstance(x, Lin): x = eng.int_to_ptr(R, x)
        if isinstance(x, PIte):
            x = eng_concrete_nofork(eng, R, x)
        if not isinstance(x, Ptr) or not isinstance(x.obj, int) or x.obj == 0:
            self.prove(R, FALSE, o, "%s points to the specified block" % nm, "value %r" % (x,)); return
        ob = R.objs[x.obj]
        self.prove(R, And(mkb(ob.live), mkb(ob.heap), eq(x.off, 0)), o, "%s is the start of a live heap block" % nm)
        self.prove(R, ob.size >= v.size if v.atleast else eq(ob.size, v.size), o, "%s has the specified size" % nm, "size %r expected %r" % (ob.size, v.size))
        if x.obj in consumed: self.prove(R, FALSE, o, "%s is not shared" % nm)
        consumed.add(x.obj)
        if v.struct is not None:
            fl = E.dbg(v.struct)
            if ob.kind == "lazy":
                ob = eng.wobj(R, ob.id); ob.kind = "cells"
            for f, val in v.cells.items():
                off, w, kind = fl[f]
                c = ob.cells.get(off)
                if c is None:
                    y = (NULLP if kind == "p" else ZERO) if ob.zero else UNDEF
                    if kind == "f" and ob.zero: y = Flt(ZERO, w)
                else:
                    y = c[1] if c[0] == w else eng.cell_get(R, ob, off, w, kind)
                if isinstance(val, NewBuf): self.consume(E, o, R, y, val, "%s->%s" % (nm, f), consumed)
                else: self.prove(R, self.valeq(R, y, val), o, "%s->%s" % (nm, f), "actual %r expected %r" % (y, val))
            return
        if v.fn is None: return
        if ob.kind == "lazy": ob = eng.shape(R, ob, v.w, v.vt)
        if ob.kind == "cells": ob = eng.cells_to_plane(R, ob, v.w, v.vt)
        if ob.w != v.w: raise Unsupported("unit width of %s" % nm)
        s = R.clone(); k = fresh("k", 0)
        s.facts += [(k + 1) * v.w <= v.size, (k + 1) * v.w <= v.valid]; s.hints = list(s.hints) + [k]
        eng.cur = s
        self.split(E, o, s, lambda st: self.valeq(st, eng.rd(st, ob.chain, (k,)), v.fn(k)), "contents of %s" % nm)

def retparts(r, x):
    """a predicate on the return value: one condition, or a list of conditions and quantified facts"""
    y = r(x)
    if not isinstance(y, (list, tuple)): return y, []
    return And(*[c for c in y if not isinstance(c, Forall)]), [c for c in y if isinstance(c, Forall)]

def eng_concrete_nofork(eng, R, x):
    while isinstance(x, PIte):
        d = eng.decide(R, x.c)
        if d is None: raise Unsupported("undetermined pointer in a result")
        x = x.a if d else x.b
    return x

def udiv(x, y): return UF("udiv", 2, 0)(L(x), L(y))
