"""Assumed contracts of the C library functions the code calls."""
import ctypes
from . import terms as T
from .terms import *
from .engine import *
from .solver import Forall, AXIOMS, AXGEN, axiom
from .quant import forall

_sid = {}
_keep = []
def sid(ch):
    n = _sid.get(id(ch))
    if n is None:
        n = _sid[id(ch)] = len(_sid); _keep.append(ch)
    return n

class View:
    """bytes of an object as a function of the offset, in one memory snapshot"""
    __slots__ = ("name", "pre", "get", "nul", "size")
    def __init__(self, name, pre, get, nul=(), size=None): self.name = name; self.pre = pre; self.get = get; self.nul = nul; self.size = size

VIEWS = {}

def _mk_cmp(name, A, Bv, na, nb, isstr, nul=(), nulb=()):
    """first-difference axioms: app(name)(preA.., offA, preB.., offB, n)"""
    def gen(a, *args):
        pa = args[:na]; oa = args[na]; pb = args[na + 1:na + 1 + nb]; ob = args[na + 1 + nb]; n = args[na + nb + 2]
        d = UF("diff_" + name, len(args), 0)(*args)
        r = alin(a)
        sr = r                                # representation: signed value
        x = A(*(pa + (oa + d,))); y = Bv(*(pb + (ob + d,)))
        yield d <= n
        if isstr:
            for w in nul: yield Or(L(w) < oa, L(w) >= oa + d, ne(A(w), 0))
            for w in nulb: yield Or(L(w) < ob, L(w) >= ob + d, ne(Bv(w), 0))
        yield forall(lambda k: Or(k < 0, k >= d, eq(A(*(pa + (oa + k,))), Bv(*(pb + (ob + k,))))), "cmp")
        if not isstr:
            yield iff(eq(sr, 0), eq(d, n))
            yield Implies(lt(d, n), ne(x, y))
            yield Implies(lt(d, n), iff(sr < 0, x < y))
        else:
            yield forall(lambda k: Or(k < 0, k >= d, ne(A(*(pa + (oa + k,))), 0)), "cmpnz")
            yield iff(eq(sr, 0), Or(eq(d, n), eq(x, y)))
            yield Implies(And(lt(d, n), eq(x, y)), eq(x, 0))
            yield Implies(And(lt(d, n), ne(x, y)), iff(sr < 0, x < y))
    AXGEN[name] = gen
    AXGEN["diff_" + name] = lambda a, *args: gen(T.atom(UF(name, len(args), -(1 << 31), (1 << 31) - 1)(*args).t[0][0]), *args)

class Libc:
    # ---- allocation
    def c_malloc(self, st, fr, v, site, t):
        return self.alloc(st, v[0], False, "malloc")
    def c_calloc(self, st, fr, v, site, t):
        p = v[0] * v[1]
        return self.alloc(st, p, True, "calloc")
    def c_realloc(self, st, fr, v, site, t):
        return self.do_realloc(st, v[0], v[1])
    def c_free(self, st, fr, v, site, t):
        self.do_free(st, v[0], site)
        return None

    # ---- views
    def view_of(self, st, p):
        p = self.concrete(st, p)
        if isinstance(p.obj, int):
            if p.obj == 0: raise Unsupported("null view")
            o = st.objs[p.obj]
            if o.kind == "lazy": o = self.shape(st, o, 1, "i")
            if o.kind == "cells":
                o = self.cells_to_plane(st, o, 1, "i")
            ch = o.chain
            if o.w == 1: get = lambda off: self.rdp(ch, (off,))
            else:
                def get(off, w=o.w):
                    q = divc(off, w); return self.subunit(st, self.rdp(ch, (q,)), off - q.scale(w), w)
            return View("%d" % sid(ch), (), get, o.nul, o.size), p
        f = st.fams[p.obj.fam]
        if f.w != 1 or f.kind != "plane": raise Unsupported("bytes of a struct family")
        ch = f.chain
        get = lambda i, off: self.rdp(ch, (i, off))
        nul = f.nul(p.obj.idx) if f.nul else ()
        return View("%d" % sid(ch), (p.obj.idx,), get, nul, f.sizefn(p.obj.idx)), p

    def strip(self, st, p, n):
        """drop writes that cannot affect [p, p+n) from the object's chain for comparison purposes"""
        return

    # ---- memory
    def c_memcmp(self, st, fr, v, site, t):
        p, q, n = v
        r = self.branch(st, eq(n, 0))
        if r: return ZERO
        p = self.concrete(st, p); q = self.concrete(st, q)
        self.chk(st, p, n, site + " first operand"); self.chk(st, q, n, site + " second operand")
        x = self.memcmp_val(st, p, q, n)
        return ite(x < 0, x + (1 << 32), x)

    def word_at(self, st, p):
        """the aligned 8-byte word at p, when memory there is kept in such words"""
        if not isinstance(p, Ptr): return None
        if isinstance(p.obj, int):
            o = st.objs.get(p.obj)
            if o is None or not o.live: return None
            if o.kind == "plane" and o.w == 8:
                u = self.unit(st, p.off, 8)
                return None if u is None else self.rd(st, o.chain, (u,))
            if o.kind == "cells" and p.off.isconst():
                c = o.cells.get(p.off.c)
                return c[1] if c is not None and c[0] == 8 and isinstance(c[1], (Lin, Ptr, PIte)) else None
        return None

    def memcmp_val(self, st, p, q, n):
        if L(n).isconst() and L(n).c == 8:
            x, y = self.word_at(st, p), self.word_at(st, q)
            if x is not None and y is not None and (isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)) or isinstance(p.obj, int) and isinstance(q.obj, int) and (getattr(st.objs[p.obj], "w", 1) == 8 or getattr(st.objs[q.obj], "w", 1) == 8)):
                # one pointer (or word) compared as bytes: equal exactly when the words are
                if isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)): same = self.ptr_eq(st, x, y)
                else: same = eq(x, y)
                AXGEN["memcmp8"] = lambda a, x, y: (ne(alin(a), 0),)
                return ite(same, 0, UF("memcmp8", 2, -(1 << 31) + 1, (1 << 31) - 1)(self.ptr_to_int(st, x), self.ptr_to_int(st, y)))
        A, p = self.view_of(st, p); Bv, q = self.view_of(st, q)
        if A.name == Bv.name and all(a.same(b) for a, b in zip(A.pre, Bv.pre)) and p.off.same(q.off): return ZERO
        if int(A.name) > int(Bv.name):         # the sign is antisymmetric: compare in one canonical order
            A, p, Bv, q = Bv, q, A, p; neg = True
        else: neg = False
        name = "memcmp#%s#%s" % (A.name, Bv.name)
        if name not in AXGEN and not self.opts.get("opaque_cmp"): _mk_cmp(name, A.get, Bv.get, len(A.pre), len(Bv.pre), False)
        args = A.pre + (p.off,) + Bv.pre + (q.off, n)
        r = UF(name, len(args), -(1 << 31) + 1, (1 << 31) - 1)(*args)
        return r.scale(-1) if neg else r

    def memeq(self, st, p, q, n):
        return eq(self.memcmp_val(st, p, q, n), 0)

    def c_memchr(self, st, fr, v, site, t):
        p, c, n = v
        p = self.concrete(st, p)
        if self.branch(st, eq(n, 0)): return NULLP
        A, p = self.view_of(st, p)
        c = modc(c, 256)
        i = UF("memchr#" + A.name, 3 + len(A.pre), -1)(*(A.pre + (p.off, c, n)))
        nm = "memchr#" + A.name
        na = len(A.pre); get = A.get
        if nm not in AXGEN:
            def gen(a, *args):
                pre = args[:na]; off, ch, m = args[na:]
                r = alin(a)
                yield r < m
                yield Implies(r >= 0, eq(get(*(pre + (off + r,))), ch))
                yield forall(lambda k: Or(k < 0, And(r >= 0, k >= r), k >= m, ne(get(*(pre + (off + k,))), ch)), "memchr")
            AXGEN[nm] = gen
        # reads up to the match
        self.chk(st, p, ite(i >= 0, i + 1, n), site)
        if self.branch(st, i >= 0): return Ptr(p.obj, p.off + i)
        return NULLP

    def c_memcpy(self, st, fr, v, site, t):
        self.no_overlap(st, v[0], v[1], v[2], site); self.mem_copy(st, v[0], v[1], v[2], site); return v[0]
    def c_memmove(self, st, fr, v, site, t):
        self.mem_copy(st, v[0], v[1], v[2], site); return v[0]
    def c_memset(self, st, fr, v, site, t):
        self.mem_set(st, v[0], v[1], v[2], site)
        if isinstance(v[1], Lin) and v[1].isconst() and v[1].c % 256 == 0: self.add_nul(st, v[0], ZERO)
        return v[0]

    # ---- strings
    def strlen_val(self, st, p, site, check=True):
        A, p = self.view_of(st, p)
        if check:
            # a terminator exists inside the object
            z = None
            ok = FALSE
            for w in A.nul:
                g = And(p.off <= w, p.off >= 0, w < A.size, eq(A.get(*(A.pre + (w,))), 0))
                if self.entails(st, g): ok = TRUE; z = w; break
                ok = Or(ok, g)
            self.prove(st, ok, site + ": argument is zero-terminated")
        nm = "strlen#" + A.name
        na = len(A.pre); get = A.get; wit = A.nul
        if nm not in AXGEN: AXGEN[nm] = self.strlen_gen(nm, na, get, wit, A.size)
        x = UF(nm, na + 1, 0)(*(A.pre + (p.off,)))
        if check and z is not None and self.opts.get("opaque_cmp") and self.entails(st, eq(x, z - p.off)): return z - p.off     # no terminator before the known one
        return x

    def strlen_gen(self, nm, na, get, wit, size):
        def gen(a, *args):
            pre = args[:na]; off = args[na]; r = alin(a)
            g = Or(*[And(off <= w, eq(get(*(pre + (w,))), 0)) for w in wit]) if na == 0 else TRUE
            yield Implies(g, eq(get(*(pre + (off + r,))), 0))
            yield forall(lambda k: Or(Not(g), k < 0, k >= r, ne(get(*(pre + (off + k,))), 0)), "strlen")
            for w in (wit if na == 0 else ()):
                yield Implies(And(off <= w, eq(get(*(pre + (w,))), 0)), off + r <= w)
        return gen

    def c_strlen(self, st, fr, v, site, t):
        return self.strlen_val(st, self.concrete(st, v[0]), site)

    def c_strcmp(self, st, fr, v, site, t):
        p, q = self.concrete(st, v[0]), self.concrete(st, v[1])
        la = self.strlen_val(st, p, site + " first"); lb = self.strlen_val(st, q, site + " second")
        x = self.str_cmp_val(st, p, q, ite(la <= lb, la, lb) + 1)
        return ite(x < 0, x + (1 << 32), x)

    def c_strncmp(self, st, fr, v, site, t):
        p, q, n = self.concrete(st, v[0]), self.concrete(st, v[1]), v[2]
        if self.branch(st, eq(n, 0)): return ZERO
        # reads at most n bytes and nothing past a terminator
        x = self.str_cmp_val(st, p, q, n)
        d = UF("diff_" + self._lastcmp[0], len(self._lastcmp[1]), 0)(*self._lastcmp[1])
        m = ite(d < n, d + 1, n)
        self.chk(st, p, m, site + " first"); self.chk(st, q, m, site + " second")
        return ite(x < 0, x + (1 << 32), x)

    def str_cmp_val(self, st, p, q, n):
        A, p = self.view_of(st, p); Bv, q = self.view_of(st, q)
        name = "strncmp#%s#%s" % (A.name, Bv.name)
        if name not in AXGEN: _mk_cmp(name, A.get, Bv.get, len(A.pre), len(Bv.pre), True, () if A.pre else A.nul, () if Bv.pre else Bv.nul)
        args = A.pre + (p.off,) + Bv.pre + (q.off, n)
        self._lastcmp = (name, args)
        return UF(name, len(args), -(1 << 31), (1 << 31) - 1)(*args)

    def c_strcpy(self, st, fr, v, site, t):
        q = self.concrete(st, v[1])
        n = self.strlen_val(st, q, site + " source")
        self.no_overlap(st, v[0], q, n + 1, site)
        self.mem_copy(st, v[0], q, n + 1, site)
        self.add_nul(st, v[0], n)
        return v[0]

    def c_strncpy(self, st, fr, v, site, t):
        q = self.concrete(st, v[1]); p = self.concrete(st, v[0]); n = v[2]
        if self.branch(st, eq(n, 0)): return v[0]
        # source: n bytes or up to a terminator
        A, q = self.view_of(st, q)
        inn = None
        for w in A.nul:
            if self.entails(st, And(q.off <= w, w < A.size, eq(A.get(*(A.pre + (w,))), 0))): inn = w; break
        if inn is None:
            self.chk(st, q, n, site + " source"); self.prove(st, FALSE, site + ": source is terminated")
        ln = self.strlen_val(st, q, site + " source")
        m = ite(ln < n, ln, n)
        self.no_overlap(st, p, q, m, site)
        self.mem_copy(st, p, q, m, site)
        self.mem_set(st, Ptr(p.obj, p.off + m), ZERO, n - m, site + " padding")
        self.add_nul(st, p, m)
        return v[0]

    def c_strcat(self, st, fr, v, site, t):
        p = self.concrete(st, v[0]); q = self.concrete(st, v[1])
        a = self.strlen_val(st, p, site + " destination"); b = self.strlen_val(st, q, site + " source")
        self.no_overlap(st, Ptr(p.obj, p.off + a), q, b + 1, site)
        self.mem_copy(st, Ptr(p.obj, p.off + a), q, b + 1, site)
        self.add_nul(st, p, a + b)
        return v[0]

    def c_strncat(self, st, fr, v, site, t):
        p = self.concrete(st, v[0]); q = self.concrete(st, v[1]); n = v[2]
        a = self.strlen_val(st, p, site + " destination")
        A, q = self.view_of(st, q)
        if any(self.entails(st, And(q.off <= w, w < A.size, eq(A.get(*(A.pre + (w,))), 0))) for w in A.nul):
            b = self.strlen_val(st, q, site + " source")
            m = ite(b < n, b, n)
        else:
            self.chk(st, q, n, site + " source")
            b = UF("strnlen#" + A.name, 2 + len(A.pre), 0)(*(A.pre + (q.off, n)))
            m = b
            get = A.get; na = len(A.pre)
            nm = "strnlen#" + A.name
            if nm not in AXGEN:
                def gen(at, *args):
                    pre = args[:na]; off, mm = args[na:]; r = alin(at)
                    yield r <= mm
                    yield Implies(r < mm, eq(get(*(pre + (off + r,))), 0))
                    yield forall(lambda k: Or(k < 0, k >= r, ne(get(*(pre + (off + k,))), 0)), "strnlen")
                AXGEN[nm] = gen
        self.no_overlap(st, Ptr(p.obj, p.off + a), q, m, site)
        self.mem_copy(st, Ptr(p.obj, p.off + a), q, m, site)
        self.store(st, Ptr(p.obj, p.off + a + m), ZERO, ("i", 8), fr.mod, site)
        self.add_nul(st, p, a + m)
        return v[0]

    def add_nul(self, st, p, n):
        p = self.concrete(st, p)
        if isinstance(p.obj, int) and p.obj != 0:
            o = self.wobj(st, p.obj)
            o.nul = (p.off + n,) + tuple(w for w in o.nul if not w.same(p.off + n))[:4]

    def c_strchr(self, st, fr, v, site, t):
        p = self.concrete(st, v[0]); c = modc(v[1], 256)
        n = self.strlen_val(st, p, site)
        A, p = self.view_of(st, p)
        nm = "strchr#" + A.name; na = len(A.pre); get = A.get
        i = UF(nm, na + 3, -1)(*(A.pre + (p.off, c, n)))
        if nm not in AXGEN:
            def gen(a, *args):
                pre = args[:na]; off, ch, m = args[na:]; r = alin(a)
                yield r <= m
                yield Implies(r >= 0, eq(get(*(pre + (off + r,))), ch))
                yield forall(lambda k: Or(k < 0, And(r >= 0, k >= r), k > m, ne(get(*(pre + (off + k,))), ch)), "strchr")
            AXGEN[nm] = gen
        if self.branch(st, i >= 0): return Ptr(p.obj, p.off + i)
        return NULLP

    def c_strpbrk(self, st, fr, v, site, t):
        p = self.concrete(st, v[0]); q = self.concrete(st, v[1]); n = self.strlen_val(st, p, site + " text"); m = self.strlen_val(st, q, site + " characters")
        A, p = self.view_of(st, p); C, q = self.view_of(st, q)
        cs = []
        while len(cs) < 16 and not self.entails(st, eq(m, len(cs))): cs.append(C.get(*(C.pre + (q.off + len(cs),))))
        if not self.entails(st, eq(m, len(cs))): raise Unsupported("strpbrk with a long or unknown set")
        hit = lambda k: Or(*[eq(A.get(*(A.pre + (p.off + k,))), c) for c in cs])
        i = fresh("strpbrk", 0)
        if self.branch(st, eq(fresh("found", 0, 1), 1)):
            self.assume(st, And(i < n, hit(i))); st.facts.append(forall(lambda k: Or(k < 0, k >= i, Not(hit(k))), "strpbrk"))
            return Ptr(p.obj, p.off + i)
        st.facts.append(forall(lambda k: Or(k < 0, k >= n, Not(hit(k))), "strpbrk"))
        return NULLP
    def c_strstr(self, st, fr, v, site, t):
        p = self.concrete(st, v[0]); q = self.concrete(st, v[1])
        la = self.strlen_val(st, p, site + " text"); lb = self.strlen_val(st, q, site + " pattern")
        i = self.strstr_val(st, p, q, la, lb)
        if self.branch(st, i >= 0): return Ptr(p.obj, p.off + i)
        return NULLP

    def strstr_key(self, st, p, q):
        A, p = self.view_of(st, p); Bv, q = self.view_of(st, q); return (A.name, Bv.name, p.off, q.off)
    def strstr_val(self, st, p, q, la, lb):
        A, p = self.view_of(st, p); Bv, q = self.view_of(st, q)
        nm = "strstr#%s#%s" % (A.name, Bv.name)
        if A.pre or Bv.pre: raise Unsupported("strstr on family")
        opaque = self.opts.get("opaque_cmp")
        if nm not in AXGEN:
            mis = UF("mism_" + nm, 4 + 1, 0)
            def gen(a, oa, ob, n, m):
                r = alin(a)
                yield Implies(r >= 0, r + m <= n)
                if opaque: return              # only where occurrences are, not why
                yield forall(lambda k: Or(r < 0, k < 0, k >= m, eq(A.get(oa + r + k), Bv.get(ob + k))), "strstr")
                def nomatch(s):
                    w = mis(oa, ob, n, m, s)
                    return Or(s < 0, And(r >= 0, s >= r), s + m > n, And(w < m, ne(A.get(oa + s + w), Bv.get(ob + w))))
                K = fresh("K")
                yield Forall([("occ_" + nm, lambda *z: (z[-1],))], nomatch, "strstr-first")
            AXGEN[nm] = gen
        return UF(nm, 4, -1)(p.off, q.off, la, lb)

    def c_strtold(self, st, fr, v, site, t):
        h = getattr(self.E, "strtold", None)
        if h is None: raise Unsupported("strtold")
        r, e = h(self, st, v[0], site)
        q = self.concrete(st, v[1])
        if not (isinstance(q.obj, int) and q.obj == 0): self.store(st, q, e, ("ptr",), fr.mod, site)
        return r
    def fcall(self, name, v): return Flt(UF(name, len(v), 0, (1 << 80) - 1)(*[x.bits for x in v]), 10)
    def c_powl(self, st, fr, v, site, t): return self.fcall("powl", v)

    # ---- ctype
    def c___ctype_b_loc(self, st, fr, v, site, t):
        gid = self.ctab(st)
        return Ptr(gid, ZERO)

    def ctab(self, st):
        gid = self.gids.get("ctype")
        if gid is None: gid = self.gids["ctype"] = -1 - len(self.gids)
        tid = self.gids.get("ctypetab")
        if tid is None: tid = self.gids["ctypetab"] = -1 - len(self.gids)
        if tid not in st.objs:
            o = Obj(tid, "ctype table", 768, "plane"); o.w = 2; o.vt = "i"; o.ro = True; o.born = "global"
            o.chain = Base(lambda i: CT(L(i) - 128), "ctype")
            st.objs[tid] = o
            o = Obj(gid, "ctype ptr", 8, "cells"); o.ro = True; o.born = "global"
            o.cells[0] = (8, Ptr(tid, L(256))); st.objs[gid] = o
        return gid

    def c_toupper(self, st, fr, v, site, t):
        c = v[0]; return ite(And(c >= 97, c <= 122), c - 32, c)
    def c_tolower(self, st, fr, v, site, t):
        c = v[0]; return ite(And(c >= 65, c <= 90), c + 32, c)
    def c_abs(self, st, fr, v, site, t):
        a = self.signed(st, v[0], 32)
        self.prove(st, a > -(1 << 31), site + ": abs of the most negative value")
        return ite(a >= 0, a, -a)
    def c_labs(self, st, fr, v, site, t):
        a = self.signed(st, v[0], 64)
        self.prove(st, a > -(1 << 63), site + ": labs of the most negative value")
        return ite(a >= 0, a, -a)
    # ---- formatting: one text per format and argument list
    def va_key(self, st, p):
        p = self.concrete(st, p); o = st.objs[p.obj]
        if p.off.isconst() and o.kind == "cells" and p.off.c in o.cells: return o.cells[p.off.c][1]
        raise Unsupported("variable arguments")
    def fmt(self, st, p, va):
        p = self.concrete(st, p)
        return FMTLEN(p.obj, p.off, va), lambda k: FMTCH(p.obj, p.off, va, k)
    def c_vsnprintf(self, st, fr, v, site, t):
        p, n, f, va = v
        self.strlen_val(st, self.concrete(st, f), site + " format")
        ln, ch = self.fmt(st, f, self.va_key(st, va))
        if not self.branch(st, eq(n, 0)):
            p = self.concrete(st, p)
            if self.branch(st, ln < 0):
                uf = fresh_uf("vsnprintf", 1, 0, 255); self.mem_fill(st, p, n, lambda k: uf(k), site)
            else:
                m = ite(ln < n, ln, n - 1)
                self.mem_fill(st, p, m + 1, lambda k: ite(k < m, ch(k), 0), site); self.add_nul(st, p, m)
        return ite(ln < 0, ln + (1 << 32), ln)
    # ---- files: a stream has a size and delivers some bytes
    def c_fseek(self, st, fr, v, site, t): return ZERO
    def c_rewind(self, st, fr, v, site, t): return None
    def c_ftell(self, st, fr, v, site, t):
        return FTELL(self.concrete(st, v[0]).obj)
    def c_fopen(self, st, fr, v, site, t):
        """opens the stream the contract names, when that file exists"""
        for p in v[:2]: self.strlen_val(st, self.concrete(st, p), site + " text")
        if self.E.filestream is None: raise Unsupported("fopen of an unspecified file")
        f, there = self.E.filestream
        if not self.branch(st, there): return NULLP
        if st.objs[f.obj].live: raise Unsupported("a file opened twice")
        self.wobj(st, f.obj).live = True
        return f
    def c_fclose(self, st, fr, v, site, t):
        p = self.concrete(st, v[0])
        if self.E.filestream is None or p.obj != self.E.filestream[0].obj: raise Unsupported("fclose of an unspecified stream")
        self.prove(st, mkb(st.objs[p.obj].live), site + ": the stream is open")
        self.wobj(st, p.obj).live = False
        return ZERO
    def c_vsscanf(self, st, fr, v, site, t):
        """the number of conversions is a function of the text, the format and the arguments"""
        s, f, va = v; s = self.concrete(st, s); f = self.concrete(st, f)
        self.strlen_val(st, s, site + " text"); self.strlen_val(st, f, site + " format")
        return SCAN(s.obj, s.off, f.obj, f.off, self.va_key(st, va))
    c___isoc99_vsscanf = c___isoc23_vsscanf = c_vsscanf
    def c_fread(self, st, fr, v, site, t):
        p, sz, n, f = v
        if not (sz.isconst() and sz.c == 1): raise Unsupported("fread of records")
        s = self.concrete(st, f).obj; m = FREADN(s, n)
        if not self.branch(st, eq(n, 0)):
            self.chk(st, self.concrete(st, p), n, site, True)
            self.mem_fill(st, self.concrete(st, p), m, lambda k: FREADC(s, k), site)
        return m
    def c_fwrite(self, st, fr, v, site, t):
        p, sz, n, f = v
        if not (sz.isconst() and sz.c == 1): raise Unsupported("fwrite of records")
        p = self.concrete(st, p)
        if not self.branch(st, eq(n, 0)):
            self.chk(st, p, n, site, False)
            if not self.branch(st, eq(p.off, 0)): raise Unsupported("fwrite from the middle of a block")
        return FWRITEN(self.concrete(st, f).obj, p.obj, n)
    def mem_fill(self, st, p, n, fn, what):
        if isinstance(n, Lin) and n.isconst() and n.c == 0: return
        o = self.chk(st, p, n, what, True)
        if o.kind == "lazy": o = self.shape(st, o, 1, "i")
        if o.kind == "cells":
            if o.size.isconst() and o.size.c == 1: self.cell_set(st, o, 0, 1, fn(ZERO)); return
            o = self.cells_to_plane(st, o, 1, "i")
        if o.w != 1: raise Unsupported("bytes written into wider units")
        o = self.wobj(st, o.id); lo = p.off
        o.chain = RngW(o.chain, (), lo, lo + n, lambda k: fn(k - lo), "libc"); self.note_write(st, o.id)
    # ---- pseudo-random numbers and the clock: any value
    def c_srand(self, st, fr, v, site, t): return None
    def c_time(self, st, fr, v, site, t):
        if not (isinstance(v[0], Ptr) and v[0].obj == 0): raise Unsupported("time with an argument")
        return fresh("time", 0, (1 << 64) - 1)
    def c_rand(self, st, fr, v, site, t): return fresh("rand", 0, (1 << 31) - 1)
    def noop0(self, st, fr, v, site, t):
        return self.undef_of(t) if t[0] != "void" else None
    c_puts = c_putchar = c_fputs = c_printf = c_fprintf = c_perror = noop0

FMTLEN = UF("fmtlen", 3, -1, (1 << 31) - 1)
FMTCH = UF("fmtch", 4, 0, 255)
SCAN = UF("vsscanf", 5, 0, (1 << 32) - 1)
FTELL = UF("ftell", 1, 0, (1 << 64) - 1)
FREADN = UF("fread", 2, 0)
AXGEN["fread"] = lambda a, s, n: (alin(a) <= n,)
FWRITEN = UF("fwrite", 3, 0)
AXGEN["fwrite"] = lambda a, s, p, n: (alin(a) <= n,)
FREADC = UF("freadch", 2, 0, 255)

def _ctype_rows():
    lib = ctypes.CDLL(None)
    f = lib.__ctype_b_loc; f.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_uint16))
    t = f()[0]
    return {i: t[i] for i in range(-128, 256)}
ROWS = _ctype_rows()
CT = UF("ctype_b", 1, 0, 65535)
def _ranges(bit):
    out = []; i = -128
    while i < 256:
        if ROWS[i] >> bit & 1:
            j = i
            while j < 255 and ROWS[j + 1] >> bit & 1: j += 1
            out.append((i, j)); i = j + 1
        else: i += 1
    return out
_BR = {b: _ranges(b) for b in (0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15)}
def _ctgen(a, i):
    r = alin(a)
    if i.isconst() and i.c in ROWS:
        yield eq(r, ROWS[i.c]); return
    for b, rs in _BR.items():
        yield iff(eq(modc(divc(r, 1 << b), 2), 1), Or(*[And(i >= lo, i <= hi) for lo, hi in rs]))
AXGEN["ctype_b"] = _ctgen
def _bitgen(rs):        # one character class: the function of the single bit
    def gen(a, i): yield iff(eq(alin(a), 1), Or(*[And(i >= lo, i <= hi) for lo, hi in rs]))
    return gen
for _b, _rs in _BR.items(): AXGEN["ctype_%d" % (1 << _b)] = _bitgen(_rs)
