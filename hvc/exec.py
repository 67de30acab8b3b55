"""Instruction execution, loops, calls."""
import re, time
from . import terms as T
from .terms import *
from .engine import *
from .solver import Forall, AXIOMS, AXGEN, axiom
from . import ir as IR
from . import libc as LC

class LocRef:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class FnRef:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return "@" + self.name

class HookFn(FnRef):
    """an arbitrary function given by the caller; call(eng, st, arguments, site) checks what it is given and models what it may do"""
    __slots__ = ("call",)
    def __init__(self, name, call): self.name = name; self.call = call

class PureFn(FnRef):
    """an arbitrary function without effects, given by the caller"""
    __slots__ = ("uf",)
    def __init__(self, name, uf): self.name = name; self.uf = uf

SCALAR = ("i", "ptr", "double", "float", "x86_fp80")

def promotable(fn):
    """alloca name -> type for locals only accessed by whole loads and stores"""
    if getattr(fn, "_prom", None) is not None: return fn._prom
    al = {}; bad = set()
    for b in fn.order:
        for i in fn.blocks[b]:
            if i.op == "alloca" and i.a[1] is None and i.a[0][0] in SCALAR: al[i.dst] = i.a[0]
    def uses(x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "reg": out.append(x[1])
            else:
                for y in x: uses(y, out)
        elif isinstance(x, list):
            for y in x: uses(y, out)
    for b in fn.order:
        for i in fn.blocks[b]:
            if i.op == "load" and i.a[1][0] == "reg":
                if i.a[1][1] in al and al[i.a[1][1]] != i.a[0]: bad.add(i.a[1][1])
                continue
            if i.op == "store":
                out = []; uses(i.a[1], out); bad.update(out)
                if i.a[2][0] == "reg" and i.a[2][1] in al and al[i.a[2][1]] != i.a[0]: bad.add(i.a[2][1])
                continue
            if i.op == "alloca": continue
            out = []; uses(i.a, out); bad.update(out)
    fn._prom = {k: v for k, v in al.items() if k not in bad}
    return fn._prom

def succs(ins):
    if ins.op == "br": return [x for x in ins.a[1:]]
    if ins.op == "switch": return [ins.a[2]] + [c[1] for c in ins.a[3]]
    return []

def natural_loops(fn):
    """header -> set of body blocks"""
    if getattr(fn, "_loops", None) is not None: return fn._loops
    succ = {b: list(dict.fromkeys(succs(fn.blocks[b][-1]))) for b in fn.order}
    entry = fn.order[0]
    reach = []; seen = {entry}; stk = [entry]
    while stk:
        b = stk.pop(); reach.append(b)
        for s in succ[b]:
            if s not in seen: seen.add(s); stk.append(s)
    pred = {b: [] for b in reach}
    for b in reach:
        for s in succ[b]: pred[s].append(b)
    dom = {b: set(reach) for b in reach}; dom[entry] = {entry}
    ch = True
    order = [b for b in fn.order if b in seen]
    while ch:
        ch = False
        for b in order:
            if b == entry: continue
            ps = [dom[p] for p in pred[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]: dom[b] = d; ch = True
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x in body: continue
                    body.add(x); stk += pred[x]
    # retreating edges that are not back edges: irreducible
    fn._loops = loops
    fn._loopidx = {h: k for k, h in enumerate([b for b in order if b in loops])}
    return loops

def veq(a, b):
    """structural equality of values"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Lin): return a.same(b)
    if isinstance(a, Ptr): return same_obj(a.obj, b.obj) and a.off.same(b.off)
    if isinstance(a, PIte): return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, Flt): return a.w == b.w and a.bits.same(b.bits)
    if isinstance(a, Agg): return len(a.es) == len(b.es) and all(veq(x, y) for x, y in zip(a.es, b.es))
    if isinstance(a, FnRef): return a.name == b.name
    return False

def leaves(v, out):
    if isinstance(v, PIte): leaves(v.a, out); leaves(v.b, out)
    else: out.append(v)
    return out

class LV:
    """a location modified by a loop"""
    __slots__ = ("key", "kind", "bits", "v0", "mode", "coef", "raw0", "uf", "name", "targets", "unitw", "sel")

class LoopFail(Exception): pass

class Exec(LC.Libc, Engine):
    # ---------------------------------------------------------------- operands
    def gobj(self, st, mod, name):
        gid = self.gids.get((mod.name, name))
        if gid is None:
            gid = self.gids[(mod.name, name)] = -1 - len(self.gids)
        if gid not in st.objs:
            t, v, const = mod.globals[name]
            n = mod.size(t)
            o = Obj(gid, "@" + name, n, "cells"); o.born = "global"; o.ro = const
            st.objs[gid] = o
            self.ginit(st, mod, o, t, v, const)
        return gid

    def ginit(self, st, mod, o, t, v, const):
        if t[0] == "arr" and t[2][0] == "i":
            w = mod.size(t[2])
            o.kind = "plane"; o.w = w; o.vt = "i"
            if not const:
                uf = UF("glob_" + o.name, 1, 0, (1 << (8 * w)) - 1)
                o.chain = Base(lambda i: uf(i), uf.name); return
            if v is None or v[0] == "zero": data = [0] * t[1]
            elif v[0] == "cstr": data = list(v[1])
            else: data = [x[1][1] % (1 << (8 * w)) for x in v[1]]
            ufn = "tab_%s_%s" % (mod.name, o.name)
            tab = UF(ufn, 1, min(data), max(data))
            if w == 1:
                o.nul = tuple(L(k) for k, x in enumerate(data) if x == 0)[:2]
            small = len(data) <= 40
            def rd(i, data=data):
                i = L(i)
                if i.isconst(): return L(data[i.c]) if 0 <= i.c < len(data) else ZERO
                if small:
                    r = L(data[-1])
                    for k in range(len(data) - 2, -1, -1): r = ite(eq(i, k), L(data[k]), r)
                    return r
                return tab(i)
            o.chain = Base(rd, "const"); return
        if t[0] == "arr" and t[2][0] == "ptr" and const and v and v[0] == "agg":
            o.kind = "plane"; o.w = 8; o.vt = "p"
            vals = [self.val(st, None, x[1], x[0], mod) for x in v[1]]
            def rdp(i):
                i = L(i)
                if i.isconst(): return vals[i.c] if 0 <= i.c < len(vals) else NULLP
                r = vals[-1]
                for k in range(len(vals) - 2, -1, -1): r = pite(eq(i, k), vals[k], r)
                return r
            o.chain = Base(rdp, "constp"); return
        if not const:
            o.zero = False
            return
        self.ginit_cells(st, mod, o, t, v, 0)
        o.zero = True

    def ginit_cells(self, st, mod, o, t, v, off):
        if v is None or v[0] == "zero": return
        if t[0] in ("i", "ptr", "double", "float", "x86_fp80"):
            o.cells[off] = (10 if t[0] == "x86_fp80" else mod.size(t), self.val(st, None, v, t, mod)); return
        if v[0] == "cstr":
            for k, x in enumerate(v[1]): o.cells[off + k] = (1, L(x))
            return
        if t[0] == "arr":
            for k, (et, ev) in enumerate(v[1]): self.ginit_cells(st, mod, o, et, ev, off + k * mod.size(t[2]))
            return
        offs = mod.layout(t)[0]
        for k, (et, ev) in enumerate(v[1]): self.ginit_cells(st, mod, o, et, ev, off + offs[k])

    def val(self, st, fr, v, ty, mod=None):
        k = v[0]
        if k == "reg":
            try: return fr.regs[v[1]]
            except KeyError: raise Unsupported("register %s" % v[1])
        if k == "const":
            if ty == ("i", 1): return mkb(v[1] & 1)
            return L(v[1] % (1 << ty[1]))
        if k == "null": return NULLP
        if k == "undef":
            if ty[0] in ("named", "struct"):
                m = mod or fr.mod
                return Agg([self.undef_of(f) for f in m.fields(ty)], ty)
            return self.undef_of(ty)
        if k == "zero":
            m = mod or fr.mod
            if ty[0] in ("named", "struct"): return Agg([self.val(st, fr, v, f, m) for f in m.fields(ty)], ty)
            if ty[0] == "arr": return Agg([self.val(st, fr, v, ty[2], m) for _ in range(ty[1])], ty)
            if ty[0] == "ptr": return NULLP
            if ty[0] == "i": return FALSE if ty[1] == 1 else ZERO
            return Flt(ZERO, {"double": 8, "float": 4, "x86_fp80": 10}[ty[0]])
        if k == "fp": return Flt(L(fpbits(v[1], ty)), {"double": 8, "float": 4, "x86_fp80": 10}[ty[0]])
        m = mod or fr.mod
        if k == "global":
            if v[1] in m.fns or v[1] in m.decls: return FnRef(v[1])
            if v[1] not in m.globals: raise Unsupported("external global " + v[1])
            return Ptr(self.gobj(st, m, v[1]), ZERO)
        if k == "cgep":
            base = self.val(st, fr, v[2][0][1], v[2][0][0], m)
            off = 0; t = v[1]
            for n, (it, iv) in enumerate(v[2][1:]):
                c = iv[1]
                if n == 0: off += c * m.size(t)
                elif t[0] == "arr": off += c * m.size(t[2]); t = t[2]
                else: off += m.layout(t)[0][c]; t = m.fields(t)[c]
            return Ptr(base.obj, base.off + off)
        if k == "agg":
            return Agg([self.val(st, fr, x[1], x[0], m) for x in v[1]], ty)
        if k == "ccast":
            x = self.val(st, fr, v[3], v[2], m)
            if v[1] in ("inttoptr",): return self.int_to_ptr(st, x)
            if v[1] == "ptrtoint": return self.ptr_to_int(st, x)
        raise Unsupported("operand " + k)

    # ---------------------------------------------------------------- exploration
    def explore(self, st0s, stop=None):
        saved = self.work; self.work = list(reversed(st0s)); out = []
        try:
            while self.work:
                st = self.work.pop()
                try: r = self.run(st, stop)
                except Infeasible: continue
                if r is not None: out.append(r)
        finally:
            self.work = saved
        return out

    def run(self, st, stop):
        d0 = self.depth0
        while True:
            fr = st.frames[-1]
            if fr.ip == 0 and not st.choices:
                skip = st.pc == "skip"
                if skip: st.pc = None
                else:
                    if stop is not None:
                        t = stop(st)
                        if t is not None: return (t, st)
                    loops = natural_loops(fr.fn)
                    if fr.blk in loops and fr.prev not in loops[fr.blk]:
                        outs = self.handle_loop(st, fr.blk, loops[fr.blk])
                        if not outs: return None
                        for s in outs[1:]: self.work.append(s)
                        st = outs[0]
                        continue
            self.steps += 1
            if self.steps % 64 == 0 and time.time() > self.deadline: raise Budget()
            ins = fr.fn.blocks[fr.blk][fr.ip]
            op = ins.op
            f = getattr(self, "i_" + op, None)
            if f is None: raise Unsupported("instruction " + op)
            if op in FORKING:
                self.snap = st.clone()
            self.cur = st
            st.cpos = 0
            r = f(st, fr, ins)
            st.choices = (); st.cpos = 0
            if r is not None:
                if r[0] == "ret": return ("ret", st, r[1])

    def nxt(self, fr): fr.ip += 1

    def goto(self, st, fr, b):
        fr.prev = fr.blk; fr.blk = b; fr.ip = 0

    # ---------------------------------------------------------------- instructions
    def i_alloca(self, st, fr, ins):
        t, cnt = ins.a
        if ins.dst in promotable(fr.fn):
            fr.regs[ins.dst] = LocRef(ins.dst)
            fr.locs[ins.dst] = UNDEF
        else:
            n = fr.mod.size(t)
            if cnt is not None:
                c = self.val(st, fr, cnt[1], cnt[0]); n = c * n
            o = self.new_obj(st, (fr.fn.srcname.get(ins.dst) or ins.dst), n, "lazy" if L(n).isconst() else "lazy")
            if L(n).isconst() and L(n).c <= 512 and t[0] != "arr": o.kind = "cells"
            fr.allocas.append(o.id)
            fr.regs[ins.dst] = Ptr(o.id, ZERO)
        fr.ip += 1

    def i_load(self, st, fr, ins):
        t, v = ins.a
        p = self.val(st, fr, v, ("ptr",))
        if isinstance(p, LocRef):
            x = fr.locs[p.name]
            if isinstance(x, Undef):
                x = self.undef_of(t)
                if not isinstance(x, Undef): fr.locs[p.name] = x
        else: x = self.load(st, p, t, fr.mod, self.where(fr, ins, "read"))
        fr.regs[ins.dst] = x
        fr.ip += 1

    def where(self, fr, ins, what):
        return "%s:%d %s" % (fr.fn.name, ins.line, what) if fr.fn.name != self.fname else "line %d %s" % (ins.line, what)

    def i_store(self, st, fr, ins):
        t, v, q = ins.a
        p = self.val(st, fr, q, ("ptr",)); x = self.val(st, fr, v, t)
        if isinstance(p, LocRef): fr.locs[p.name] = x
        else: self.store(st, p, x, t, fr.mod, self.where(fr, ins, "write"))
        fr.ip += 1

    def i_getelementptr(self, st, fr, ins):
        t, args = ins.a
        base = self.val(st, fr, args[0][1], args[0][0])
        off = ZERO; m = fr.mod
        for n, (it, iv) in enumerate(args[1:]):
            if n == 0:
                off = off + self.gidx(st, fr, it, iv) * m.size(t)
            elif t[0] in ("arr", "vec"):
                off = off + self.gidx(st, fr, it, iv) * m.size(t[2]); t = t[2]
            else:
                c = iv[1]; off = off + m.layout(t)[0][c]; t = m.fields(t)[c]
        fr.regs[ins.dst] = self.padd(st, base, off)
        fr.ip += 1

    def padd(self, st, p, off):
        if isinstance(p, Lin): p = self.int_to_ptr(st, p)
        if isinstance(p, PIte): return pite(p.c, self.padd(st, p.a, off), self.padd(st, p.b, off))
        if isinstance(p, Ptr):
            if off.isconst() and off.c == 0: return p
            q = p.off + off; o = st.objs.get(p.obj) if isinstance(p.obj, int) else None
            if o is not None and o.sub:
                for lo, hi, i in o.sub:
                    if And(q >= lo, q < hi) is TRUE or not q.isconst() and self.entails(st, And(q >= lo, q < hi)): return Ptr(i, q - lo)
            return Ptr(p.obj, q)
        if isinstance(p, Undef): raise Unsupported("pointer arithmetic on undefined")
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def gidx(self, st, fr, it, iv):
        x = self.val(st, fr, iv, it)
        if x.isconst(): return L(x.c - (1 << it[1])) if x.c >= 1 << (it[1] - 1) else x
        return self.signed(st, x, it[1])

    def toi(self, x):
        return b2i(x) if isinstance(x, B) else x

    def binop(self, st, fr, ins):
        t, a, b = ins.a
        x = self.val(st, fr, a, t); y = self.val(st, fr, b, t)
        if t == ("i", 1):
            x = x if isinstance(x, B) else i2b(x); y = y if isinstance(y, B) else i2b(y)
            op = ins.op
            r = And(x, y) if op == "and" else Or(x, y) if op == "or" else Not(iff(x, y)) if op == "xor" else None
            if r is None: raise Unsupported("i1 " + op)
        else:
            if isinstance(x, (Ptr, PIte)): x = self.ptr_to_int(st, x)
            if isinstance(y, (Ptr, PIte)): y = self.ptr_to_int(st, y)
            r = self.arith(st, ins.op, self.toi(x), self.toi(y), t[1], ins.fl)
        fr.regs[ins.dst] = r
        fr.ip += 1
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = binop

    def fbin(self, st, fr, ins):
        t, a, b = ins.a
        x = self.val(st, fr, a, t); y = self.val(st, fr, b, t)
        w = x.w
        fr.regs[ins.dst] = Flt(UF("%s_%d" % (ins.op, w), 2, 0, (1 << (8 * w)) - 1)(x.bits, y.bits), w)
        fr.ip += 1
    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = fbin

    def i_fneg(self, st, fr, ins):
        x = self.val(st, fr, ins.a[0][1], ins.a[0][0])
        fr.regs[ins.dst] = Flt(UF("fneg_%d" % x.w, 1, 0, (1 << (8 * x.w)) - 1)(x.bits), x.w); fr.ip += 1

    def i_icmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        x = self.val(st, fr, a, t); y = self.val(st, fr, b, t)
        fr.regs[ins.dst] = self.icmp(st, pred, t, x, y)
        fr.ip += 1

    def quotient(self, st, x, q):
        """x compared with a quotient q by a sum d: x <= q -> x * d <= q * d and x > q -> x * d >= (q + 1) * d (for d > 0)"""
        if len(q.t) != 1 or q.t[0][1] != 1 or q.c: return
        a = atom(q.t[0][0])
        if a.kind != "app" or a.args[0] != "udiv": return
        d = a.args[2].l
        if len(d.t) < 2: return
        st.facts.append(Or(d <= 0, And(x <= q, x * d <= q * d), And(x > q, x * d >= q * d + d)))
    def icmp(self, st, pred, t, x, y):
        if t[0] == "ptr":
            if isinstance(x, FnRef) or isinstance(y, FnRef):
                if pred not in ("eq", "ne"): raise Unsupported("fn order")
                e = mkb(isinstance(x, FnRef) and isinstance(y, FnRef) and x.name == y.name)
                return e if pred == "eq" else Not(e)
            if pred in ("eq", "ne"):
                e = self.ptr_eq(st, x, y)
                return e if pred == "eq" else Not(e)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and same_obj(x.obj, y.obj) and not (isinstance(x.obj, int) and x.obj == 0):
                a, b = x.off, y.off
            else: a, b = self.ptr_to_int(st, x), self.ptr_to_int(st, y)
            bits = 64
            if pred[0] == "s": raise Unsupported("signed pointer compare")
        else:
            bits = t[1]
            if t[1] == 1:
                x = self.toi(x); y = self.toi(y)
            if isinstance(x, (Ptr, PIte)): x = self.ptr_to_int(st, x)
            if isinstance(y, (Ptr, PIte)): y = self.ptr_to_int(st, y)
            a, b = self.toi(x), self.toi(y)
            for x, q in ((a, b), (b, a)): self.quotient(st, x, q)
        if pred == "eq": return eq(a, b)
        if pred == "ne": return ne(a, b)
        if pred[0] == "s": a, b = self.signed(st, a, bits), self.signed(st, b, bits)
        o = pred[1:]
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[o]

    def i_fcmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        x = self.val(st, fr, a, t); y = self.val(st, fr, b, t)
        fr.regs[ins.dst] = eq(UF("fcmp_%s_%d" % (pred, x.w), 2, 0, 1)(x.bits, y.bits), 1)
        fr.ip += 1

    def cast(self, st, fr, ins):
        t, v, t2 = ins.a
        x = self.val(st, fr, v, t); op = ins.op
        if op == "zext": r = self.toi(x)
        elif op == "sext":
            x = self.toi(x)
            if t == ("i", 1): r = ite(eq(x, 1), (1 << t2[1]) - 1, 0)
            else:
                s = self.signed(st, x, t[1]); r = self.fits(st, s, t2[1])
                if not s.same(r): RAW[("sx", LinKey(r))] = s
        elif op == "trunc":
            if isinstance(x, (Ptr, PIte)): x = self.ptr_to_int(st, x)
            x = self.toi(x)
            if t2 == ("i", 1): r = eq(modc(x, 2), 1)
            else:
                lo, hi = rng(x); M = 1 << t2[1]
                if lo is not None and lo >= 0 and hi is not None and hi < M: r = x
                elif self.entails(st, x < M): r = x
                else:
                    r = modc(x, M)
        elif op == "ptrtoint": r = self.ptr_to_int(st, x)
        elif op == "inttoptr": r = self.int_to_ptr(st, x)
        elif op == "bitcast": r = x
        elif op in ("uitofp", "sitofp"):
            w = {"double": 8, "float": 4, "x86_fp80": 10}[t2[0]]
            r = Flt(UF("%s_%d_%d" % (op, t[1], w), 1, 0, (1 << (8 * w)) - 1)(self.toi(x)), w)
        elif op in ("fptoui", "fptosi"):
            r = UF("%s_%d_%d" % (op, x.w, t2[1]), 1, 0, (1 << t2[1]) - 1)(x.bits)
        elif op in ("fpext", "fptrunc"):
            w = {"double": 8, "float": 4, "x86_fp80": 10}[t2[0]]
            r = Flt(UF("%s_%d_%d" % (op, x.w, w), 1, 0, (1 << (8 * w)) - 1)(x.bits), w)
        else: raise Unsupported(op)
        fr.regs[ins.dst] = r
        fr.ip += 1
    i_zext = i_sext = i_trunc = i_ptrtoint = i_inttoptr = i_bitcast = i_uitofp = i_sitofp = i_fptoui = i_fptosi = i_fpext = i_fptrunc = cast

    def i_freeze(self, st, fr, ins):
        fr.regs[ins.dst] = self.val(st, fr, ins.a[0][1], ins.a[0][0]); fr.ip += 1

    def i_select(self, st, fr, ins):
        c, t, x, y = ins.a
        cv = self.val(st, fr, c, ("i", 1))
        a = self.val(st, fr, x, t); b = self.val(st, fr, y, t)
        if not isinstance(cv, B): cv = i2b(cv)
        d = self.decide(st, cv)
        if d is not None: r = a if d else b
        elif isinstance(a, (FnRef,)) or isinstance(a, Agg):
            r = a if self.branch(st, cv) else b
        else: r = vite(cv, a, b)
        fr.regs[ins.dst] = r
        fr.ip += 1

    def i_phi(self, st, fr, ins):
        # all phis of the block at once
        blk = fr.fn.blocks[fr.blk]; vals = []
        i = fr.ip
        while i < len(blk) and blk[i].op == "phi":
            t, inc = blk[i].a
            for v, b in inc:
                if b == fr.prev: vals.append((blk[i].dst, self.val(st, fr, v, t))); break
            else: raise Unsupported("phi")
            i += 1
        for k, v in vals: fr.regs[k] = v
        fr.ip = i

    def i_br(self, st, fr, ins):
        if ins.a[0] is None: self.goto(st, fr, ins.a[1]); return
        c = self.val(st, fr, ins.a[0], ("i", 1))
        if not isinstance(c, B): c = i2b(c)
        self.goto(st, fr, ins.a[1] if self.branch(st, c) else ins.a[2])

    def i_switch(self, st, fr, ins):
        t, v, d, cs = ins.a
        x = self.toi(self.val(st, fr, v, t)); M = 1 << t[1]
        if x.isconst():
            for c, b in cs:
                if c % M == x.c: self.goto(st, fr, b); return
            self.goto(st, fr, d); return
        by = {}
        for c, b in cs: by.setdefault(b, []).append(eq(x, c % M))
        opts = []; rest = []
        for b, es in by.items():
            if b == d: continue
            opts.append((b, Or(*es))); rest += [Not(e) for e in es]
        opts.append((d, And(*rest)))
        self.goto(st, fr, self.choose(st, opts))

    def i_unreachable(self, st, fr, ins):
        self.prove(st, FALSE, "unreachable code reached (line %d)" % ins.line)
        raise Infeasible()

    def i_fence(self, st, fr, ins): fr.ip += 1

    def i_extractvalue(self, st, fr, ins):
        t, v, idx = ins.a
        x = self.val(st, fr, v, t)
        for i in idx: x = x.es[i]
        fr.regs[ins.dst] = x; fr.ip += 1

    def i_insertvalue(self, st, fr, ins):
        t, v, t2, v2, idx = ins.a
        x = self.val(st, fr, v, t); y = self.val(st, fr, v2, t2)
        def put(a, ix):
            es = list(a.es); es[ix[0]] = y if len(ix) == 1 else put(es[ix[0]], ix[1:])
            return Agg(es, a.ty)
        fr.regs[ins.dst] = put(x, idx); fr.ip += 1

    def i_ret(self, st, fr, ins):
        t, v = ins.a
        x = None if v is None else self.val(st, fr, v, t)
        for a in fr.allocas:
            o = self.wobj(st, a); o.live = False
        if len(st.frames) == 1:
            return ("ret", x)
        st.frames.pop()
        up = st.frames[-1]
        if fr.dst is not None: up.regs[fr.dst] = x
        up.ip += 1

    # ---------------------------------------------------------------- calls
    def push(self, st, fn, mod, args, dst, extra=()):
        f = Frame.__new__(Frame)
        f.fn = fn; f.mod = mod; f.regs = {}; f.locs = {}; f.blk = fn.order[0]; f.prev = None; f.ip = 0; f.loops = []
        f.dst = dst; f.site = None; f.allocas = []; f.va = tuple(extra); f.retty = fn.ret
        for (name, t, a), v in zip(fn.params, args):
            f.regs[name] = v
        st.frames.append(f)
        return f

    def i_call(self, st, fr, ins):
        t, callee, args = ins.a
        if callee.startswith("@llvm.dbg") or callee.startswith("@llvm.lifetime"):
            fr.ip += 1; return
        if callee.startswith("@"):
            name = callee[1:]
        else:
            x = fr.regs[callee[1:]]
            if isinstance(x, PIte):
                while isinstance(x, PIte): x = x.a if self.branch(st, x.c) else x.b
            if isinstance(x, HookFn):
                v = x.call(self, st, [self.val(st, fr, v, at) for at, v, aa in args], self.where(fr, ins, x.name))
                if ins.dst is not None: fr.regs[ins.dst] = v
                fr.ip += 1; return
            if isinstance(x, PureFn):
                v = x.uf(*[self.val(st, fr, v, at) for at, v, aa in args])
                if ins.dst is not None: fr.regs[ins.dst] = i2b(v) if t == ("i", 1) else v
                fr.ip += 1; return
            if isinstance(x, FnRef): name = x.name
            else: raise Unsupported("call through a function pointer")
        vals = []
        for at, v, aa in args:
            x = self.val(st, fr, v, at)
            if "byval" in aa:
                bt = aa["byval"]; n = fr.mod.size(bt)
                o = self.new_obj(st, "byval", n, "cells"); fr.allocas.append(o.id)
                self.mem_copy(st, Ptr(o.id, ZERO), x, n, "byval argument")
                x = Ptr(o.id, ZERO)
            vals.append(x)
        site = self.where(fr, ins, name)
        if name.startswith("llvm."):
            self.intrinsic(st, fr, ins, name, vals, site); return
        con = self.contracts.get(name)
        weak = self.opts.get("using", {}).get(name)
        if weak is not None:
            # an abstraction of the callee's (separately verified) contract
            self.used_contracts.add(name)
            r = self.Contract(name, weak, (), {}).apply(self, st, vals, t, fr.mod, site)
            if ins.dst is not None: fr.regs[ins.dst] = r
            fr.ip += 1
            return
        if con is not None and name != self.noctr and name not in self.opts.get("inlines", ()) and name not in self.opts.get("by_body", ()) and not self.opts.get("inline_all") and not con.opts.get("inline"):
            try: r = con.apply(self, st, vals, t, fr.mod, site)
            except Unsupported:
                # this contract has no form for callers: its body is followed instead (see driver.verify)
                self.no_form = name; raise
            self.used_contracts.add(name)
            if ins.dst is not None: fr.regs[ins.dst] = r
            fr.ip += 1
            return
        hit = self.prog.lookup(name, fr.mod)
        if hit is not None:
            mod, fn = hit
            if len(st.frames) > 40 or sum(1 for f in st.frames if f.fn is fn) > 2: raise Unsupported("recursion in " + name)
            self.inlined.add(name)
            n = len(fn.params)
            for (at, v, aa), x, pr in zip(args, vals, fn.params): pass
            self.push(st, fn, mod, vals[:n], ins.dst, vals[n:])
            return
        f = getattr(self, "c_" + name, None)
        if f is None: raise Unsupported("external function " + name)
        self.assumptions.add("libc contract assumed: " + name)
        r = f(st, fr, vals, site, t)
        if ins.dst is not None: fr.regs[ins.dst] = r
        fr.ip += 1

    def intrinsic(self, st, fr, ins, name, v, site):
        r = None
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            what = self.where(fr, ins, "memcpy" if "memcpy" in name else "memmove")
            if "memcpy" in name: self.no_overlap(st, v[0], v[1], v[2], what)
            self.mem_copy(st, v[0], v[1], v[2], what)
        elif name.startswith("llvm.memset"):
            self.mem_set(st, v[0], v[1], v[2], self.where(fr, ins, "memset"))
            if isinstance(v[1], Lin) and v[1].isconst() and v[1].c % 256 == 0: self.add_nul(st, v[0], ZERO)
        elif name.startswith("llvm.va_start"): self.va_start(st, fr, v[0])
        elif name.startswith("llvm.va_end"): pass
        elif name.startswith("llvm.va_copy"): self.mem_copy(st, v[0], v[1], 24, site)
        elif name.startswith("llvm.ctlz"): r = UF("ctlz", 1, 0, 64)(v[0])
        elif name.startswith("llvm.expect"): r = v[0]
        elif name.startswith("llvm.stacksave"): r = NULLP
        elif name.startswith("llvm.stackrestore"): pass
        elif name.startswith("llvm.is.fpclass") and v[1].isconst():
            x = v[0].bits
            if v[0].w == 10 and v[1].c == 3 and x.isconst(): r = mkb((x.c >> 64) & 0x7FFF == 0x7FFF and (x.c & ((1 << 63) - 1)) != 0)
            else: r = eq(UF("fpclass%d_%d" % (v[1].c, v[0].w), 1, 0, 1)(x), 1)
        elif name.startswith("llvm.fabs"): r = Flt(UF("fabs_%d" % v[0].w, 1, 0, (1 << (8 * v[0].w)) - 1)(v[0].bits), v[0].w)
        elif re.match(r"llvm\.(umax|umin)\.", name):
            r = ite(v[0] <= v[1], v[1] if "umax" in name else v[0], v[0] if "umax" in name else v[1])
        else: raise Unsupported(name)
        if ins.dst is not None: fr.regs[ins.dst] = r
        fr.ip += 1

    def va_start(self, st, fr, p):
        named = [t for _, t, _ in fr.fn.params]
        gp = sum(1 for t in named if t[0] in ("i", "ptr"))
        regs = self.new_obj(st, "reg_save_area", 176, "cells"); over = self.new_obj(st, "overflow_area", 8 * max(1, len(fr.va)), "cells")
        fr.allocas += [regs.id, over.id]
        g = gp; k = 0; fpn = sum(1 for t in named if t[0] in ("double", "float"))
        for x in fr.va:
            if isinstance(x, Agg): raise Unsupported("aggregate vararg")
            if isinstance(x, Flt):
                if fpn < 8: regs.cells[48 + 16 * fpn] = (8, x); fpn += 1
                else: over.cells[8 * k] = (8, x); k += 1
                continue
            if isinstance(x, B): x = b2i(x)
            if g < 6: regs.cells[8 * g] = (8, x); g += 1
            else: over.cells[8 * k] = (8, x); k += 1
        p = self.concrete(st, p)
        self.store(st, p, L(8 * gp), ("i", 32), fr.mod)
        self.store(st, Ptr(p.obj, p.off + 4), L(48), ("i", 32), fr.mod)
        self.store(st, Ptr(p.obj, p.off + 8), Ptr(over.id, ZERO), ("ptr",), fr.mod)
        self.store(st, Ptr(p.obj, p.off + 16), Ptr(regs.id, ZERO), ("ptr",), fr.mod)

    def no_overlap(self, st, d, s, n, what):
        d = self.concrete(st, d); s = self.concrete(st, s)
        if isinstance(d.obj, int) and isinstance(s.obj, int) and d.obj == s.obj and d.obj != 0:
            self.prove(st, Or(eq(n, 0), d.off >= s.off + n, s.off >= d.off + n, eq(d.off, s.off)), what + ": memcpy ranges do not overlap")

    # ---------------------------------------------------------------- loops
    def handle_loop(self, st, header, body):
        fr = st.frames[-1]
        key = (fr.fn.name, header)
        self.nloops += 1
        if self.loopcache.get(key) != "cut" or self.opts.get("always_unroll"):
            r = self.try_unroll(st, header, body, key)
            if r is not None: return r
        from . import loops as LP
        return LP.cut_loop(self, st, header, body, key)

    def mkstop(self, d, header, body):
        def stop(s):
            if len(s.frames) == d:
                f = s.frames[-1]
                if f.ip == 0:
                    if f.blk == header: return "back"
                    if f.blk not in body: return "exit"
            return None
        return stop

    def body_once(self, st, header, body):
        s = st.clone(); s.pc = "skip"
        d = len(s.frames)
        backs = []; exits = []
        for r in self.explore([s], self.mkstop(d, header, body)):
            if r[0] == "back": backs.append(r[1])
            elif r[0] == "exit": exits.append(r[1])
            else: raise Unsupported("return inside a loop body")
        return backs, exits

    def try_unroll(self, st, header, body, key):
        K = self.opts.get("unroll", 70)
        self.dry += 1
        try:
            cur = [st]; ok = False; n = 0
            while n < K:
                n += 1; nb = []; ne = 0
                for s in cur:
                    b, e = self.body_once(s, header, body)
                    if b and e: nb = None; break
                    nb += b; ne += len(e)
                if nb is None or len(nb) > self.opts.get("unroll_paths", 4): break
                if not nb: ok = True; break
                cur = nb
        except Unsupported:
            self.dry -= 1
            self.loopcache[key] = "cut"
            return None
        except BaseException:
            self.dry -= 1
            raise
        self.dry -= 1
        if not ok:
            if n == 1: self.loopcache[key] = "cut"
            return None
        if self.dry:
            pass
        outs = []; cur = [st]
        for _ in range(n):
            nb = []
            for s in cur:
                b, e = self.body_once(s, header, body)
                nb += b; outs += e
            cur = nb
        if cur: return None
        for s in outs: s.pc = None
        return outs

FORKING = {"load", "store", "call", "br", "switch", "select", "icmp", "ptrtoint", "inttoptr", "getelementptr", "ret"}

def fpbits(s, ty):
    import struct
    if ty[0] == "x86_fp80": return int(s[3:], 16) if s.startswith("0xK") else 0
    v = struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0] if s.startswith("0x") else float(s)
    if ty[0] == "float": return struct.unpack("<I", struct.pack("<f", v))[0]
    return struct.unpack("<Q", struct.pack("<d", v))[0]
