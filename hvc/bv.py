"""Bit-precise verification of word-level functions: every path of the real IR is executed over z3 bit vectors
(loops are followed until their condition is decided; a loop that is not bounded by its own code is refused),
and each clause of the contract is proved on each path."""
import time, struct
import z3
from .engine import Unsupported

CON = {}
class BVContract:
    def __init__(self, name, fn, props, opts): self.name = name; self.fn = fn; self.props = tuple(props); self.opts = opts
def bvcontract(name, props, **opts):
    def deco(fn):
        CON[name] = BVContract(name, fn, props, opts); return fn
    return deco

class P:
    __slots__ = ("o", "off")
    def __init__(self, o, off): self.o = o; self.off = off
NULL = P(None, 0)
class F:
    """floating point value by bits (opaque arithmetic)"""
    def __init__(self, b): self.b = b

class St:
    def __init__(self): self.mem = {}; self.size = {}; self.pc = []; self.n = 0; self.ro = set(); self.lim = {}; self.log = ()   # lim: object -> symbolic size
    def clone(self):
        s = St(); s.mem = {k: dict(v) for k, v in self.mem.items()}; s.size = dict(self.size); s.pc = list(self.pc); s.n = self.n; s.ro = set(self.ro); s.lim = self.lim; s.log = self.log
        return s
    def new(self, size):
        self.n += 1; self.mem[self.n] = {}; self.size[self.n] = size
        return self.n

class BVExec:
    def __init__(self, prog, name, opts):
        self.prog = prog; self.name = name; self.opts = opts; self.obl = {}
        self.s = z3.Solver(); self.s.set("timeout", 60000)
        self.q = 0; self.t = 0.0; self.paths = 0; self.deadline = time.time() + opts.get("budget", 200)
        self.fops = {}; self.inl = set(); self.used = set()
    def sat(self, *cs):
        self.q += 1; t = time.time()
        self.s.push()
        for c in cs: self.s.add(c)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop(); self.t += time.time() - t
        return r
    def feas(self, st, c): return self.sat(*st.pc, c) != z3.unsat
    def prove(self, st, c, name):
        o = self.obl.setdefault(name, {"name": "%s: %s" % (self.name, name), "status": "proved", "time": 0, "detail": None, "model": None, "line": 0})
        if isinstance(c, bool): c = z3.BoolVal(c)
        t = time.time()
        r = self.sat(*st.pc, z3.Not(c))
        o["time"] = round(o["time"] + time.time() - t, 3)
        if r != z3.unsat:
            if o["status"] == "proved":
                o["status"] = "failed" if r == z3.sat else "unknown"
                o["detail"] = "goal: %s" % str(c)[:400]; o["model"] = str(self.model)[:1500] if self.model is not None else None
        return r == z3.unsat

    def bits(self, ty): return {"double": 64, "float": 32, "x86_fp80": 80}.get(ty[0]) or (ty[1] if ty[0] == "i" else 64)
    def val(self, fr, v, ty):
        k = v[0]
        if k == "reg": return fr["r"][v[1]]
        if k == "const":
            return z3.BoolVal(bool(v[1] & 1)) if ty == ("i", 1) else z3.BitVecVal(v[1], ty[1])
        if k == "null": return NULL
        if k == "zero" and ty[0] == "i": return z3.BoolVal(False) if ty[1] == 1 else z3.BitVecVal(0, ty[1])
        if k == "undef" and ty[0] == "i": return z3.BitVec("undef%d" % self.q, ty[1])
        if k == "fp":
            from .exec import fpbits
            return z3.BitVecVal(fpbits(v[1], ty), self.bits(ty))
        m = fr["m"]
        if k == "global":
            return P(self.glob(fr["st"], m, v[1]), 0)
        raise Unsupported("operand " + k)
    def glob(self, st, m, name):
        key = ("g", m.name, name)
        if key not in st.mem:
            t, v, const = m.globals[name]
            st.mem[key] = d = {}; st.size[key] = m.size(t)
            if not const: raise Unsupported("mutable global")
            st.ro.add(key)
            if t[0] != "arr" or t[2][0] != "i": raise Unsupported("global shape")
            w = m.size(t[2])
            if v[0] == "agg": data = [(x[1][1] if x[1][0] == "const" else 0) for x in v[1]]
            elif v[0] == "zero": data = [0] * t[1]
            else: data = list(v[1])
            for i, x in enumerate(data): d[i * w] = (w, z3.BitVecVal(x, 8 * w))
        return key
    def load(self, st, p, w, what):
        if p.o is None: self.prove(st, False, what + ": not null"); raise Unsupported("null")
        d = st.mem[p.o]; n = st.size[p.o]
        if p.o in st.lim: self.prove(st, z3.ULE(p.off + z3.BitVecVal(w, 64), st.lim[p.o]), what + ": in bounds")
        if isinstance(p.off, int):
            if not (0 <= p.off <= n - w): self.prove(st, False, what + ": in bounds"); raise Unsupported("out of bounds")
            c = d.get(p.off)
            if c is None or c[0] != w: return self.mixed(d, p, w)
            return c[1]
        off = z3.simplify(p.off)
        if z3.is_bv_value(off): return self.load(st, P(p.o, off.as_signed_long()), w, what)
        self.prove(st, z3.And(z3.ULE(off, n - w)), what + ": in bounds")
        self.separate(st, d, off, w)
        ks = sorted(k for k in d if d[k][0] == w)
        if not ks: raise Unsupported("uninitialised load")
        if len(ks) > 700: raise Unsupported("large table")
        r = d[ks[-1]][1]
        for k in reversed(ks[:-1]): r = z3.If(off == k, d[k][1], r)
        return r
    def separate(self, st, d, off, w):
        """an access at a symbolic offset must not touch cells of another width, nor lie between cells"""
        ks = [k for k in d if d[k][0] != w]
        if ks:
            lo, hi = min(ks), max(k + d[k][0] for k in ks)
            if self.feas(st, z3.And(off + w > lo, off < hi)): raise Unsupported("symbolic access to cells of another width")
        if w > 1 and self.feas(st, z3.URem(off, z3.BitVecVal(w, 64)) != 0): raise Unsupported("unaligned symbolic access")
    def mixed(self, d, p, w):
        """bytes [off, off+w) put together from cells of other widths (little endian)"""
        k = p.off; parts = []
        while k < p.off + w:
            hit = next(((o, c) for o, c in d.items() if o <= k < o + c[0]), None)
            if hit is None or not z3.is_bv(hit[1][1]): raise Unsupported("uninitialised or mixed load at %s+%d" % (p.o, p.off))
            o, (cw, x) = hit; n = min(o + cw, p.off + w) - k; lo = 8 * (k - o)
            parts.append(z3.Extract(lo + 8 * n - 1, lo, x)); k += n
        return z3.simplify(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0])
    def clip(self, d, off, w):
        """make room for a cell: cells partly covered keep their other bytes"""
        for o in [o for o, c in d.items() if o < off + w and off < o + c[0] and not (o == off and c[0] == w)]:
            cw, x = d.pop(o)
            for a, b in ((o, min(off, o + cw)), (max(off + w, o), o + cw)):
                if a < b and z3.is_bv(x): d[a] = (b - a, z3.Extract(8 * (b - o) - 1, 8 * (a - o), x))
    def store(self, st, p, w, x, what):
        if p.o is None: self.prove(st, False, what + ": not null"); raise Unsupported("null")
        if p.o in st.ro: self.prove(st, False, what + ": writable")
        if p.o in st.lim: self.prove(st, z3.ULE(p.off + z3.BitVecVal(w, 64), st.lim[p.o]), what + ": in bounds")
        off = p.off
        if not isinstance(off, int):
            off = z3.simplify(off)
            if z3.is_bv_value(off): off = off.as_signed_long()
            else:
                n = st.size[p.o]
                self.prove(st, z3.ULE(off, n - w), what + ": in bounds")
                d = st.mem[p.o]
                self.separate(st, d, off, w)
                for k in d:
                    if d[k][0] == w: d[k] = (w, z3.If(off == k, x, d[k][1]))
                return
        if not (0 <= off <= st.size[p.o] - w): self.prove(st, False, what + ": in bounds"); raise Unsupported("out of bounds")
        c = st.mem[p.o].get(off)
        if c is None or c[0] != w: self.clip(st.mem[p.o], off, w)
        st.mem[p.o][off] = (w, x)

    # execution: returns list of (state, result)
    def call(self, st, m, fn, args, depth=0):
        if depth > 12: raise Unsupported("recursion")
        fr = {"r": {}, "m": m, "st": st, "fn": fn}
        for (nm, ty, at), a in zip(fn.params, args): fr["r"][nm] = a
        work = [(st, fr, fn.order[0], None, 0, 0)]
        out = []
        while work:
            st, fr, blk, prev, ip, steps = work.pop()
            if time.time() > self.deadline: raise Unsupported("time budget exhausted")
            fr["st"] = st
            ins_l = fn.blocks[blk]
            done = False
            while not done:
                ins = ins_l[ip]; op = ins.op; steps += 1
                if steps > 200000: raise Unsupported("loop bound")
                R = fr["r"]
                if op == "alloca":
                    t, cnt = ins.a; R[ins.dst] = P(st.new(m.size(t)), 0)
                elif op == "load":
                    t, v = ins.a; p = self.val(fr, v, ("ptr",)); R[ins.dst] = self.ld(st, p, t, m, "line %d: read" % ins.line)
                elif op == "store":
                    t, v, pv = ins.a[0], ins.a[1], ins.a[2]
                    x = self.val(fr, v, t); p = self.val(fr, pv, ("ptr",))
                    self.st_(st, p, t, x, m, "line %d: write" % ins.line)
                elif op == "getelementptr":
                    R[ins.dst] = self.gep(fr, ins, m)
                elif op in BIN:
                    t, a, b = ins.a; x = self.val(fr, a, t); y = self.val(fr, b, t)
                    R[ins.dst] = self.bin(st, op, t, x, y, ins)
                elif op == "icmp":
                    pred, t, a, b = ins.a; x = self.val(fr, a, t); y = self.val(fr, b, t)
                    R[ins.dst] = self.cmp(pred, x, y)
                elif op in ("zext", "sext", "trunc"):
                    t, v, t2 = ins.a; x = self.val(fr, v, t)
                    if t == ("i", 1): x = z3.If(x, z3.BitVecVal(-1 if op == "sext" else 1, t2[1]), z3.BitVecVal(0, t2[1])); R[ins.dst] = x
                    elif op == "zext": R[ins.dst] = z3.ZeroExt(t2[1] - t[1], x)
                    elif op == "sext": R[ins.dst] = z3.SignExt(t2[1] - t[1], x)
                    elif t2 == ("i", 1): R[ins.dst] = z3.Extract(0, 0, x) == 1
                    else: R[ins.dst] = z3.Extract(t2[1] - 1, 0, x)
                elif op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
                    R[ins.dst] = self.fl(fr, ins)
                elif op == "select":
                    c, t, x, y = ins.a; cv = self.val(fr, c, ("i", 1)); a = self.val(fr, x, t); b = self.val(fr, y, t)
                    cv = z3.simplify(cv)
                    if z3.is_true(cv): R[ins.dst] = a
                    elif z3.is_false(cv): R[ins.dst] = b
                    elif isinstance(a, P): raise Unsupported("pointer select")
                    else: R[ins.dst] = z3.If(cv, a, b)
                elif op == "freeze": R[ins.dst] = self.val(fr, ins.a[0][1], ins.a[0][0])
                elif op == "phi":
                    vals = []; i = ip
                    while i < len(ins_l) and ins_l[i].op == "phi":
                        t, inc = ins_l[i].a
                        for v, b in inc:
                            if b == prev: vals.append((ins_l[i].dst, self.val(fr, v, t)))
                        i += 1
                    for k, v in vals: R[k] = v
                    ip = i - 1
                elif op == "br":
                    if ins.a[0] is None: prev, blk, ip = blk, ins.a[1], -1; ins_l = fn.blocks[blk]
                    else:
                        c = z3.simplify(self.val(fr, ins.a[0], ("i", 1)))
                        if z3.is_true(c): t = ins.a[1]
                        elif z3.is_false(c): t = ins.a[2]
                        else:
                            a, b = self.feas(st, c), self.feas(st, z3.Not(c))
                            if a and b:
                                s2 = st.clone(); s2.pc.append(z3.Not(c))
                                work.append((s2, {"r": dict(R), "m": m, "st": s2, "fn": fn}, ins.a[2], blk, 0, steps))
                                st.pc.append(c); t = ins.a[1]
                                if len(work) > 3000: raise Unsupported("too many paths")
                            elif a: t = ins.a[1]
                            elif b: t = ins.a[2]
                            else: break
                        prev, blk, ip = blk, t, -1; ins_l = fn.blocks[blk]
                elif op == "switch":
                    t, v, d, cs = ins.a; x = self.val(fr, v, t)
                    nxt = []; rest = []
                    for c, b in cs:
                        e = x == z3.BitVecVal(c, t[1])
                        if self.feas(st, e): nxt.append((e, b))
                        rest.append(z3.Not(e))
                    e = z3.And(*rest) if rest else z3.BoolVal(True)
                    if self.feas(st, e): nxt.append((e, d))
                    for e, b in nxt[1:]:
                        s2 = st.clone(); s2.pc.append(e)
                        work.append((s2, {"r": dict(R), "m": m, "st": s2, "fn": fn}, b, blk, 0, steps))
                    if not nxt: break
                    st.pc.append(nxt[0][0]); prev, blk, ip = blk, nxt[0][1], -1; ins_l = fn.blocks[blk]
                elif op == "ret":
                    r = None
                    if ins.a[1] is not None: r = self.val(fr, ins.a[1], ins.a[0])
                    out.append((st, r)); break
                elif op == "call":
                    rs = self.docall(st, fr, ins, m, depth)
                    if rs is not None:
                        for s2, r in rs[1:]:
                            R2 = dict(R)
                            if ins.dst is not None: R2[ins.dst] = r
                            work.append((s2, {"r": R2, "m": m, "st": s2, "fn": fn}, blk, prev, ip + 1, steps))
                        if not rs: break
                        st, r = rs[0]; fr["st"] = st
                        if ins.dst is not None: R[ins.dst] = r
                elif op == "unreachable": self.prove(st, False, "unreachable"); break
                elif op == "fence": pass
                else: raise Unsupported("instruction " + op)
                ip += 1
        return out
    def ld(self, st, p, t, m, what):
        if t[0] in ("named", "struct") and isinstance(p.off, int):
            return [self.ld(st, P(p.o, p.off + o), f, m, what) for o, f in zip(m.layout(t)[0], m.fields(t))]
        w = m.size(t)
        x = self.load(st, p, w, what)
        if t == ("i", 1) and z3.is_bv(x): return z3.Extract(0, 0, x) == 1
        return x
    def st_(self, st, p, t, x, m, what):
        if t == ("i", 1): x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        self.store(st, p, m.size(t), x, what)
    def gep(self, fr, ins, m):
        t, args = ins.a; base = args[0]; idx = args[1:]
        p = self.val(fr, base[1], base[0])
        off = p.off
        def add(o, k): 
            if isinstance(k, int) and isinstance(o, int): return o + k
            if isinstance(k, int): k = z3.BitVecVal(k, 64)
            if isinstance(o, int): o = z3.BitVecVal(o, 64)
            return o + k
        for n, (it, iv) in enumerate(idx):
            x = self.val(fr, iv, it)
            x = z3.simplify(x)
            c = x.as_signed_long() if z3.is_bv_value(x) else (z3.SignExt(64 - it[1], x) if it[1] < 64 else x)
            if n == 0: off = add(off, c * m.size(t))
            elif t[0] == "arr": off = add(off, c * m.size(t[2])); t = t[2]
            else: off = add(off, m.layout(t)[0][c]); t = m.fields(t)[c]
        return P(p.o, off)
    def bin(self, st, op, t, x, y, ins):
        if t == ("i", 1):
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y)
        if op in ("udiv", "urem", "sdiv", "srem"): self.prove(st, y != 0, "line %d: divisor not zero" % ins.line)
        if op in ("shl", "lshr", "ashr"): self.prove(st, z3.ULT(y, t[1]), "line %d: shift amount in range" % ins.line)
        if "nsw" in ins.fl:
            if op == "add": self.prove(st, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), "line %d: no signed overflow" % ins.line)
            elif op == "sub": self.prove(st, z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), "line %d: no signed overflow" % ins.line)
            elif op == "mul": self.prove(st, z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), "line %d: no signed overflow" % ins.line)
        return BIN[op](x, y)
    def cmp(self, pred, x, y):
        if isinstance(x, P) or isinstance(y, P):
            same = isinstance(x, P) and isinstance(y, P) and x.o == y.o
            e = (x.off == y.off) if same else False
            if not isinstance(e, bool): e = z3.simplify(e)
            r = e if not isinstance(e, bool) else z3.BoolVal(e)
            return r if pred == "eq" else z3.Not(r)
        if z3.is_bool(x):
            e = x == y; return e if pred == "eq" else z3.Not(e)
        return {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
                "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
    def fl(self, fr, ins):
        """floating point by IEEE semantics of z3"""
        D = lambda ty: z3.Float64() if ty[0] == "double" else z3.Float32() if ty[0] == "float" else None
        op = ins.op
        if op in ("uitofp", "sitofp"):
            t, v, t2 = ins.a; x = self.val(fr, v, t)
            f = z3.fpToFP(z3.RNE(), x, D(t2)) if op == "sitofp" else z3.fpUnsignedToFP(z3.RNE(), x, D(t2))
            return f
        if op == "fneg": return z3.fpNeg(self.fv(fr, ins.a[0][1], ins.a[0][0]))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            t, a, b = ins.a; x = self.fv(fr, a, t); y = self.fv(fr, b, t)
            return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](z3.RNE(), x, y)
        raise Unsupported(op)
    def fv(self, fr, v, t):
        x = self.val(fr, v, t)
        if z3.is_bv(x): x = z3.fpBVToFP(x, z3.Float64() if t[0] == "double" else z3.Float32())
        return x
    def docall(self, st, fr, ins, m, depth):
        t, callee, args = ins.a; name = callee[1:]
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.va_end"): return None
        vals = [self.val(fr, v, at) for at, v, aa in args] if not name.startswith("llvm.memcpy") else None
        if name.startswith("llvm.memcpy"):
            d = self.val(fr, args[0][1], args[0][0]); s = self.val(fr, args[1][1], args[1][0]); n = args[2][1][1]
            for k, (w, x) in list(st.mem[s.o].items()):
                if s.off <= k < s.off + n: st.mem[d.o][d.off + k - s.off] = (w, x)
            return [(st, None)]
        if name.startswith("llvm.memset"):
            d = self.val(fr, args[0][1], args[0][0]); x = z3.simplify(self.val(fr, args[1][1], args[1][0])); n = z3.simplify(self.val(fr, args[2][1], args[2][0]))
            if not (z3.is_bv_value(x) and x.as_long() == 0 and z3.is_bv_value(n) and isinstance(d.off, int)): raise Unsupported("memset")
            if d.off + n.as_long() > st.size[d.o]: self.prove(st, False, "line %d: memset in bounds" % ins.line); raise Unsupported("out of bounds")
            small = n.as_long() <= 32 or n.as_long() % 8 or d.off % 8
            if small:
                self.clip(st.mem[d.o], d.off, n.as_long())
                st.mem[d.o].pop(d.off, None)
                for k in range(d.off, d.off + n.as_long()): st.mem[d.o][k] = (1, z3.BitVecVal(0, 8))
                return [(st, None)]
            for k in range(d.off, d.off + n.as_long(), 8): st.mem[d.o][k] = (8, z3.BitVecVal(0, 64))
            return [(st, None)]
        if name.startswith("llvm.ctlz"):
            x = vals[0]; n = x.size()
            if z3.is_true(vals[1]) if z3.is_bool(vals[1]) else False: self.prove(st, x != 0, "line %d: count leading zeros of a non-zero value" % ins.line)
            r = z3.BitVecVal(n, n)
            for k in range(n): r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(n - 1 - k, n), r)
            return [(st, r)]
        if name.startswith("llvm.expect"): return [(st, vals[0])]
        if name.startswith("llvm.abs") or name in ("labs", "abs", "llabs"):
            x = vals[0]; self.prove(st, x != z3.BitVecVal(1 << (x.size() - 1), x.size()), "line %d: abs of the minimum" % ins.line)
            return [(st, z3.If(x < 0, -x, x))]
        if name in self.opts.get("record", ()):
            # the callee, under a contract of its own, appends a character to the text its first argument stands for: the appended characters, in order
            self.used.add(name); st.log += ((vals[0].o, vals[0].off, vals[1]),)
            return [(st, z3.BoolVal(True))]
        hit = self.prog.lookup(name, m)
        if hit is None: raise Unsupported("external " + name)
        if name in self.opts.get("abstract", ()):
            # the callee is under a contract that admits any value; its effects are not read afterwards
            self.used.add(name)
            return [(st, z3.BitVec("ret_" + name, hit[1].ret[1]))]
        self.inl.add(name)
        return self.call(st, hit[0], hit[1], vals, depth + 1)

BIN = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem,
       "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y}

class Env:
    def __init__(self, ex, st, mod, fn): self.ex = ex; self.st = st; self.mod = mod; self.fn = fn; self.args = [None] * len(fn.params); self.pre = []
    def int(self, i):
        ty = self.fn.params[i][1]
        x = z3.Bool(self.fn.params[i][0]) if ty == ("i", 1) else z3.BitVec(self.fn.params[i][0], ty[1])
        self.args[i] = x
        return x
    def req(self, c): self.st.pc.append(c)
    def struct(self, i, ty):
        fs = self.mod.dbgfields(ty)
        n = self.mod.dbgsize(ty)
        o = self.st.new(n); d = self.st.mem[o]; out = {}
        for f, (off, w, kind) in fs.items():
            if kind == "arr": continue
            x = z3.BitVec("%s" % f, 8 * w); d[off] = (w, x); out[f] = x
        self.args[i] = P(o, 0); out["_o"] = o; out["_f"] = fs
        return out
    def array(self, o, base, n, w, name):
        xs = [z3.BitVec("%s_%d" % (name, k), 8 * w) for k in range(n)]
        for k in range(n): self.st.mem[o][base + k * w] = (w, xs[k])
        return xs
    def buf(self, i, n, w, name, lim=None):
        """n elements; lim: the caller's object only extends over this many bytes"""
        o = self.st.new(n * w); self.args[i] = P(o, 0)
        if lim is not None: self.st.lim[o] = lim
        return o, self.array(o, 0, n, w, name)

def verify(prog, name, opts=None):
    con = CON[name]; t0 = time.time()
    res = {"function": name, "status": "?", "obligations": [], "time": 0, "reason": "", "assumptions": [], "inlined": [], "callees": [], "loops": {}, "backend": "z3 bit vectors"}
    hit = prog.lookup(name, None)
    if hit is None: res["status"] = "missing"; res["reason"] = "function not found in the current source"; return res
    ex = BVExec(prog, name, dict(opts or {}, **con.opts))
    try:
        st = St(); E = Env(ex, st, hit[0], hit[1])
        post = con.fn(E)
        rs = ex.call(st, hit[0], hit[1], E.args)
        ex.paths = len(rs)
        if not rs: ex.prove(st, False, "some execution returns")
        for s, r in rs:
            for lab, c in post(r, s): ex.prove(s, c, "post: " + lab)
    except Unsupported as e: res["status"] = "unsupported"; res["reason"] = str(e)
    except Exception as e:
        import traceback
        res["status"] = "unsupported"; res["reason"] = "internal: %r" % e; res["trace"] = traceback.format_exc()
    obs = list(ex.obl.values())
    bad = [o for o in obs if o["status"] == "failed"]; unk = [o for o in obs if o["status"] == "unknown"]
    if bad: res["status"] = "failed"
    elif unk: res["status"] = "failed"
    elif res["status"] == "?": res["status"] = "proved"
    res["obligations"] = obs; res["time"] = round(time.time() - t0, 2); res["queries"] = ex.q; res["solver_time"] = round(ex.t, 2); res["paths"] = ex.paths
    res["inlined"] = sorted(ex.inl); res["callees"] = sorted(ex.used)
    return res
