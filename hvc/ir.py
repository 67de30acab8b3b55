"""Reader for the textual LLVM IR that clang 18 emits at -O0 (x86-64)."""
import re

TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\.)*"            |
   "(?:[^"\\]|\\.)*"             |
   [%@](?:"[^"]*"|[-\w.$]+)      |
   ![\w.]*                       |
   \#\d+                         |
   0x[KLMHR]?[0-9A-Fa-f]+        |
   -?\d+\.\d+(?:e[-+]?\d+)?      |
   -?\d+                         |
   \.\.\.                        |
   [A-Za-z_][\w.]*               |
   [()\[\]{}<>,=*:]
)''', re.X)

def toks(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise Exception("tok: %r" % s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out

ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "returned",
         "immarg", "dso_local", "inreg", "nofree", "readnone", "noalias", "nest", "swiftself", "allocptr", "allocalign", "dead_on_unwind", "writable", "nounwind", "willreturn", "mustprogress"}

class P:
    def __init__(self, t): self.t = t; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def acc(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def exp(self, x):
        if not self.acc(x): raise Exception("expected %s at %s" % (x, self.t[max(0, self.i - 4):self.i + 6]))

    def type(self):
        x = self.next()
        if re.fullmatch(r"i\d+", x): t = ("i", int(x[1:]))
        elif x in ("ptr", "void", "double", "float", "x86_fp80", "metadata", "label", "half", "token"): t = (x,)
        elif x == "[":
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp("]"); t = ("arr", n, e)
        elif x == "{":
            fs = []
            if not self.acc("}"):
                while True:
                    fs.append(self.type())
                    if self.acc("}"): break
                    self.exp(",")
            t = ("struct", tuple(fs), False)
        elif x == "<":
            if self.peek() == "{":
                self.next(); fs = []
                if not self.acc("}"):
                    while True:
                        fs.append(self.type())
                        if self.acc("}"): break
                        self.exp(",")
                self.exp(">"); t = ("struct", tuple(fs), True)
            else:
                n = int(self.next()); self.exp("x"); e = self.type(); self.exp(">"); t = ("vec", n, e)
        elif x.startswith("%"): t = ("named", x[1:].strip('"'))
        elif x == "opaque": t = ("opaque",)
        else: raise Exception("type? %s in %s" % (x, self.t))
        while self.peek() == "(" and False: pass
        # function type  "ret (args...)"
        if self.peek() == "(" and t is not None and self._fnty():
            t = ("fn", t)
        return t
    def _fnty(self):
        # called only in call instructions with explicit function type
        j = self.i; d = 0
        while j < len(self.t):
            if self.t[j] == "(": d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0: break
            j += 1
        nxt = self.t[j + 1] if j + 1 < len(self.t) else None
        if nxt and (nxt.startswith("@") or nxt.startswith("%")) and j + 2 < len(self.t) and self.t[j + 2] == "(":
            self.i = j + 1
            return True
        return False

    def attrs(self):
        out = {}
        while True:
            x = self.peek()
            if x in ATTRS: self.next(); out[x] = True
            elif x in ("align",):
                self.next()
                if self.acc("("): self.next(); self.exp(")")
                else: self.next()
            elif x in ("byval", "sret", "dereferenceable", "dereferenceable_or_null", "elementtype"):
                self.next()
                self.exp("(")
                if x in ("byval", "sret", "elementtype"): out[x] = self.type()
                else: self.next()
                self.exp(")")
            else: return out

    def const(self, ty):
        x = self.next()
        if x.startswith("%"): return ("reg", x[1:].strip('"'))
        if x.startswith("@"): return ("global", x[1:].strip('"'))
        if re.fullmatch(r"-?\d+", x): return ("const", int(x))
        if x == "true": return ("const", 1)
        if x == "false": return ("const", 0)
        if x == "null": return ("null",)
        if x in ("undef", "poison"): return ("undef",)
        if x == "zeroinitializer": return ("zero",)
        if x.startswith("0x") or re.fullmatch(r"-?\d+\.\d+(?:e[-+]?\d+)?", x): return ("fp", x)
        if x.startswith('c"'): return ("cstr", cbytes(x[2:-1]))
        if x in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next(); close = "}"
                es = self._agg("}"); self.exp(">"); return ("agg", es)
            return ("agg", self._agg(close))
        if x == "getelementptr":
            self.acc("inbounds"); self.exp("(")
            st = self.type(); self.exp(","); args = []
            while True:
                t = self.type(); args.append((t, self.const(t)))
                if self.acc(")"): break
                self.exp(",")
            return ("cgep", st, args)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.exp("("); t = self.type(); v = self.const(t); self.exp("to"); t2 = self.type(); self.exp(")")
            return ("ccast", x, t, v, t2)
        if x in ("metadata",) or x.startswith("!"):
            return ("meta", x)
        raise Exception("const? %s in %s" % (x, self.t))
    def _agg(self, close):
        es = []
        if self.acc(close): return es
        while True:
            t = self.type(); es.append((t, self.const(t)))
            if self.acc(close): return es
            self.exp(",")
    def tv(self):
        t = self.type(); self.attrs(); return t, self.const(t)

def cbytes(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ("op", "dst", "a", "line", "text", "fl")
    def __repr__(self): return self.text

class Fn:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.ret = None; self.pattrs = []
        self.vararg = False; self.srcname = {}; self.file = None; self.line = 0

class Module:
    def __init__(self): self.fns = {}; self.structs = {}; self.globals = {}; self.decls = {}; self.md = {}
    # ---- layout
    def size(self, t):
        k = t[0]
        if k == "i": return max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()) if t[1] <= 64 else (t[1] + 7) // 8
        if k == "ptr": return 8
        if k == "double": return 8
        if k == "float": return 4
        if k == "x86_fp80": return 16
        if k == "arr": return t[1] * self.size(t[2])
        if k == "vec": return t[1] * self.size(t[2])
        if k in ("struct", "named"): return self.layout(t)[1]
        if k == "void": return 1
        raise Exception("size %s" % (t,))
    def align(self, t):
        k = t[0]
        if k in ("arr",): return self.align(t[2])
        if k in ("struct", "named"): return self.layout(t)[2]
        return self.size(t)
    def layout(self, t):
        packed = False
        if t[0] == "named":
            d = self.structs[t[1]]; fs, packed = d[1], d[2]
        else: fs, packed = t[1], t[2]
        off = 0; offs = []; al = 1
        for f in fs:
            a = 1 if packed else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.size(f)
        return offs, (off + al - 1) // al * al, al
    def fields(self, t):
        if t[0] == "named": return self.structs[t[1]][1]
        return t[1]

FLAGS = {"nsw", "nuw", "exact", "inbounds", "volatile", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "tail", "musttail", "notail", "samesign"}

def parse(text):
    M = Module(); fn = None; blk = None
    lines = text.split("\n"); n = 0
    md = M.md
    while n < len(lines):
        s = lines[n]; n += 1
        if not s or s.startswith(";") or s.startswith("source_filename") or s.startswith("target") or s.startswith("attributes"): continue
        if s.startswith("!"):
            m = re.match(r"!(\d+) = (?:distinct )?(.*)$", s)
            if m: md[int(m.group(1))] = m.group(2)
            continue
        if fn is None:
            if s.startswith("%"):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', s)
                p = P(toks(m.group(2))); M.structs[m.group(1).strip('"')] = p.type()
            elif s.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', s)
                body = m.group(2); isconst = False
                ws = body
                mm = re.match(r"^(?:(?:private|internal|external|common|weak|linkonce_odr|dso_local|unnamed_addr|local_unnamed_addr|thread_local|hidden|appending)\s+)*(global|constant)\s+(.*)$", ws)
                if not mm: continue
                isconst = mm.group(1) == "constant"
                rest = re.sub(r", (align \d+|section .*|!dbg.*|comdat.*)$", "", mm.group(2))
                while True:
                    r2 = re.sub(r", (align \d+|!dbg !\d+)$", "", rest)
                    if r2 == rest: break
                    rest = r2
                p = P(toks(rest)); t = p.type()
                v = None
                if p.peek() is not None: v = p.const(t)
                M.globals[m.group(1).strip('"')] = (t, v, isconst)
            elif s.startswith("define"):
                fn = parse_define(s); M.fns[fn.name] = fn; blk = None
                m = re.search(r"!dbg !(\d+)", s)
                if m: fn.file = int(m.group(1))
            elif s.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", s)
                if m: M.decls[m.group(1)] = s
            continue
        if s == "}":
            fn = None; continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
        if m:
            blk = m.group(1).strip('"'); fn.blocks[blk] = []; fn.order.append(blk); continue
        # instruction
        line = 0
        m = re.search(r", !dbg !(\d+)", s)
        if m: line = int(m.group(1))
        body = re.sub(r"(, ![\w.]+ !\d+)+\s*$", "", s.strip())
        if body.startswith("switch") and body.endswith("["):
            while not lines[n].strip().startswith("]"):
                body += " " + lines[n].strip(); n += 1
            m = re.search(r"!dbg !(\d+)", lines[n])
            if m: line = int(m.group(1))
            body += " ]"; n += 1
        if blk is None: blk = "entry"; fn.blocks[blk] = []; fn.order.append(blk)
        ins = parse_ins(body, fn)
        if ins is not None:
            ins.line = line; ins.text = body
            fn.blocks[blk].append(ins)
    # resolve lines
    loc = {}
    for k, v in md.items():
        if v.startswith("!DILocation("):
            m = re.search(r"line: (\d+)", v); loc[k] = int(m.group(1)) if m else 0
    names = {}
    for k, v in md.items():
        if v.startswith("!DILocalVariable("):
            m = re.search(r'name: "([^"]*)"', v); names[k] = m.group(1) if m else None
    for f in M.fns.values():
        if isinstance(f.file, int):
            v = md.get(f.file, ""); m = re.search(r"line: (\d+)", v); f.line = int(m.group(1)) if m else 0
            m = re.search(r"file: !(\d+)", v); fv = md.get(int(m.group(1)), "") if m else ""
            m = re.search(r'filename: "([^"]*)"', fv); f.file = m.group(1) if m else "?"
        for b in f.blocks.values():
            for i in b: i.line = loc.get(i.line, 0)
        f.srcname = {a: names.get(mdn) for a, mdn in f.srcname.items()}
    return M

def parse_define(s):
    m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", s)
    fn = Fn(m.group(1).strip('"'))
    # return type: tokens between 'define' and '@'
    head = toks(s[len("define"):m.start()])
    p = P([x for x in head if x not in ("dso_local", "internal", "hidden", "weak", "linkonce_odr", "private", "local_unnamed_addr", "unnamed_addr")])
    p.attrs(); fn.ret = p.type()
    # params
    i = m.end(); d = 1; j = i
    while d:
        if s[j] == "(": d += 1
        elif s[j] == ")": d -= 1
        j += 1
    p = P(toks(s[i:j - 1]))
    while p.peek() is not None:
        if p.acc("..."): fn.vararg = True; break
        t = p.type(); a = p.attrs(); x = p.next()
        fn.params.append((x[1:].strip('"'), t, a))
        if not p.acc(","): break
    return fn

def parse_ins(body, fn):
    ins = Ins(); ins.dst = None; ins.fl = set()
    m = re.match(r'^%("[^"]*"|[-\w.$]+) = (.*)$', body)
    if m: ins.dst = m.group(1).strip('"'); body = m.group(2)
    if body.startswith("call void @llvm.dbg.") or body.startswith("tail call void @llvm.dbg."):
        m = re.search(r"metadata ptr %(\"[^\"]*\"|[-\w.$]+), metadata !(\d+)", body)
        if m: fn.srcname[m.group(1).strip('"')] = int(m.group(2))
        return None
    p = P(toks(body)); op = p.next()
    while op in ("tail", "musttail", "notail"): op = p.next()
    ins.op = op
    def flags():
        while p.peek() in FLAGS: ins.fl.add(p.next())
    flags()
    if op == "alloca":
        t = p.type(); cnt = None
        if p.acc(","):
            if p.peek() == "align": pass
            else: cnt = p.tv()
        ins.a = (t, cnt)
    elif op == "load":
        t = p.type(); p.exp(","); pt, v = p.tv(); ins.a = (t, v)
    elif op == "store":
        t = p.type(); p.attrs(); v = p.const(t); p.exp(","); _, q = p.tv(); ins.a = (t, v, q)
    elif op == "getelementptr":
        flags(); t = p.type(); p.exp(","); args = [p.tv()]
        while p.acc(","): args.append(p.tv())
        ins.a = (t, args)
    elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                "fadd", "fsub", "fmul", "fdiv", "frem"):
        t = p.type(); x = p.const(t); p.exp(","); y = p.const(t); ins.a = (t, x, y)
    elif op in ("icmp", "fcmp"):
        flags(); pred = p.next(); t = p.type(); x = p.const(t); p.exp(","); y = p.const(t); ins.a = (pred, t, x, y)
    elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
        t = p.type(); v = p.const(t); p.exp("to"); t2 = p.type(); ins.a = (t, v, t2)
    elif op == "br":
        if p.acc("label"): ins.a = (None, p.next()[1:].strip('"'))
        else:
            t = p.type(); c = p.const(t); p.exp(","); p.exp("label"); a = p.next()[1:].strip('"'); p.exp(","); p.exp("label"); b = p.next()[1:].strip('"')
            ins.a = (c, a, b)
    elif op == "switch":
        t = p.type(); v = p.const(t); p.exp(","); p.exp("label"); d = p.next()[1:].strip('"'); p.exp("["); cs = []
        while not p.acc("]"):
            t2 = p.type(); c = p.const(t2); p.exp(","); p.exp("label"); cs.append((c[1], p.next()[1:].strip('"')))
        ins.a = (t, v, d, cs)
    elif op == "ret":
        t = p.type(); ins.a = (t, None if t == ("void",) else p.const(t))
    elif op == "phi":
        t = p.type(); inc = []
        while True:
            p.exp("["); v = p.const(t); p.exp(","); b = p.next()[1:].strip('"'); p.exp("]"); inc.append((v, b))
            if not p.acc(","): break
        ins.a = (t, inc)
    elif op == "select":
        ct = p.type(); c = p.const(ct); p.exp(","); t = p.type(); x = p.const(t); p.exp(","); t2 = p.type(); y = p.const(t2)
        ins.a = (c, t, x, y)
    elif op == "call":
        flags(); p.attrs()
        t = p.type(); va = False
        if t[0] == "fn": t = t[1]
        callee = p.next(); p.exp("("); args = []
        if not p.acc(")"):
            while True:
                at = p.type(); aa = p.attrs(); v = p.const(at); args.append((at, v, aa))
                if p.acc(")"): break
                p.exp(",")
        ins.a = (t, callee[0] + callee[1:].strip('"'), args)
    elif op == "extractvalue":
        t, v = p.tv(); idx = []
        while p.acc(","): idx.append(int(p.next()))
        ins.a = (t, v, idx)
    elif op == "insertvalue":
        t, v = p.tv(); p.exp(","); t2, v2 = p.tv(); idx = []
        while p.acc(","): idx.append(int(p.next()))
        ins.a = (t, v, t2, v2, idx)
    elif op == "va_arg":
        t, v = p.tv(); p.exp(","); ins.a = (v, p.type())
    elif op in ("unreachable", "freeze", "fneg", "fence"):
        ins.a = (p.tv(),) if op in ("freeze", "fneg") else ()
    else:
        raise Exception("ins? " + body)
    return ins
