"""Compilation of the current tree to IR, and the program seen as a set of modules."""
import os, re, subprocess, hashlib, pickle
from . import ir as IR

FLAGS = ["-std=c99", "-w", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-S", "-emit-llvm"]

def _int(v, k, d=0):
    m = re.search(r"\b%s: (\d+)" % k, v)
    return int(m.group(1)) if m else d
def _ref(v, k):
    m = re.search(r"\b%s: !(\d+)" % k, v)
    return int(m.group(1)) if m else None

def strip(md, r):
    """resolve typedefs and qualifiers"""
    while r is not None:
        v = md.get(r, "")
        if v.startswith("!DIDerivedType(tag: DW_TAG_") and re.match(r"!DIDerivedType\(tag: DW_TAG_(typedef|const_type|volatile_type|restrict_type)", v): r = _ref(v, "baseType")
        else: return r, v
    return None, ""

def dsize(md, r):
    while r is not None:
        v = md.get(r, "")
        n = _int(v, "size")
        if n: return n // 8
        r = _ref(v, "baseType")
    return 0

def flatten(md, r, base, pre, out):
    r, v = strip(md, r)
    if r is None: return
    if v.startswith("!DICompositeType") or v.startswith("distinct"):
        pass
    if "DW_TAG_structure_type" in v or "DW_TAG_union_type" in v:
        els = _ref(v, "elements")
        for m in re.findall(r"!(\d+)", md.get(els, "")):
            mv = md[int(m)]
            if "DW_TAG_member" not in mv: continue
            nm = re.search(r'name: "([^"]*)"', mv)
            off = base + _int(mv, "offset") // 8
            bt = _ref(mv, "baseType")
            p = pre + ("." if pre and nm else "") + (nm.group(1) if nm else "")
            if "DIFlagBitField" in mv:
                out.setdefault(p, (off, 4, "bit")); continue
            flatten(md, bt, off, p, out)
        return
    if "DW_TAG_array_type" in v:
        bt = _ref(v, "baseType"); es = dsize(md, bt); n = 1
        for m in re.findall(r"!(\d+)", md.get(_ref(v, "elements"), "")):
            c = re.search(r"count: (\d+)", md[int(m)])
            n *= int(c.group(1)) if c else 0
        if n <= 64:
            for k in range(n): flatten(md, bt, base + k * es, "%s[%d]" % (pre, k), out)
        else: out[pre] = (base, n * es, "arr")
        return
    if "DW_TAG_pointer_type" in v: out[pre] = (base, 8, "p"); return
    if "DW_TAG_enumeration_type" in v: out[pre] = (base, _int(v, "size", 32) // 8, "i"); return
    if v.startswith("!DIBasicType"):
        n = _int(v, "size") // 8
        if n == 16 and "DW_ATE_float" in v: n = 10
        out[pre] = (base, n, "f" if "DW_ATE_float" in v else "i"); return
    out[pre] = (base, dsize(md, r), "?")

def find(md, name):
    for k, v in md.items():
        if ("DW_TAG_structure_type" in v or "DW_TAG_union_type" in v) and 'name: "%s"' % name in v and "DIFlagFwdDecl" not in v: return k
    for k, v in md.items():
        if "DW_TAG_typedef" in v and 'name: "%s"' % name in v:
            return k
    return None

def dbgfields(self, ty):
    c = self.__dict__.setdefault("_dbg", {})
    if ty in c: return c[ty]
    k = find(self.md, ty)
    if k is None:
        for m in self.siblings:
            k2 = find(m.md, ty)
            if k2 is not None:
                out = {}; flatten(m.md, k2, 0, "", out); c[ty] = out
                return out
        raise KeyError("type " + ty)
    out = {}; flatten(self.md, k, 0, "", out)
    c[ty] = out
    return out
def dbgsize(self, ty):
    k = find(self.md, ty)
    if k is None:
        for m in self.siblings:
            k2 = find(m.md, ty)
            if k2 is not None: return dsize(m.md, k2)
        raise KeyError("type " + ty)
    return dsize(self.md, k)
IR.Module.dbgfields = dbgfields
IR.Module.dbgsize = dbgsize
IR.Module.siblings = ()

class Program:
    def __init__(self, mods):
        self.mods = mods
        for m in mods.values(): m.siblings = [x for x in mods.values() if x is not m]
    def lookup(self, name, mod):
        if mod is not None and name in mod.fns: return mod, mod.fns[name]
        for m in self.mods.values():
            if name in m.fns: return m, m.fns[name]
        return None

def compile_ir(src, out, incs=(), defs=()):
    p = subprocess.run(["clang"] + FLAGS + list(defs) + ["-I" + i for i in incs] + [src, "-o", out], capture_output=True, text=True)
    if p.returncode: raise Exception("clang failed on %s: %s" % (src, p.stderr[:500]))

def load(srcs, work, incs=(), defs=()):
    """name -> module"""
    os.makedirs(work, exist_ok=True)
    mods = {}
    for name, src in srcs.items():
        if isinstance(src, tuple):            # a translation unit made of nothing but includes
            tu = os.path.join(work, name + "_tu.c")
            open(tu, "w").write("".join('#include "%s"\n' % x for x in src)); src = tu
            d2 = list(defs) + ["-femit-all-decls"]
        else: d2 = defs
        out = os.path.join(work, name + ".ll")
        compile_ir(src, out, incs, d2)
        m = IR.parse(open(out).read()); m.name = name
        mods[name] = m
    return Program(mods)
