"""Contracts of the UTF-8 primitives of lex/lex.c, decided bit-precisely for every code point, byte content and length.
The oracle is the table of RFC 3629; decoding is specified on exactly the bytes that table gives for a code point."""
import z3
from hvc.bv import bvcontract
B = lambda n: z3.BitVecVal(n, 8)
W = lambda n: z3.BitVecVal(n, 32)
V = lambda n: z3.BitVecVal(n, 64)
def length(c): return z3.If(z3.ULE(c, W(0x7F)), V(1), z3.If(z3.ULE(c, W(0x7FF)), V(2), z3.If(z3.ULE(c, W(0xFFFF)), V(3), V(4))))
def std(c):
    """the four bytes (unused ones 0) of the standard encoding"""
    t = lambda sh: z3.Extract(7, 0, z3.URem(z3.UDiv(c, W(1 << sh)), W(64))) + B(0x80)
    h = lambda sh, m: z3.Extract(7, 0, z3.UDiv(c, W(1 << sh))) + B(m)
    n = length(c); pick = lambda a, b, d, e: z3.If(n == 1, a, z3.If(n == 2, b, z3.If(n == 3, d, e)))
    z = B(0)
    return [pick(z3.Extract(7, 0, c), h(6, 0xC0), h(12, 0xE0), h(18, 0xF0)), pick(z, t(0), t(6), t(12)), pick(z, z, t(0), t(6)), pick(z, z, z, t(0))]
def at(s, o, k): return s.mem[o][k][1]
MAXCP = 0x10FFFF
@bvcontract("rune_byte_len", ["C15"])
def _(E):
    c = E.int(0); E.req(c >= 0)
    return lambda r, s: [("length of the standard encoding", z3.Implies(z3.ULE(c, W(MAXCP)), r == length(c))), ("no code point", z3.Implies(z3.UGT(c, W(MAXCP)), r == 0))]
@bvcontract("get_utf8_len", ["C15", "C16"])
def _(E):
    b = E.int(0)
    c = z3.BitVec("codepoint", 32); enc = z3.And(z3.ULE(c, W(MAXCP)), b == std(c)[0])
    return lambda r, s: [("length of the encoding beginning with the byte", z3.Implies(enc, r == length(c))), ("between 1 and 8", z3.And(z3.UGE(r, V(1)), z3.ULE(r, V(8))))]
@bvcontract("write_utf8_cstr", ["C15"])
def _(E):
    n = E.int(1); c = E.int(2); E.req(c >= 0)
    o, old = E.buf(0, 4, 1, "buf", lim=z3.If(z3.ULT(n, V(4)), n, V(4)))
    def post(r, s):
        fits = z3.And(z3.ULE(c, W(MAXCP)), z3.UGE(n, length(c))); e = std(c)
        return [("length written, or 0 when it does not fit", r == z3.If(fits, length(c), V(0)))] + \
               [("byte %d" % k, at(s, o, k) == z3.If(z3.And(fits, z3.UGT(length(c), V(k))), e[k], old[k])) for k in range(4)]
    return post
def text(E, i, n):
    """argument i: a terminated text of n bytes, its first five bytes"""
    o, b = E.buf(i, 5, 1, "text", lim=z3.If(z3.ULT(n, V(4)), n + 1, V(5)))
    E.req(z3.And(*[z3.Implies(z3.ULT(V(k), n), b[k] != 0) for k in range(5)] + [z3.Implies(n == V(k), b[k] == 0) for k in range(5)]))
    return b
def begins(b, n, c):
    """the text begins with the encoding of c, or with all of it that fits"""
    return z3.And(z3.ULE(c, W(MAXCP)), c != 0, *[z3.Implies(z3.And(z3.UGT(length(c), V(k)), z3.UGT(n, V(k))), b[k] == x) for k, x in enumerate(std(c))])
@bvcontract("read_utf8", ["C15", "C16"])
def _(E):
    n = E.int(1); b = text(E, 0, n); o, _ = E.buf(2, 1, 4, "rune"); c = z3.BitVec("codepoint", 32); enc = begins(b, n, c)
    return lambda r, s: [("length of the encoding, or 0 when truncated", z3.Implies(enc, r == z3.If(z3.UGE(n, length(c)), length(c), V(0)))),
                         ("the code point, or -1 when truncated", z3.Implies(z3.And(enc, n != 0), at(s, o, 0) == z3.If(z3.UGE(n, length(c)), c, W(-1)))),
                         ("no more than the text", z3.ULE(r, n)), ("nothing at the end", z3.Implies(n == 0, z3.And(r == 0, at(s, o, 0) == W(-1))))]
@bvcontract("read_utf8_rune", ["C15", "C16"])
def _(E):
    n = E.int(1); b = text(E, 0, n); c = z3.BitVec("codepoint", 32); enc = begins(b, n, c)
    return lambda r, s: [("the code point, or -1 when truncated", z3.Implies(z3.And(enc, n != 0), r == z3.If(z3.UGE(n, length(c)), c, W(-1)))), ("nothing at the end", z3.Implies(n == 0, r == 0))]
@bvcontract("write_utf8_str", ["C15"], record=("harbol_string_add_char",))
def _(E):
    v = E.struct(0, "HarbolString"); c = E.int(1); E.req(c >= 0)
    def post(r, s):
        ok = z3.ULE(c, W(MAXCP)); e = std(c); n = len(s.log)
        return [("refused when no code point", (r if z3.is_bool(r) else r != 0) == ok), ("as many bytes as the encoding has, none when refused", V(n) == z3.If(ok, length(c), V(0)))] + \
               [("byte %d, appended to the given text" % k, z3.Implies(ok, z3.And(z3.BoolVal((o, f) == (v["_o"], 0)), x == e[k]))) for k, (o, f, x) in enumerate(s.log[:4])]
    return post
