"""Contracts of msg_span/msg_span.c: merging is decided bit-precisely. A span is passed and returned in two 64-bit registers."""
import z3
from hvc.bv import bvcontract
def part(a, b):
    """line_start, line_end, colm_start, colm_end of a span held in two registers"""
    return [z3.Extract(31, 0, a), z3.Extract(63, 32, a), z3.Extract(31, 0, b), z3.Extract(63, 32, b)]
@bvcontract("harbol_token_span_merge", ["C22"])
def _(E):
    p = part(E.int(0), E.int(1)); q = part(E.int(2), E.int(3))
    lo = lambda x, y: z3.If(z3.ULE(x, y), x, y); hi = lambda x, y: z3.If(z3.UGE(x, y), x, y)
    def post(r, s):
        r = part(r[0], r[1])
        return [("starts at the smaller line", r[0] == lo(p[0], q[0])), ("ends at the larger line", r[1] == hi(p[1], q[1])),
                ("starts at the smaller column", r[2] == lo(p[2], q[2])), ("ends at the larger column", r[3] == hi(p[3], q[3]))]
    return post
