"""Contracts of msg_span/msg_span.c: reading the source line table of a span (line k is record k; there are src.len of them)."""
from hvc.spec import *
from hvc.terms import *
P_ = ["C22"]
def span(E):
    v = E.struct(0, "HarbolMsgSpan")
    E.req(v["src.len"] * 16 <= MAXOBJ, "sizes")
    if E.isnull(v, "src.lines"): return v, None
    return v, E.buf(v, "src.lines", v["src.len"] * 16, w=8)
@contract("harbol_msg_span_get_line", props=P_)
def _(E):
    v, b = span(E); k = E.int(1)
    if b is None: return [Outcome("no lines", ret=NULLP)]
    return [Outcome("line", when=k < v["src.len"], ret=b.ptr(k * 2)), Outcome("past the last line", when=k >= v["src.len"], ret=NULLP)]
@contract("harbol_msg_span_get_num_lines", props=P_)
def _(E):
    v = E.struct(0, "HarbolMsgSpan")
    return [Outcome("number", ret=v["src.len"])]
@contract("harbol_msg_span_get_code", props=P_)
def _(E):
    v = E.struct(0, "HarbolMsgSpan")
    return [Outcome("code", ret=Ptr(v.obj, L(v.off + v.loc("src.code.cstr")[0])))]
