"""Contracts of lex/lex.c: every scanner stays within a zero-terminated text of any length and content, ends, and
reports an end position in it. Appending to the output string is used through an abstraction of the (separately
verified) contracts of str/str.c: a valid string goes in and comes out, nothing but the string changes."""
from hvc.spec import *
from hvc.loops import Cand

VALID = UF("valid_string", 1, 0, 1)     # ghost: the string with this length is one the string functions left behind
NL = 10
def out(E, i):
    """output string"""
    E.unread = ("cstr",)
    v = E.struct(i, "HarbolString"); E.req(eq(VALID(v.len), 1), "valid string")
    if E.verify:
        E.setfield(v, "cstr", fresh("storage", 0, (1 << 64) - 1))     # never looked at here
        E.cands.append(lambda lc: [Cand(lambda vals, it, k=k: eq(VALID(vals[k]), 1) if isinstance(vals[k], Lin) else None, v.name + " stays valid") for k, w in lc.mods.items() if w.kind == "i" and w.bits == 64])
    return v
def grown(v): return {(v, "len"): ANY, (v, "cstr"): ANY if v.E.verify else fresh("storage", 0, (1 << 64) - 1)}
def still(E, v):
    def fn():
        off, w, _ = v.loc("len"); c = E.st.objs[v.obj].cells.get(v.off + off)
        return [eq(VALID(c[1]), 1)]
    return fn
def w_add_char(E):
    v = out(E, 0); E.int(1)
    return [Outcome("added or not", sets=grown(v), facts=still(E, v))]
def w_add_text(E):
    """the text so far contains no terminator"""
    v = out(E, 0); c = E.int(1); E.req(ne(c, 0), "not a terminator")
    return [Outcome("added or not", sets=grown(v), facts=still(E, v))]
def w_add_cstr(E):
    v = out(E, 0); E.cstr_arg(1)
    return [Outcome("added or not", sets=grown(v), facts=still(E, v))]
def w_write_utf8(E):
    v = out(E, 0); E.int(1)
    return [Outcome("added or not", sets=grown(v), facts=still(E, v))]
def w_read_utf8(E):
    s = E.cstr_arg(0); n = E.int(1); E.req(eq(n, s.len), "the whole rest of the text"); r = E.cell_arg(2, 4)
    return [Outcome("read", ret=lambda x: And(x >= 0, x <= n), sets={r: ANY})]
APP = {"read_utf8": w_read_utf8, "harbol_string_add_char": w_add_char, "harbol_string_add_cstr": w_add_cstr, "write_utf8_str": w_write_utf8}
TEXT = dict(APP, harbol_string_add_char=w_add_text)
P = ["C16"]

def still_text(E, s):
    E.inv("no terminator before the end", lambda cur, it, k: Or(k < 0, k >= s.len, ne(cur(s, k), 0)))
    E.inv("terminated", lambda cur, it, k: Or(ne(k, s.len), eq(cur(s, k), 0)))
def within(E, s, lo=0): return In(s, lo, s.len)
def token(E, i, j):
    t = E.cstr_arg(i); n = E.int(j)
    E.req(And(eq(n, t.len), n > 0), "length of the token")
    return t
@contract("skip_chars", props=P)
def _(E):
    s = E.cstr_arg(0); E.pure_arg(1); n = E.cell_arg(2, 4)
    return [Outcome("skipped", ret=within(E, s), sets={n: ANY})]
@contract("skip_chars_until_newline", props=P)
def _(E):
    s = E.cstr_arg(0); E.pure_arg(1)
    return [Outcome("skipped", ret=within(E, s))]
@contract("skip_string_literal", props=P)
def _(E):
    s = E.cstr_arg(0); E.int(1)
    return [Outcome("skipped", ret=within(E, s))]
@contract("skip_single_line_comment", props=P)
def _(E):
    s = E.cstr_arg(0); n = E.cell_arg(1, 4)
    return [Outcome("skipped", ret=within(E, s), sets={n: ANY})]
@contract("skip_multi_line_comment", props=P)
def _(E):
    s = E.cstr_arg(0); token(E, 1, 2); n = E.cell_arg(3, 4)
    return [Outcome("skipped", ret=within(E, s), sets={n: ANY})]
def blanked(E, s): return {BV(E, s.obj, s.off, s.len, 1, "i", s.name, s.chain): None}
@contract("clear_single_line_comment", props=P)
def _(E):
    s = E.cstr_arg(0); still_text(E, s)
    return [Outcome("blanked", ret=within(E, s), mods=blanked(E, s))]
@contract("clear_multi_line_comment", props=P)
def _(E):
    s = E.cstr_arg(0); token(E, 1, 2); still_text(E, s)
    return [Outcome("blanked", ret=within(E, s), mods=blanked(E, s))]
@contract("skip_multiquote_string", props=P)
def _(E):
    s = E.cstr_arg(0); token(E, 1, 2); E.int(3)
    return [Outcome("skipped", ret=within(E, s))]
def endcell(E, i): return E.cell_arg(i, 8, "p", init=False)
@contract("lex_single_line_comment", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2); n = E.cell_arg(3, 4)
    return [Outcome("read", sets={e: within(E, s), n: ANY, **grown(v)}, facts=still(E, v))]
@contract("lex_multi_line_comment", props=P, using=TEXT)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); token(E, 2, 3); v = out(E, 4); n = E.cell_arg(5, 4)
    return [Outcome("read", sets={e: within(E, s), n: ANY, **grown(v)}, facts=still(E, v))]
@contract("lex_multiquote_string", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); token(E, 2, 3); v = out(E, 4); n = E.cell_arg(5, 8)
    return [Outcome("read", sets={e: within(E, s), n: ANY, **grown(v)}, facts=still(E, v))]
def escape(E):
    s = E.cstr_arg(0); e = endcell(E, 1)
    return [Outcome("read", sets={e: within(E, s)})]
contract("lex_hex_escape_char", props=P)(escape)
@contract("lex_octal_escape_char", props=P)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1)
    dig = lambda k: And(s.old(k) >= 48, s.old(k) <= 55)
    big = And(dig(0), dig(1), dig(2), dig(3), ne(s.old(4), 0))      # five characters or more: refused
    return [Outcome("read", when=Not(big), sets={e: within(E, s)}), Outcome("refused", when=big, ret=L((1 << 32) - 1), sets={e: In(s, 0, s.len, e)})]
@contract("lex_unicode_char", props=P)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); n = E.int(2); E.req(n < 1 << 62, "width")
    return [Outcome("read", sets={e: within(E, s)})]
EOF = None
def number(isf, pick=False):
    def spec(E):
        s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2); sets = {e: within(E, s), **grown(v)}
        if isf: sets[E.cell_arg(3, 1)] = ANY
        c = s.old(0); num = Or(eq(c, 46), And(c >= 48, c <= 57)) if pick else s.len > 0
        return [Outcome("nothing to read", when=Not(num)), Outcome("read", when=num, sets=sets, facts=still(E, v))]
    return spec
for _n, _f in [("lex_c_style_hex", 1), ("lex_go_style_hex", 1), ("lex_c_style_octal", 1), ("lex_go_style_octal", 0), ("lex_c_style_binary", 0), ("lex_go_style_binary", 0), ("lex_c_style_decimal", 1), ("lex_go_style_decimal", 1), ("lex_c_style_number", 1), ("lex_go_style_number", 1)]:
    contract(_n, props=P, using=APP, loose_bits="zero" if "decimal" in _n else True)(number(_f, "number" in _n))
@contract("lex_c_style_str", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2)
    return [Outcome("read", sets={e: within(E, s), **grown(v)}, facts=still(E, v))]
@contract("lex_go_style_str", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2)
    return [Outcome("read", sets={e: within(E, s), **grown(v)}, facts=still(E, v))]
@contract("lex_until_false", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2); E.pure_arg(3)
    return [Outcome("read", sets={e: within(E, s), **grown(v)}, facts=still(E, v))]
@contract("lex_until_false_utf8", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2); E.pure_arg(3)
    return [Outcome("read", sets={e: within(E, s), **grown(v)}, facts=still(E, v))]
@contract("lex_c_style_identifier", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2); c = s.old(0)
    alpha = Or(And(c >= 97, c <= 122), And(c >= 65, c <= 90), eq(c, 95), And(c >= 128, c <= 254))
    return [Outcome("no identifier", when=Not(alpha)), Outcome("read", when=alpha, sets={e: within(E, s), **grown(v)}, facts=still(E, v))]
@contract("lex_until", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); v = out(E, 2); E.int(3)
    return [Outcome("read", sets={e: within(E, s), **grown(v)}, facts=still(E, v))]

def w_utf8_len(E):
    E.int(0)
    return [Outcome("length", ret=lambda x: And(x >= 1, x <= 8))]
@contract("get_str_rune_len", props=P, using={"get_utf8_len": w_utf8_len})
def _(E):
    s = E.cstr_arg(0)
    return [Outcome("counted", ret=lambda x: And(x >= 0, x <= s.len))]
@contract("utf8_to_rune_iter", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); n = E.int(1); E.req(eq(n, s.len), "length of the text"); i = E.cell_arg(2, 8)
    x = i.old()
    return [Outcome("at the end", when=x >= n, ret=L((1 << 32) - 1)), Outcome("read", when=x < n, sets={i: ANY}, facts=lambda: [moved(E, i, x, n)])]
def moved(E, i, x, n):
    v = E.st.objs[i.obj].cells[i.off][1]
    return And(v >= x, v <= n)
@contract("find_rune_in_runes", props=P)
def _(E):
    n = fresh("count", 0, 1 << 60); r = E.buf_arg(0, 4 * (n + 1), 4); c = E.int(1); E.req(eq(r.old(n), 0))
    E.st.facts.append(forall(lambda j: Or(j < 0, j >= n, ne(r.old(j), 0)), "runes"))
    f = E.least("first", 0, n, lambda j: eq(r.old(j), c))
    return [Outcome("found", when=f < n, ret=f), Outcome("not found", when=f >= n, ret=L((1 << 64) - 1))]
@contract("lex_custom_number", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); e = endcell(E, 1); E.ptr_arg(2); v = out(E, 3)
    return [Outcome("read", sets={e: within(E, s)})]
@contract("utf8_cstr_to_rune", props=P, using=APP)
def _(E):
    s = E.cstr_arg(0); n = E.int(1); E.req(eq(n, s.len), "length of the text"); m = E.cell_arg(2, 8, init=False)
    return [Outcome("converted", ret=NewBuf(4, None, 4, name="runes", atleast=True), sets={m: ANY}, facts=lambda: [In0(E, m, n)]), Outcome("out of memory", nomem=True, ret=NULLP, sets={m: ZERO})]
def In0(E, c, n):
    v = E.st.objs[c.obj].cells[c.off][1]
    return And(v >= 0, v <= n)
@contract("utf8_str_to_rune", props=P)
def _(E):
    v = E.struct(0, "HarbolString"); s = E.buf(v, "cstr", v.len + 1, nul=(v.len,)); E.req(eq(s.old(v.len), 0))
    E.st.facts.append(forall(lambda j: Or(j < 0, j >= v.len, ne(s.old(j), 0)), "text")); m = E.cell_arg(1, 8, init=False)
    return [Outcome("converted", ret=NewBuf(4, None, 4, name="runes", atleast=True), sets={m: ANY}), Outcome("out of memory", nomem=True, ret=NULLP, sets={m: ZERO})]
