"""Contracts of math/math_parser.c. The tokens of a text are ghost functions of the position where the search for a token
starts (kind TAG, value VAL, length SIZE, characters LEX, position behind it END, malformed BAD); harbol_math_get_token is proved to
compute exactly them. What a nonterminal X makes of the tokens from position p at nesting depth d is again a ghost function: value
V_X, position of the first token behind it N_X, malformed M_X; the contract of each nonterminal defines its own ones by the grammar
over those of the others. Once something malformed was met only the bounds and the malformed flag matter. Floating point
operations are uninterpreted, so that values are equal exactly when they are computed by the same operations in the same order."""
from hvc.spec import *
from hvc.exec import HookFn
from specs.common import SZ, SMAX

INV, VAR, NUM, LP, RP, LB, RB, ADD, SUB, MUL, DIV, POW = range(12)
F80 = (1 << 80) - 1; NAN = 0x7FFFC000000000000000; SIZE_ = 64; DEPTH = 1000
TAG = UF("TAG", 1, 0, 11); VAL = UF("VAL", 1, 0, F80); SIZE = UF("SIZE", 1, 0, SIZE_ - 1); END = UF("END", 1, 0); BAD_ = UF("BAD", 1, 0, 1)
LEX = UF("LEX", 2, 0, 255); STRTOLD = UF("STRTOLD", 1, 0, F80)
BAD = lambda p: eq(BAD_(p), 1)
OP = {"+": "fadd_10", "-": "fsub_10", "*": "fmul_10", "/": "fdiv_10", "^": "powl", "neg": "fneg_10", "abs": "fabs_10"}
def op(o, *a): return UF(OP[o], len(a), 0, F80)(*a)
ISNAN = lambda x: eq(UF("fpclass3_10", 1, 0, 1)(x), 1)
HASF = UF("is_function", 1, 0, 1); HASV = UF("function_given", 1, 0, 1); VARV = UF("variable_value", 1, 0, F80); APPLY = UF("apply_function", 2, 0, F80)
RANK = {"harbol_math_parse_add_expr": 4, "harbol_math_parse_mul_expr": 3, "harbol_math_parse_pow_expr": 2, "harbol_math_parse_unary_expr": 1, "harbol_math_parse_factor": 5}
V_, N_, M_ = ({x: UF("%s_%s" % (k, x), 2, 0, h) for x in ("add", "mul", "pow", "unary", "factor")} for k, h in (("V", F80), ("N", None), ("M", 1)))

ALNUM = UF("ctype_8", 1, 0, 1)
def alnum(c): return eq(ALNUM(c), 1)
def digit(c): return And(c >= 48, c <= 57)
def white(c): return Or(eq(c, 32), eq(c, 9), eq(c, 10), eq(c, 13))
OPS = {LP: "(", RP: ")", LB: "[", RB: "]", ADD: "+", SUB: "-", MUL: "*", DIV: "/", POW: "^"}

def hook(E, v):
    """the function that looks up names: any function, told the name of the token at hand"""
    def call(eng, st, a, site):
        p = E.pos; text, n, val, fn, data, dl, isf = a; E2 = eng.E
        k = fresh("k", 0); s = st.clone(); s.facts += [k <= SIZE(p), Not(v.bad)]; s.hints = list(s.hints) + [k]
        eng.prove(s, eq(eng.toi(eng.byte_at(s, eng.concrete(s, text), k)), ite(k < SIZE(p), LEX(p, k), 0)), site + ": the name is the token's text, terminated")
        eng.prove(s, eq(n, SIZE(p)), site + ": length of the name"); eng.prove(st, eq(eng.byte_at(st, eng.concrete(st, text), L(SIZE_ - 1)), 0), site + ": the name is terminated")
        eng.prove(st, eng.ptr_eq(st, data, v.data), site + ": data"); eng.prove(st, eq(dl, v.data_len), site + ": length of the data")
        E.mod.fp = ("x86_fp80",)
        eng.store(st, val, Flt(VARV(p), 10), ("x86_fp80",), E.mod, site)
        g = eng.choose(st, [(True, eq(HASV(p), 1)), (False, ne(HASV(p), 1))])
        def app(eng, st, a, site): return Flt(APPLY(p, a[0].bits), 10)
        eng.store(st, fn, HookFn("function", app) if g else NULLP, ("ptr",), E.mod, site)
        eng.store(st, isf, HASF(p), ("i", 8), E.mod, site)
        return None
    return HookFn("var_func", call)

def lexer(E):
    """a valid lexer on a zero-terminated text"""
    v = E.struct(0, "HarbolMathLexer", "ls", arrays=("tok.lexeme",), ghosts=("pos",))
    if E.verify:
        E.setfield(v, "var_func", NULLP if E.isnull(v, "var_func") else hook(E, v)); E.setfield(v, "data", E.opaque("data"))
    s = E.cstr_arg(1); v.text = s; v.lex = v.arr["tok.lexeme"]; v.bad = ne(v.malformed, 0); v.n = s.len
    E.req(And(v.malformed <= 1, v.idx <= s.len, Or(eq(v.expr_len, s.len), eq(v.expr_len, 0)), v.depth <= DEPTH), "state of the lexer")
    return v
def bounds(v, p=None):
    """what holds of a lexer after something malformed"""
    fields = ["tok.val", "tok.size", "tok.tag", "idx", "pos"]
    sets = {(v, f): ANY for f in fields}; sets.update({(v, "malformed"): L(1), (v, "expr_len"): v.n})
    moved = lambda tag, idx: Or(eq(tag, 0), idx > v.idx, And(eq(idx, v.idx), eq(tag, v["tok.tag"])))
    def facts():
        g = lambda f: v.E.getfield_now(v, f)
        return [g("idx") <= v.n, g("idx") >= v.idx, g("tok.size") <= SIZE_ - 1, g("tok.tag") <= 11, eq(v.lex.new(SIZE_ - 1), 0), moved(g("tok.tag"), g("idx"))]
    return sets, facts
def token_facts(p, n): return [eq(LEX(p, SIZE_ - 1), 0), eq(LEX(p, SIZE(p)), 0), END(p) >= p, END(p) <= n, Or(eq(TAG(p), 0), END(p) > p)]

@contract("_harbol_math_get_token", props=["C21"], inlines=("_harbol_math_lex_decimal",))
def _(E):
    v = lexer(E); s = v.text; n = v.n; p = v.idx
    if E.verify:
        T = lambda k: s.old(k)
        w = E.least("start", p, n, lambda j: Not(white(T(j)))); c = T(w)
        r = E.least("end of the number", w, n, lambda j: Not(Or(alnum(T(j)), eq(T(j), 46))))
        a = E.least("end of the name", w, n, lambda j: Not(alnum(T(j))))
        l = E.least("letter", w, r, lambda j: And(alnum(T(j)), Not(digit(T(j)))))
        d = E.least("dot", w, r, lambda j: eq(T(j), 46)); d2 = E.least("second dot", d + 1, r, lambda j: eq(T(j), 46))
        isnum = Or(digit(c), eq(c, 46)); okn = And(l >= r, d2 >= r, r - w <= SIZE_ - 1, Not(And(eq(c, 46), eq(r, w + 1))))
        isop = {t: eq(c, ord(x)) for t, x in OPS.items()}; anyop = Or(*isop.values())
        isname = And(Not(isnum), alnum(c), w < n)
        E.ghost = (w, r, a)
        E.strtold = lambda eng, st, q, site: strtold(E, eng, st, q, site, T, w, r)
        bad = And(w < n, Or(And(isnum, Not(okn)), And(isname, a - w > SIZE_ - 1), Not(Or(isnum, isname, anyop))))
        tag = ite(w >= n, 0, ite(isnum, NUM, ite(isname, VAR, 0)))
        for t, b in isop.items(): tag = ite(And(w < n, b), t, tag)
        end = ite(w >= n, n, ite(isnum, r, ite(isname, a, w + 1))); size = ite(w >= n, 0, end - w)
        val = ite(And(w < n, isnum), STRTOLD(w), 0); lex = lambda k: ite(And(w < n, k < size), T(w + k), 0)
        E.inv("the lexeme so far", lambda cur, it, k: Or(k < 0, k >= SIZE_, eq(cur(v.lex, k), ite(k < it, T(w + k), 0))))
        E.sinv("size is the number of characters read", lambda get, it: eq(get(v, "tok.size"), get(v, "idx") - w))
        for nm, x in [("start", w), ("end of the number", r), ("end of the name", a), ("letter", l), ("second dot", d2)]: E.sinv("not beyond " + nm, lambda get, it, x=x: get(v, "idx") <= x)
    else:
        for f in token_facts(p, n): E.st.facts.append(f)
        bad = BAD(p); tag, end, size, val, lex = TAG(p), END(p), SIZE(p), VAL(p), lambda k: LEX(p, k)
    sets, facts = bounds(v)
    if E.verify: del sets[(v, "pos")]
    else: sets[(v, "pos")] = p
    fin = {(v, "tok.val"): Flt(val, 10), (v, "tok.size"): size, (v, "tok.tag"): tag, (v, "idx"): end, (v, "expr_len"): n, (v, "malformed"): v.malformed}
    if not E.verify: fin[(v, "pos")] = p
    prog = lambda: facts()[:-1] + [Or(eq(E.getfield_now(v, "tok.tag"), 0), E.getfield_now(v, "idx") > p)]
    return [Outcome("token", when=Not(bad), ret=ne(tag, 0), sets=fin, mods={v.lex: lex}),
            Outcome("malformed", when=bad, sets=sets, mods={v.lex: None}, facts=prog)]
def strtold(E, eng, st, q, site, T, w, r):
    k = fresh("k", 0); s = st.clone(); s.facts += [k < r - w]; s.hints = list(s.hints) + [k]; q = eng.concrete(s, q)
    eng.chk(st, q, r - w + 1, site)
    eng.prove(s, eq(eng.byte_at(s, q, k), T(w + k)), site + ": converts the literal's text")
    eng.prove(st, eq(eng.byte_at(st, q, r - w), 0), site + ": the literal is terminated")
    dot = And(eq(T(w), 46), eq(r, w + 1))
    return Flt(STRTOLD(w), 10), pite(dot, q, Ptr(q.obj, q.off + r - w))

# ------------------------------------------------------------------ nonterminals
def state(E, v):
    """the lexer stands on the token found from position pos, unless something was malformed before"""
    p = v.pos; E.pos = p; d = v.depth
    E.req(And(eq(v.expr_len, v.n), v["tok.tag"] <= 11, v["tok.size"] <= SIZE_ - 1, eq(v.lex.old(SIZE_ - 1), 0)), "state of the lexer")
    E.req(Or(v.bad, And(Not(BAD(p)), eq(v["tok.tag"], TAG(p)), eq(v["tok.size"], SIZE(p)), eq(bits(v["tok.val"]), VAL(p)), eq(v.idx, END(p)), END(p) <= v.n)), "the current token")
    E.st.facts.append(eq(LEX(p, SIZE(p)), 0))       # holds of every token
    if E.verify: E.st.facts.append(forall(lambda k: Or(v.bad, k < 0, k >= SIZE_, eq(v.lex.old(k), LEX(p, k))), "text of the token"))
    else:
        k = fresh("k", 0); s = E.st.clone(); s.facts = list(s.facts) + [k < SIZE_, Not(v.bad)]; s.hints = list(s.hints) + [k]
        E.eng.prove(s, eq(v.lex.old(k), LEX(p, k)), E.lab("text of the current token"))
    if not E.verify and E.eng.fname in RANK:      # the recursion ends: less depth left, or a nonterminal nearer to the factor at the same depth
        d0, me = E.eng.E.depth0, RANK[E.eng.fname]; you = RANK[E.fn.name]
        E.eng.prove(E.st, Or(d > d0, And(eq(d, d0), mkb(you < me))), E.lab("the recursion ends"))
    if E.verify: E.depth0 = d
    return p, d
def bits(x): return x.bits if isinstance(x, Flt) else x
def result(E, v, X, val, nxt, bad):
    """outcomes of nonterminal X: its ghost functions, defined by val, nxt, bad in its own verification"""
    p, d = v.pos, v.depth
    if not E.verify:
        val, nxt, bad = V_[X](p, d), N_[X](p, d), eq(M_[X](p, d), 1)
        E.st.facts += [eq(LEX(nxt, SIZE_ - 1), 0), Implies(And(Not(v.bad), Not(bad)), And(END(nxt) >= v.idx, END(nxt) <= v.n, Not(BAD(nxt)), Or(eq(TAG(nxt), 0), END(nxt) > v.idx)))]
    wrong = Or(v.bad, bad); sets, facts = bounds(v)
    fin = {(v, "pos"): nxt, (v, "tok.tag"): TAG(nxt), (v, "tok.size"): SIZE(nxt), (v, "tok.val"): Flt(VAL(nxt), 10), (v, "idx"): END(nxt), (v, "malformed"): L(0)}
    return [Outcome("value", when=Not(wrong), ret=Flt(val, 10), sets=fin, mods={v.lex: lambda k: LEX(nxt, k)}, facts=[END(nxt) >= v.idx, END(nxt) <= v.n, Not(BAD(nxt)), Or(eq(TAG(nxt), 0), END(nxt) > v.idx)] if E.verify else []),
            Outcome("malformed", when=wrong, sets=sets, mods={v.lex: None}, facts=facts)]
def chain(E, X, sub, ops):
    """X = sub *( op sub ), from left to right"""
    v = lexer(E); p, d = state(E, v)
    if not E.verify: return result(E, v, X, None, None, None)
    n = v.n; S = lambda q: (V_[sub](q, d), N_[sub](q, d), M_[sub](q, d))
    P = E.rec("operand", S(p)[1], lambda c, j: S(END(c))[1])
    tag = lambda j: TAG(P(j))
    def val(c, j):
        y = S(END(P(j)))[0]; r = c
        for t, o in ops.items(): r = ite(eq(tag(j), t), op(o, c, y), r)
        return r
    W = E.rec("value", S(p)[0], val, 0, F80)
    F = E.rec("wrong", S(p)[2], lambda c, j: ite(Or(eq(c, 1), BAD(END(P(j))), eq(S(END(P(j)))[2], 1)), 1, 0), 0, 1)
    more = lambda j: Or(*[eq(tag(j), t) for t in ops])
    K = E.least("operands", L(0), n + 2, lambda j: Or(eq(F(j), 1), Not(more(j))))
    E.hint_it = True
    ok = lambda get: eq(get(v, "malformed"), 0)
    E.sinv("the lexer stands behind the operands so far", lambda get, it: Or(Not(ok(get)), And(eq(get(v, "pos"), P(it)), eq(get(v, "tok.tag"), tag(it)), eq(get(v, "idx"), END(P(it))), eq(get(v, "tok.size"), SIZE(P(it))), eq(get(v, "tok.val"), VAL(P(it))))))
    E.sinv("no mistake so far", lambda get, it: And(eq(get(v, "malformed"), ite(Or(v.bad, eq(F(it), 1)), 1, 0))) if False else Or(Not(ok(get)), And(Not(v.bad), ne(F(it), 1), Not(BAD(P(it))), it <= K)))
    E.sinv("a mistake is remembered", lambda get, it: Or(ok(get), v.bad, K <= it))
    E.sinv("mistakes so far", lambda get, it: Or(ok(get), v.bad, eq(F(K), 1)))
    E.sinv("progress", lambda get, it: And(get(v, "idx") >= v.idx, get(v, "idx") <= n, Or(eq(get(v, "tok.tag"), 0), get(v, "idx") > v.idx, And(eq(get(v, "tok.tag"), v["tok.tag"]), eq(get(v, "idx"), v.idx)))))
    E.sinv("measure", lambda get, it: n - get(v, "idx") + ite(eq(get(v, "tok.tag"), 0), 0, 1) >= 0)
    E.sinv("each operand takes a character", lambda get, it: Or(it <= get(v, "idx"), And(eq(get(v, "tok.tag"), 0), it <= get(v, "idx") + 1)))
    E.sinv("bounds", lambda get, it: And(get(v, "tok.tag") <= 11, get(v, "tok.size") <= SIZE_ - 1, get(v, "malformed") <= 1, eq(get(v.lex, SIZE_ - 1), 0)))
    E.sinv("text of the token", lambda get, it: forall(lambda k: Or(Not(ok(get)), k < 0, k >= SIZE_, eq(get(v.lex, k), LEX(P(it), k)))))
    E.vinv("is the value of the operands so far", "f", lambda get, x, it: Or(Not(ok(get)), eq(x, W(it))))
    return result(E, v, X, W(K), P(K), eq(F(K), 1))
R = dict(props=["C21"], recursive=True)
contract("harbol_math_parse_add_expr", **R)(lambda E: chain(E, "add", "mul", {ADD: "+", SUB: "-"}))
contract("harbol_math_parse_mul_expr", **R)(lambda E: chain(E, "mul", "pow", {MUL: "*", DIV: "/"}))
contract("harbol_math_parse_pow_expr", **R)(lambda E: chain(E, "pow", "unary", {POW: "^"}))
@contract("harbol_math_parse_unary_expr", **R)
def _(E):
    v = lexer(E); p, d = state(E, v)
    if not E.verify: return result(E, v, "unary", None, None, None)
    e = END(p); S = lambda X, q: (V_[X](q, d + 1), N_[X](q, d + 1), eq(M_[X](q, d + 1), 1)); t = TAG(p)
    su, fa = S("unary", e), S("factor", p); sg = Or(eq(t, SUB), eq(t, ADD))
    return result(E, v, "unary", ite(eq(t, SUB), op("neg", su[0]), ite(eq(t, ADD), op("abs", su[0]), fa[0])), ite(sg, su[1], fa[1]),
                  Or(d >= DEPTH, And(sg, Or(BAD(e), su[2])), And(Not(sg), fa[2])))
@contract("harbol_math_parse_factor", **R)
def _(E):
    v = lexer(E); p, d = state(E, v)
    if not E.verify: return result(E, v, "factor", None, None, None)
    e = END(p); t = TAG(p); S = lambda X, q: (V_[X](q, d), N_[X](q, d), eq(M_[X](q, d), 1))
    has = mkb(v.var_func is not NULLP); fn = And(has, ne(HASF(p), 0), eq(HASV(p), 1)); br = Or(eq(TAG(e), LP), eq(TAG(e), LB))
    un, po, ad = S("unary", e), S("pow", e), S("add", e)
    var = (ite(fn, APPLY(p, ite(br, un[0], po[0])), VARV(p)), ite(fn, ite(br, un[1], po[1]), e), Or(BAD(e), And(fn, Or(And(br, un[2]), And(Not(br), po[2]))), And(Not(fn), Or(Not(has), ISNAN(VARV(p))))))
    def brack(close): return (ad[0], END(ad[1]), Or(BAD(e), ad[2], ne(TAG(ad[1]), close), BAD(END(ad[1]))))
    r = (L(NAN), e, TRUE)
    for tag, x in [(NUM, (VAL(p), e, BAD(e))), (VAR, var), (LP, brack(RP)), (LB, brack(RB))]:
        c = eq(t, tag); r = (ite(c, x[0], r[0]), ite(c, x[1], r[1]), Or(And(c, x[2]), And(Not(c), r[2])))
    return result(E, v, "factor", *r)
@contract("harbol_math_parse_expr", props=["C21"])
def _(E):
    if not E.verify: raise Unsupported("harbol_math_parse_expr at a call site")
    s = E.cstr_arg(0)
    if not E.null_arg(1): E.setarg(1, HookFn("var_func", None))
    E.ptr_arg(2); E.int(3); z = L(0)
    bad = Or(BAD(z), eq(M_["add"](z, z), 1), ne(TAG(N_["add"](z, z)), INV))
    return [Outcome("malformed", when=bad, ret=Flt(L(NAN), 10)), Outcome("value", when=Not(bad), ret=Flt(V_["add"](z, z), 10))]
