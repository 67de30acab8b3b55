"""Word-level helpers of harbol_common_includes.h: bit-precise contracts."""
import z3
from hvc.bv import bvcontract
V = lambda n: z3.BitVecVal(n, 64)
ULE, ULT, UGE, UGT = z3.ULE, z3.ULT, z3.UGE, z3.UGT
def pow2(x): return z3.And(x != 0, x & (x - 1) == 0)

@bvcontract("harbol_align_size", ["C17"])
def _(E):
    x, a = E.int(0), E.int(1)
    E.req(pow2(a))
    def post(r, s):
        over = UGT(x, V(0) - a)              # the next multiple is not representable
        return [("a multiple of the alignment", (r & (a - 1)) == 0),
                ("smallest multiple not below the size", z3.Implies(z3.Not(over), z3.And(UGE(r, x), ULT(r - x, a))))]
    return post
@bvcontract("harbol_pad_size", ["C17"])
def _(E):
    x, a = E.int(0), E.int(1)
    E.req(pow2(a))
    return lambda r, s: [("padding below the alignment", ULT(r, a)), ("size plus padding is a multiple", ((x + r) & (a - 1)) == 0)]
@bvcontract("bitwise_ceil", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("all ones", (r & (r + 1)) == 0), ("covers x", (r & x) == x), ("smallest", z3.Or(x == 0, z3.LShR(r, 1) < 0, ULT(z3.LShR(r, 1), x))), ("zero", (x == 0) == (r == 0))]
@bvcontract("next_pow_of_2", ["C17", "C02"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("power of two or wrapped to zero", (r & (r - 1)) == 0), ("zero only when not representable", (r == 0) == (x < 0)),
                         ("strictly above", z3.Implies(r != 0, UGT(r, x))), ("at most twice", z3.Implies(z3.And(r != 0, x != 0), ULE(r - x, x))), ("of zero", z3.Implies(x == 0, r == 1)),
                         ("not wrapped below 2^62", z3.Implies(ULT(x, V(1 << 62)), r != 0))]
def log2post(x, r): return z3.And(*[z3.Implies(z3.And(UGE(x, V(1 << k)), ULE(x, V((1 << (k + 1)) - 1))), r == k) for k in range(64)])
@bvcontract("int_log2", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("floor of log2", log2post(x, r)), ("of zero", z3.Implies(x == 0, r == 0))]
@bvcontract("base_2_digits", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("binary digits", log2post(x, r - 1)), ("of zero", z3.Implies(x == 0, r == 0))]
@bvcontract("base_2_num_chars", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("binary digits and terminator", log2post(x, r - 2)), ("of zero", z3.Implies(x == 0, r == 1))]
def log10post(x, r): return z3.And(*[z3.Implies(z3.And(UGE(x, V(10 ** k)), ULE(x, V(min(10 ** (k + 1) - 1, (1 << 64) - 1)))), r == k) for k in range(20)])
@bvcontract("int_log10", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("floor of log10", log10post(x, r)), ("of zero", z3.Implies(x == 0, r == 0))]
@bvcontract("base_10_digits", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("decimal digits", log10post(x, r - 1)), ("of zero", z3.Implies(x == 0, r == 1))]
@bvcontract("base_10_num_chars_uint", ["C17"])
def _(E):
    x = E.int(0)
    return lambda r, s: [("decimal digits and terminator", log10post(x, r - 2)), ("of zero", z3.Implies(x == 0, r == 2))]
@bvcontract("base_10_num_chars_int", ["C17"])
def _(E):
    x = E.int(0)
    m = z3.If(x < 0, -x, x)
    return lambda r, s: [("decimal digits, sign and terminator", log10post(m, r - 3)), ("of zero", z3.Implies(x == 0, r == 3))]
@bvcontract("is_uint_in_bounds", ["C17"])
def _(E):
    v, hi, lo = E.int(0), E.int(1), E.int(2)
    E.req(ULE(lo, hi))
    return lambda r, s: [("within", r == z3.And(ULE(lo, v), ULE(v, hi)))]
@bvcontract("is_uintptr_in_bounds", ["C17"])
def _(E):
    v, hi, lo = E.int(0), E.int(1), E.int(2)
    E.req(ULE(lo, hi))
    return lambda r, s: [("within", r == z3.And(ULE(lo, v), ULE(v, hi)))]
@bvcontract("is_int_in_bounds", ["C17"])
def _(E):
    v, hi, lo = E.int(0), E.int(1), E.int(2)
    E.req(lo <= hi)
    return lambda r, s: [("within", r == z3.And(lo <= v, v <= hi))]
@bvcontract("bytes_bitmask", ["C17"])
def _(E):
    n = E.int(0)
    e = V((1 << 64) - 1)
    for k in range(8): e = z3.If(n == k, V((1 << (8 * k)) - 1), e)
    return lambda r, s: [("low bytes set", r == e)]
@bvcontract("int_hash", [])
def _(E):
    E.int(0); E.int(1)
    return lambda r, s: [("terminates", z3.BoolVal(True))]
