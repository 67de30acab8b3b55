"""Contracts of mtwister/mtwister.h: the generator is 624 words followed by the position. All of its loops have constant bounds,
so the bit-precise back end executes them completely for an arbitrary state."""
import z3
from hvc.bv import bvcontract
N = 624
def gen(E):
    o, xs = E.buf(0, N + 1, 8, "state"); return o, xs
def word(s, o, k): return s.mem[o][8 * k][1]
def seeded(E):
    o, xs = gen(E); E.int(1); ys = [z3.BitVec("other_%d" % k, 64) for k in range(N + 1)]; sub = list(zip(xs, ys))
    return lambda r, s: [("position at the end of the table", word(s, o, N) == N),
        ("the state is a function of the seed", z3.And(*[word(s, o, k) == z3.substitute(word(s, o, k), *sub) for k in range(N + 1)]))]
bvcontract("_MT_SeedRand", ["C23"])(seeded)
bvcontract("MT_SeedRand", ["C23"])(seeded)
@bvcontract("MT_GenRand_UInt", ["C23"])
def _(E):
    o, xs = gen(E)
    return lambda r, s: [("position within the table", z3.And(z3.ULE(word(s, o, N), N), z3.UGE(word(s, o, N), 1))),
        ("next position", z3.Implies(z3.ULT(xs[N], N), word(s, o, N) == xs[N] + 1))]
@bvcontract("MT_GenRand_F64", ["C23"], abstract=("MT_GenRand_UInt",))
def _(E):
    gen(E)
    def post(r, s):
        r = r if z3.is_fp(r) else z3.fpBVToFP(r, z3.Float64())
        return [("between 0 and 1", z3.And(z3.fpLEQ(z3.FPVal(0.0, z3.Float64()), r), z3.fpLEQ(r, z3.FPVal(1.0, z3.Float64()))))]
    return post
