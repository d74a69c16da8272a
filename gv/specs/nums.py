"""Contracts: 128-bit integers (C12)."""
from ..contract import *
from ..spec import *
from ..bigm import BigV, W, HB, wide, decval, dectext
from .names import seq_in
from .. import textm as tx

U128 = (0, (1 << 128) - 1)
I128 = (-(1 << 127), (1 << 127) - 1)


def value(E, v, signed):
    """mathematical value of {Lo, Hi}"""
    lo, hi = [z3.BitVecVal(x, 64) if isinstance(x, int) else x for x in v.vals]
    c = z3.Concat(hi, lo)
    return BigV(simp(z3.SignExt(W - 128, c) if signed else z3.ZeroExt(W - 128, c)), 128)


def parts(E, t):
    """{Lo, Hi} of an in-range value (two's complement)"""
    t = wide(E, t)
    return StructV((E.D.fold(z3.Extract(63, 0, t)), E.D.fold(z3.Extract(127, 64, t))))


def inrange(E, v, rg):
    """condition: lo <= v <= hi"""
    t = wide(E, v)
    return band(bnot(v.huge), norm_bool(z3.And(t >= z3.BitVecVal(rg[0], W), t <= z3.BitVecVal(rg[1], W))))


def of_big(signed):
    def f(E, st, a):
        v = E.load(st, a[0])[0][1]
        outs = []
        for s, ok in E.split(st, inrange(E, v, I128 if signed else U128)):
            if ok:
                outs.append(Out(s, (parts(E, v),)))
            elif signed:
                outs.append(Out(s, panics=True))
            else:
                for s2, n in E.split(s, norm_bool(wide(E, v) < 0)):
                    outs.append(Out(s2, anything=True) if n else Out(s2, panics=True))
        return outs
    return f


def parse(signed, i, res):
    def f(E, st, a):
        outs = []
        for s, ok, v in decval(E, st, seq_in(E, st, a[i])):
            if not ok:
                outs.append(res(s, None))
                continue
            for s2, fits in E.split(s, inrange(E, v, I128 if signed else U128)):
                outs.append(res(s2, parts(E, v)) if fits else res(s2, None))
        return outs
    return f


def order(E, st, fn, big):
    args = [default_arg(E, st, n, t) for n, t in fn.params[:-1]]
    ty = E.P.byname["encoding/binary.bigEndian" if big else "encoding/binary.littleEndian"]
    return args + [IfaceV(ty, E.zero(ty))]


def raw(big):
    def f(E, st, a):
        v = E.mat(st, a[0])
        c = z3.Concat(*[z3.BitVecVal(x, 64) if isinstance(x, int) else x for x in (v.vals[1], v.vals[0])])
        bs = [E.D.fold(z3.Extract(8 * i + 7, 8 * i, c)) for i in range(16)]
        return [Out(st, (lit(list(reversed(bs)) if big else bs),))]
    return f


for ty, sg in (("Uint128", False), ("Int128", True)):
    Contract("chain.New" + ty, spec=of_big(sg), doc="the two's complement halves of a value in range; panics when out of range")
    Contract("chain.New%sFromString" % ty, spec=parse(sg, 0, lambda s, v: Out(s, (v, NIL)) if v is not None else Out(s, (ANY, ANYERR))), doc="value of decimal text in range, else an error")
    Contract("(*chain.%s).UnmarshalText" % ty, spec=parse(sg, 1, lambda s, v: Out(s, (NIL,), post={0: v}) if v is not None else Out(s, (ANYERR,), post={0: ANY})),
             doc="value of decimal text in range, else an error")
    val = (lambda sg: lambda E, st, a: value(E, E.mat(st, a[0]), sg))(sg)
    Contract("(chain.%s).BigInt" % ty, spec=(lambda val: lambda E, st, a: [Out(st, (val(E, st, a),))])(val), doc="exact mathematical value")
    Contract("(chain.%s).String" % ty, spec=(lambda val: lambda E, st, a: [Out(st, (dectext(E, val(E, st, a)),))])(val), doc="decimal text of the exact value")
    Contract("(chain.%s).MarshalText" % ty, spec=(lambda val: lambda E, st, a: [Out(st, (dectext(E, val(E, st, a)), NIL))])(val), doc="decimal text of the exact value")
    for big in (False, True):
        Contract("(chain.%s).Bytes" % ty, cname="(chain.%s).Bytes@%s" % (ty, "BE" if big else "LE"), setup=(lambda big: lambda E, st, fn: order(E, st, fn, big))(big), spec=raw(big),
                 doc="16 bytes, two's complement, most significant first" if big else "16 bytes, two's complement, least significant first")


def lemmas(P):
    """over the specifications: value and halves are inverse"""
    E = Engine(P, "bv", {})
    out = []
    for sg, rg in ((False, U128), (True, I128)):
        lo, hi = z3.BitVecs("lo hi", 64)
        v = value(E, StructV((lo, hi)), sg)
        s = z3.Solver()
        p = parts(E, v)
        s.add(z3.Not(z3.And(zb(inrange(E, v, rg)), p.vals[0] == lo, p.vals[1] == hi)))
        out.append(("every %s 128-bit value is in range and its halves give it back" % ("signed" if sg else "unsigned"), "proved" if s.check() == z3.unsat else "refuted", "z3"))
        s = z3.Solver()
        x = BigV(z3.BitVec("x", W), HB)
        s.add(zb(inrange(E, x, rg)), value(E, parts(E, x), sg).t != x.t)
        out.append(("the halves of every integer in %s range denote it" % ("signed" if sg else "unsigned"), "proved" if s.check() == z3.unsat else "refuted", "z3"))
    return out
