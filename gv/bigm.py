"""Trusted model of math/big.Int: a mathematical integer.  Bit-vector mode: a signed bit-vector of W bits with a bound on its
magnitude (operations that could leave it are refused), or `huge` (magnitude of more than HB bits, only its sign known).
Integer mode: an integer term."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from . import models, textm
from .models import model, fill

W, HB = 320, 280


class BigV:
    __slots__ = ("t", "bits", "huge")

    def __init__(self, t, bits=None, huge=False):
        if bits is None:
            bits = abs(t).bit_length() if isinstance(t, int) else W
        self.t, self.bits, self.huge = t, bits, huge
        if isinstance(t, z3.BitVecRef) and bits > W - 2:
            raise Unsupported("big integer of more than %d bits" % (W - 2))

    def __repr__(self):
        return "big(%s)" % (self.t,)

    def vmap(self, f):
        return BigV(f(self.t) if isinstance(self.t, z3.ExprRef) else self.t, self.bits, f(self.huge) if isinstance(self.huge, z3.ExprRef) else self.huge)

    def same(self, b):
        return same(self.t, b.t) and same(self.huge, b.huge)

    def val_eq(self, G, st, b, label):
        if isinstance(b, int):
            b = BigV(b)
        if not isinstance(b, BigV):
            return G.add(st, False, label + ": not an integer")
        E = G.E
        if self.huge is not False or b.huge is not False:
            if same(self, b):
                return G.add(st, True, label)
            h = band(bnot(self.huge), bnot(b.huge))
            return G.add(st, band(h, eq(E, self, b)), label)
        G.add(st, eq(E, self, b), label)

    def hv(self, E, k):
        if E.D.name == "bv":
            raise Unsupported("big integer changes irregularly")
        return BigV(E.uf(E.fresh_name("hv"), (k,), z3.IntSort()))

    def eqv(self, E, b):
        if isinstance(b, int):
            b = BigV(b)
        if not isinstance(b, BigV) or self.huge is not False or b.huge is not False:
            return False
        return eq(E, self, b)

    def eq_fork(self, E, st, b):
        return [(st, eq(E, self, b))]


def wide(E, x):
    """term of the model's sort"""
    t = x.t if isinstance(x, BigV) else x
    if E.D.name == "bv":
        return z3.BitVecVal(t, W) if isinstance(t, int) else t
    return z3.IntVal(t) if isinstance(t, int) else t


def eq(E, a, b):
    return norm_bool(wide(E, a) == wide(E, b))


def fold(E, t):
    t = simp(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    if z3.is_int_value(t):
        return t.as_long()
    return t


def from_go(E, v, ty):
    """Go integer -> big"""
    if isinstance(v, int):
        return BigV(E.D.toint(v, ty.signed, ty.width))
    if E.D.name == "int":
        return BigV(v, ty.width)
    t = z3.SignExt(W - ty.width, v) if ty.signed else z3.ZeroExt(W - ty.width, v)
    return BigV(fold(E, t), ty.width)


def get(E, st, p):
    """[(st, value)] with the huge case split off (a BigV with huge=True)"""
    rs = E.load(st, p)
    out = []
    for s, v in rs:
        if isinstance(v, int):
            v = BigV(v)
        if not isinstance(v, BigV):
            raise Unsupported("big.Int value %r" % (v,))
        if isb(v.huge):
            out.append((s, v))
        else:
            for s2, h in E.split(s, v.huge):
                out.append((s2, BigV(v.t, v.bits, h)))
    return out


def small(E, v):
    if v.huge:
        raise Unsupported("arithmetic on an unbounded big integer")
    return v


def neg(E, v):
    return v.t < 0 if isinstance(v.t, int) else norm_bool(v.t < 0)


def absv(E, v):
    if isinstance(v.t, int):
        return abs(v.t)
    return fold(E, z3.If(v.t < 0, -v.t, v.t))


def set_(E, st, p, v):
    return [(s, (p,)) for s in E.store(st, p, v)]


@model("math/big.NewInt", desc="big.Int as a mathematical integer")
def _newint(E, fr, ins, st, args):
    return [(st, (PtrV(E.new(st, "cell", E.P.byname.get("math/big.Int"), from_go(E, args[0], E.P.byname["int64"]))),))]


@model("(*math/big.Int).SetInt64", "(*math/big.Int).SetUint64", desc="big.Int as a mathematical integer")
def _setint(E, fr, ins, st, args):
    return set_(E, st, args[0], from_go(E, args[1], E.P.byname["int64"] if ins["fn"]["n"].endswith("SetInt64") else E.P.U64))


@model("(*math/big.Int).Set", "(*math/big.Int).Neg", "(*math/big.Int).Abs", "(*math/big.Int).Not", desc="big.Int as a mathematical integer")
def _unary(E, fr, ins, st, args):
    op = ins["fn"]["n"].rsplit(".", 1)[1]
    out = []
    for s, v in get(E, st, args[1]):
        t = wide(E, v)
        r = {"Set": t, "Neg": -t, "Not": -t - 1, "Abs": z3.If(t < 0, -t, t)}[op]
        out += set_(E, s, args[0], BigV(fold(E, r), v.bits + (op == "Not"), v.huge))
    return out


def binary(E, st, args, f, bits):
    out = []
    for s, a in get(E, st, args[1]):
        for s2, b in get(E, s, args[2]):
            small(E, a), small(E, b)
            out += set_(E, s2, args[0], BigV(fold(E, f(wide(E, a), wide(E, b))), bits(a.bits, b.bits)))
    return out


@model("(*math/big.Int).Add", "(*math/big.Int).Sub", "(*math/big.Int).Mul", desc="big.Int as a mathematical integer")
def _arith(E, fr, ins, st, args):
    op = ins["fn"]["n"].rsplit(".", 1)[1]
    if op == "Mul":
        return binary(E, st, args, lambda a, b: a * b, lambda a, b: a + b)
    return binary(E, st, args, (lambda a, b: a + b) if op == "Add" else (lambda a, b: a - b), lambda a, b: max(a, b) + 1)


@model("(*math/big.Int).And", "(*math/big.Int).Or", "(*math/big.Int).Xor", desc="big.Int as a mathematical integer (two's complement)")
def _logic(E, fr, ins, st, args):
    if E.D.name == "int":
        raise Unsupported("bit operation on big integers in integer mode")
    op = ins["fn"]["n"].rsplit(".", 1)[1]
    f = {"And": lambda a, b: a & b, "Or": lambda a, b: a | b, "Xor": lambda a, b: a ^ b}[op]
    return binary(E, st, args, f, lambda a, b: max(a, b) + 1)


@model("(*math/big.Int).Lsh", "(*math/big.Int).Rsh", desc="big.Int as a mathematical integer")
def _shift(E, fr, ins, st, args):
    k = args[2]
    if not isinstance(k, int):
        raise Unsupported("symbolic big shift")
    l = ins["fn"]["n"].endswith("Lsh")
    out = []
    for s, v in get(E, st, args[1]):
        small(E, v)
        if isinstance(v.t, int):
            out += set_(E, s, args[0], BigV(v.t << k if l else v.t >> k))
            continue
        if E.D.name == "int":
            r = v.t * (1 << k) if l else v.t / (1 << k)
        else:
            if l and v.bits + k > W - 2:
                raise Unsupported("big shift out of the model's range")
            r = v.t << k if l else v.t >> min(k, W - 1)
        out += set_(E, s, args[0], BigV(fold(E, r), v.bits + k if l else max(1, v.bits - k)))
    return out


@model("(*math/big.Int).Sign", desc="big.Int as a mathematical integer")
def _sign(E, fr, ins, st, args):
    out = []
    D = E.D
    for s, v in get(E, st, args[0]):
        for s1, n in E.split(s, neg(E, v)):
            if n:
                out.append((s1, (D.const(-1, E.P.INT),)))
                continue
            if v.huge:
                out.append((s1, (1,)))
                continue
            for s2, z in E.split(s1, eq(E, v, 0)):
                out.append((s2, (0 if z else 1,)))
    return out


@model("(*math/big.Int).BitLen", desc="big.Int as a mathematical integer")
def _bitlen(E, fr, ins, st, args):
    out = []
    D = E.D
    for s, v in get(E, st, args[0]):
        if v.huge:
            n = E.fresh_sz(s, "bitlen", HB + 1)
            out.append((s, (n,)))
            continue
        if isinstance(v.t, int):
            out.append((s, (abs(v.t).bit_length(),)))
            continue
        a = absv(E, v)
        n = E.uf("bitlen", (wide(E, a),), D.szsort())
        if textm.once(E, "bitlen", n):
            D.facts += [zb(D.le(0, n)), zb(D.le(n, v.bits))]
            A = wide(E, a)
            for k in range(0, min(v.bits, W - 2) + 1):
                lim = z3.BitVecVal(1 << k, W) if D.name == "bv" else z3.IntVal(1 << k)
                D.facts.append((z3.ULT(A, lim) if D.name == "bv" else A < lim) == (n <= k))
        out.append((s, (n,)))
    return out


@model("(*math/big.Int).Cmp", "(*math/big.Int).CmpAbs", desc="big.Int as a mathematical integer")
def _cmp(E, fr, ins, st, args):
    out = []
    D = E.D
    ab = ins["fn"]["n"].endswith("CmpAbs")
    for s, a in get(E, st, args[0]):
        for s2, b in get(E, s, args[1]):
            if a.huge and b.huge:
                raise Unsupported("comparison of two unbounded big integers")
            if a.huge or b.huge:
                h = a if a.huge else b
                for s3, n in ([(s2, False)] if ab else E.split(s2, neg(E, h))):
                    big = -1 if n else 1
                    out.append((s3, (D.const(big if a.huge else -big, E.P.INT),)))
                continue
            x, y = (wide(E, absv(E, a)), wide(E, absv(E, b))) if ab else (wide(E, a), wide(E, b))
            for s3, lt in E.split(s2, norm_bool(x < y)):
                if lt:
                    out.append((s3, (D.const(-1, E.P.INT),)))
                    continue
                for s4, e in E.split(s3, norm_bool(x == y)):
                    out.append((s4, (0 if e else 1,)))
    return out


@model("(*math/big.Int).IsInt64", "(*math/big.Int).IsUint64", desc="big.Int as a mathematical integer")
def _isint(E, fr, ins, st, args):
    u = ins["fn"]["n"].endswith("IsUint64")
    lo, hi = (0, (1 << 64) - 1) if u else (-(1 << 63), (1 << 63) - 1)
    out = []
    for s, v in get(E, st, args[0]):
        out.append((s, (False if v.huge else norm_bool(z3.And(wide(E, v) >= wide(E, lo), wide(E, v) <= wide(E, hi))),)))
    return out


@model("(*math/big.Int).Int64", "(*math/big.Int).Uint64", desc="big.Int as a mathematical integer; the low 64 bits")
def _int64(E, fr, ins, st, args):
    ty = E.P.U64 if ins["fn"]["n"].endswith("Uint64") else E.P.byname["int64"]
    out = []
    for s, v in get(E, st, args[0]):
        if v.huge:
            out.append((s, (E.fresh_int("low64", ty),)))
        elif isinstance(v.t, int):
            out.append((s, (E.D.const(v.t, ty),)))
        elif E.D.name == "bv":
            out.append((s, (E.D.fold(z3.Extract(63, 0, v.t)),)))
        else:
            E._cur = s
            out.append((s, (E.D.wrap(v.t, ty),)))
    return out


def bytes_value(E, st, r):
    """big-endian value of a byte sequence -> BigV"""
    if r.is_lit():
        v = r.lit()
        if all(isinstance(x, int) for x in v):
            return BigV(int.from_bytes(bytes(v), "big"))
        if E.D.name == "bv":
            if 8 * len(v) > W - 8:
                raise Unsupported("long byte sequence as a big integer")
            t = z3.Concat(*([z3.BitVecVal(0, W - 8 * len(v))] + [E.D.byte(x) for x in v]))
            return BigV(fold(E, t), 8 * len(v))
        t = z3.IntVal(0)
        for x in v:
            t = t * 256 + E.D.sz(x)
        return BigV(fold(E, t), 8 * len(v))
    h = E.hooks.get("bytes_value")
    if h:
        return h(E, st, r)
    raise Unsupported("big integer of a symbolic byte sequence")


@model("(*math/big.Int).SetBytes", desc="big.Int as a mathematical integer; big-endian bytes")
def _setbytes(E, fr, ins, st, args):
    out = []
    for s, r in E.content(st, args[1]):
        out += set_(E, s, args[0], bytes_value(E, s, r))
    return out


def be_bytes(E, a, n):
    """n big-endian bytes of a non-negative value"""
    if isinstance(a, int):
        return list(a.to_bytes(n, "big"))
    if E.D.name == "bv":
        return [E.D.fold(z3.Extract(8 * i + 7, 8 * i, a)) for i in reversed(range(n))]
    return [E.D.setr(E.D.fold((a / (1 << (8 * i))) % 256), 0, 255) for i in reversed(range(n))]


@model("(*math/big.Int).Bytes", desc="big.Int as a mathematical integer; minimal big-endian magnitude")
def _bytes(E, fr, ins, st, args):
    out = []
    for s, v in get(E, st, args[0]):
        small(E, v)
        a = absv(E, v)
        if isinstance(a, int):
            out.append((s, (E.mkslice(s, lit(a.to_bytes((a.bit_length() + 7) // 8, "big"))),)))
            continue
        h = E.hooks.get("big_bytes")
        if h:
            out += h(E, s, v)
            continue
        if E.D.name == "int":
            raise Unsupported("bytes of a symbolic big integer")
        for n in range((v.bits + 7) // 8 + 1):
            lo = 0 if n == 0 else 1 << (8 * (n - 1))
            c = norm_bool(z3.And(z3.UGE(a, z3.BitVecVal(lo, W)), z3.ULT(a, z3.BitVecVal(1 << (8 * n), W))))
            if c is False or not E.pr.feasible(s, c):
                continue
            s2 = s.fork()
            s2.assume(c)
            out.append((s2, (E.mkslice(s2, lit(be_bytes(E, a, n))),)))
    return out


@model("(*math/big.Int).FillBytes", desc="big.Int as a mathematical integer; zero-extended big-endian magnitude, panics when it does not fit")
def _fillbytes(E, fr, ins, st, args):
    out = []
    b = E.mat(st, args[1])
    if not isinstance(b.ln, int):
        raise Unsupported("FillBytes into a slice of symbolic length")
    for s, v in get(E, st, args[0]):
        if v.huge:
            E.require(s, False, "FillBytes: buffer too small", fr, ins)
            continue
        a = absv(E, v)
        if 8 * b.ln < v.bits:
            c = a < (1 << (8 * b.ln)) if isinstance(a, int) or E.D.name == "int" else z3.ULT(a, z3.BitVecVal(1 << (8 * b.ln), W))
            if not E.require(s, norm_bool(c), "FillBytes: buffer too small", fr, ins):
                continue
        for s2 in fill(E, s, b, lit(be_bytes(E, a, b.ln)), b.ln):
            out.append((s2, (args[1],)))
    return out


# ---------------------------------------------------------------- decimal text

def decval(E, st, r):
    """(valid, value) of optionally signed decimal text, [(st, ok, BigV)]"""
    out = []
    for s, ng, t in textm.signed_parts(E, st, r):
        if t is None:
            out.append((s, False, None))
            continue
        if textm.concrete(t):
            b = textm.cbytes(t)
            ok = bool(b) and all(48 <= x <= 57 for x in b)
            out.append((s, ok, BigV((-1 if ng else 1) * int(b)) if ok else None))
            continue
        ok, _, _ = textm.alldigits(E, s, t)
        k = textm.key(E, s, t)
        for s1, o in E.split(s, ok):
            if not o:
                out.append((s1, False, None))
                continue
            if E.D.name == "bv":
                v = E.uf("decwide", k, z3.BitVecSort(W))
                h = E.uf("dechuge", k, z3.BoolSort())
                if textm.once(E, "decwide", v):
                    E.D.facts += [v >= 0, v < z3.BitVecVal(1 << HB, W)]
                    E.D.facts.append(z3.Implies(h, v > 0))
            else:
                v = E.uf("decwide", k, z3.IntSort())
                h = False
                if textm.once(E, "decwide", v):
                    E.D.facts.append(v >= 0)
            out.append((s1, True, BigV(fold(E, -v) if ng else v, HB, h)))
    return out


@model("(*math/big.Int).SetString", desc="big.Int as a mathematical integer; optional sign and decimal digits (base 10), nothing else")
def _setstring(E, fr, ins, st, args):
    if args[2] != 10:
        raise Unsupported("SetString base")
    out = []
    for s, ok, v in decval(E, st, args[1]):
        if ok:
            out += [(s2, (args[0], True)) for s2 in E.store(s, args[0], v)]
        else:
            x = BigV(z3.BitVec(E.fresh_name("undef"), W) if E.D.name == "bv" else z3.Int(E.fresh_name("undef")), W - 2)
            out += [(s2, (NIL, False)) for s2 in E.store(s, args[0], x)]
    return out


def dectext(E, v):
    """decimal text of a big integer"""
    if isinstance(v.t, int):
        return lit(str(v.t).encode())
    n = E.uf("bigdeclen", (v.t,), E.D.szsort())
    if textm.once(E, "bigdeclen", n):
        E.D.facts += [zb(E.D.le(1, n)), zb(E.D.le(n, 200))]
    return Rope((App("bigdec", (BigV(v.t, v.bits),), n),))


@model("(*math/big.Int).String", "(*math/big.Int).Text", desc="decimal text of the integer")
def _string(E, fr, ins, st, args):
    if len(args) > 1 and args[1] != 10:
        raise Unsupported("Text base")
    return [(s, (dectext(E, small(E, v)),)) for s, v in get(E, st, args[0])]


@model("(*math/big.Int).Append", desc="decimal text of the integer, appended")
def _append(E, fr, ins, st, args):
    if args[2] != 10:
        raise Unsupported("Append base")
    out = []
    for s, v in get(E, st, args[0]):
        out += [(s2, (x,)) for s2, x in E.append(fr, ins, s, args[1], dectext(E, small(E, v)))]
    return out


# ---------------------------------------------------------------- division

def known_div(E, st, a, b):
    if E.D.name == "bv" or E.D.divrem is None or not z3.is_int_value(b):
        return None
    E._cur = st
    return E.D.divrem(a, b.as_long())


@model("(*math/big.Int).DivMod", "(*math/big.Int).QuoRem", desc="big.Int as a mathematical integer; non-negative operands")
def _divmod(E, fr, ins, st, args):
    out = []
    for s, x in get(E, st, args[1]):
        for s2, y in get(E, s, args[2]):
            small(E, x), small(E, y)
            a, b = wide(E, x), wide(E, y)
            if not E.proves(s2, norm_bool(a >= 0)) or not E.proves(s2, norm_bool(b > 0)):
                raise Unsupported("big division of possibly negative operands")
            q, m = (z3.UDiv(a, b), z3.URem(a, b)) if E.D.name == "bv" else (a / b, a % b)
            qm = known_div(E, s2, a, b)
            if qm:
                q, m = qm
            for s3, _ in set_(E, s2, args[0], BigV(fold(E, q), x.bits)):
                for s4, _ in set_(E, s3, args[3], BigV(fold(E, m), y.bits)):
                    out.append((s4, (args[0], args[3])))
    return out


@model("(*math/big.Int).Div", "(*math/big.Int).Mod", "(*math/big.Int).Quo", "(*math/big.Int).Rem", desc="big.Int as a mathematical integer; non-negative operands")
def _div(E, fr, ins, st, args):
    op = ins["fn"]["n"].rsplit(".", 1)[1]
    out = []
    for s, x in get(E, st, args[1]):
        for s2, y in get(E, s, args[2]):
            small(E, x), small(E, y)
            a, b = wide(E, x), wide(E, y)
            if not E.proves(s2, norm_bool(a >= 0)) or not E.proves(s2, norm_bool(b > 0)):
                raise Unsupported("big division of possibly negative operands")
            qm = known_div(E, s2, a, b)
            if qm:
                r, bits = (qm[0], x.bits) if op in ("Div", "Quo") else (qm[1], y.bits)
            elif op in ("Div", "Quo"):
                r, bits = (z3.UDiv(a, b) if E.D.name == "bv" else a / b), x.bits
            else:
                r, bits = (z3.URem(a, b) if E.D.name == "bv" else a % b), y.bits
            out += set_(E, s2, args[0], BigV(fold(E, r), bits))
    return out
