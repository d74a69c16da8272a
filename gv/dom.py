"""Arithmetic domains.  BV: Go integers as bit-vectors of their width (exact).
INT: Go integers as mathematical integers; every operation either provably stays in
range or is wrapped with an explicit mod (exact as well; only the theory differs).
Concrete values are python ints (BV: 0 <= v < 2^w; INT: the signed value)."""
import z3
from .ssa import Unsupported

simp = z3.simplify


def isb(x):
    return isinstance(x, bool)


def conc(x):
    return isinstance(x, (int, bool)) and not isinstance(x, z3.ExprRef)


def bnot(a):
    if isb(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    r = []
    for x in xs:
        if isb(x):
            if not x:
                return False
            continue
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def bor(*xs):
    r = []
    for x in xs:
        if isb(x):
            if x:
                return True
            continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def bimp(a, b):
    return bor(bnot(a), b)


def zb(x):
    return z3.BoolVal(x) if isb(x) else x


def norm_bool(x):
    if isb(x):
        return x
    s = simp(x)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


class BV:
    name = "bv"
    raw = 0         # width whose arithmetic keeps its shape (terms compared by sweeping)

    def __init__(self, P):
        self.P = P
        self.facts = []

    def sort(self, ty):
        return z3.BitVecSort(ty.width)

    def szsort(self):
        return z3.BitVecSort(64)

    def term(self, x, ty):
        return z3.BitVecVal(x, ty.width) if isinstance(x, int) else x

    def sz(self, x):
        return z3.BitVecVal(x, 64) if isinstance(x, int) else x

    def byte(self, x):
        return z3.BitVecVal(x, 8) if isinstance(x, int) else x

    def const(self, n, ty):
        return n & ((1 << ty.width) - 1)

    def szc(self, n):
        return n & ((1 << 64) - 1)

    def toint(self, x, signed, w):
        return x - (1 << w) if signed and x >> (w - 1) else x

    def fold(self, t):
        t = simp(t)
        if z3.is_bv_value(t):
            return t.as_long()
        return t

    def fresh(self, name, ty):
        return z3.BitVec(name, ty.width)

    def range_facts(self, v, ty):
        return []

    def binop(self, op, a, b, ty, ty2=None):
        w, sg = ty.width, ty.signed
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return (a + b) & m
            if op == "-":
                return (a - b) & m
            if op == "*":
                return (a * b) & m
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            if op == "&^":
                return a & ~b & m
            if op in ("/", "%"):
                x, y = self.toint(a, sg, w), self.toint(b, sg, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "/" else x - q * y) & m
            if op == "<<":
                return (a << b) & m if b < w else 0
            if op == ">>":
                x = self.toint(a, sg, w)
                return (x >> min(b, w)) & m
        if op == "+":
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
        if op in ("-", "<<", ">>", "|", "^") and isinstance(b, int) and b == 0:
            return a
        if op in ("<<", ">>"):
            return self.shift(op, a, b, ty, ty2 or ty)
        A, B = self.term(a, ty), self.term(b, ty)
        if op == "+":
            r = A + B
        elif op == "-":
            r = A - B
        elif op == "*":
            r = A * B
        elif op == "&":
            r = A & B
        elif op == "|":
            r = A | B
        elif op == "^":
            r = A ^ B
        elif op == "&^":
            r = A & ~B
        elif op == "/":
            r = A / B if sg else z3.UDiv(A, B)
        elif op == "%":
            r = z3.SRem(A, B) if sg else z3.URem(A, B)
        else:
            raise Unsupported("binop " + op)
        return r if w == self.raw else self.fold(r)

    def shift(self, op, a, b, ty, bty):
        w = ty.width
        A = self.term(a, ty)
        if isinstance(b, int):
            if b >= w:
                if op == ">>" and ty.signed:
                    b = w - 1
                else:
                    return 0
            B = z3.BitVecVal(b, w)
            over = False
        else:
            bw = bty.width
            over = z3.UGE(b, z3.BitVecVal(w, bw))
            B = z3.ZeroExt(w - bw, b) if bw < w else (z3.Extract(w - 1, 0, b) if bw > w else b)
        if op == "<<":
            r = A << B
            z = z3.BitVecVal(0, w)
        elif ty.signed:
            r = A >> B
            z = A >> z3.BitVecVal(w - 1, w)
        else:
            r = z3.LShR(A, B)
            z = z3.BitVecVal(0, w)
        if over is not False:
            r = z3.If(over, z, r)
        return r if w == self.raw and over is False else self.fold(r)

    def cmp(self, op, a, b, ty):
        w, sg = ty.width, ty.signed
        if isinstance(a, int) and isinstance(b, int):
            x, y = self.toint(a, sg, w), self.toint(b, sg, w)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        A, B = self.term(a, ty), self.term(b, ty)
        if op == "==":
            r = A == B
        elif op == "!=":
            r = A != B
        elif sg:
            r = {"<": A < B, "<=": A <= B, ">": A > B, ">=": A >= B}[op]
        else:
            r = {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](A, B)
        return norm_bool(r)

    def neg(self, a, ty):
        return self.binop("-", 0, a, ty)

    def inv(self, a, ty):
        if isinstance(a, int):
            return a ^ ((1 << ty.width) - 1)
        return ~a if ty.width == self.raw else self.fold(~a)

    def convert(self, a, f, t):
        if isinstance(a, int):
            return self.toint(a, f.signed, f.width) & ((1 << t.width) - 1)
        if f.width == t.width:
            return a
        if f.width > t.width:
            return self.fold(z3.Extract(t.width - 1, 0, a))
        d = t.width - f.width
        return self.fold(z3.SignExt(d, a) if f.signed else z3.ZeroExt(d, a))

    # sizes (type int)
    def add(self, a, b):
        return self.binop("+", a, b, self.P.INT)

    def sub(self, a, b):
        return self.binop("-", a, b, self.P.INT)

    def mul(self, a, b):
        return self.binop("*", a, b, self.P.INT)

    def le(self, a, b):
        return self.cmp("<=", a, b, self.P.INT)

    def lt(self, a, b):
        return self.cmp("<", a, b, self.P.INT)

    def eq(self, a, b):
        return self.cmp("==", a, b, self.P.INT)

    def select(self, arr, i):
        return self.fold(z3.Select(arr, self.sz(i)))

    def ite(self, c, a, b, ty):
        return self.fold(z3.If(c, self.term(a, ty), self.term(b, ty)))

    def eqterm(self, a, b, ty):
        return self.cmp("==", a, b, ty)

    def model_int(self, m, x, signed=False, w=64):
        if isinstance(x, int):
            v = x
        else:
            v = m.eval(x, model_completion=True).as_long()
        return self.toint(v, signed, w)


class INTD:
    """Mathematical integers with tracked ranges."""
    name = "int"

    def __init__(self, P):
        self.P = P
        self.rng = {}
        self.keep = []
        self.facts = []
        self.divrem = None     # contract hook: (term, constant) -> proved (quotient, remainder)
        self.prove = None      # set by the engine: goal -> bool under current pc

    def sort(self, ty):
        return z3.IntSort()

    def szsort(self):
        return z3.IntSort()

    def term(self, x, ty):
        return z3.IntVal(x) if isinstance(x, int) else x

    def sz(self, x):
        return z3.IntVal(x) if isinstance(x, int) else x

    byte = sz

    def const(self, n, ty):
        w = ty.width
        n &= (1 << w) - 1
        return n - (1 << w) if ty.signed and n >> (w - 1) else n

    def szc(self, n):
        return n

    def toint(self, x, signed, w):
        return x

    def lim(self, ty):
        w = ty.width
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty.signed else (0, (1 << w) - 1)

    def setr(self, t, lo, hi):
        if isinstance(t, int):
            return t
        self.rng[t.get_id()] = (lo, hi)
        self.keep.append(t)
        return t

    def getr(self, t):
        if isinstance(t, int):
            return (t, t)
        return self.rng.get(t.get_id(), (None, None))

    def fresh(self, name, ty):
        v = z3.Int(name)
        lo, hi = self.lim(ty)
        self.facts += [v >= lo, v <= hi]
        return self.setr(v, lo, hi)

    def range_facts(self, v, ty):
        lo, hi = self.lim(ty)
        return [] if isinstance(v, int) else [v >= lo, v <= hi]

    def fold(self, t):
        t = simp(t)
        if z3.is_int_value(t):
            return t.as_long()
        return t

    def wrap(self, r, ty, rg=None):
        if isinstance(r, int):
            return self.const(r, ty)
        lo, hi = self.lim(ty)
        rl, rh = rg or self.getr(r)
        if rl is not None and rh is not None and rl >= lo and rh <= hi:
            return self.setr(r, rl, rh)
        if self.prove and self.prove(z3.And(r >= lo, r <= hi)):
            return r            # holds on this path only: not recorded
        w = 1 << ty.width
        if ty.signed:
            r2 = self.fold((r + (w >> 1)) % w - (w >> 1))
        else:
            r2 = self.fold(r % w)
        return self.setr(r2, lo, hi)

    def binop(self, op, a, b, ty, ty2=None):
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return self.const(a + b, ty)
            if op == "-":
                return self.const(a - b, ty)
            if op == "*":
                return self.const(a * b, ty)
            if op in ("/", "%"):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return self.const(q if op == "/" else a - q * b, ty)
            if op == "<<":
                return self.const(a << b, ty) if b < 4096 else 0
            if op == ">>":
                return a >> b
            return self.const({"&": a & b, "|": a | b, "^": a ^ b, "&^": a & ~b}[op], ty)
        (al, ah), (bl, bh) = self.getr(a), self.getr(b)
        known = None not in (al, ah, bl, bh)
        A, B = self.sz(a), self.sz(b)
        if op == "+":
            return self.wrap(self.fold(A + B), ty, (al + bl, ah + bh) if known else None)
        if op == "-":
            return self.wrap(self.fold(A - B), ty, (al - bh, ah - bl) if known else None)
        if op == "*":
            rg = None
            if known:
                c = [al * bl, al * bh, ah * bl, ah * bh]
                rg = (min(c), max(c))
            return self.wrap(self.fold(A * B), ty, rg)
        if op in ("/", "%"):
            if isinstance(b, int) and b > 0 and self.divrem is not None:
                r = self.divrem(A, b)
                if r is not None:
                    return r[0] if op == "/" else r[1]
            if isinstance(b, int) and b > 0 and al is not None and al >= 0:
                if op == "/":
                    return self.setr(self.fold(A / B), al // b, ah // b if ah is not None else self.lim(ty)[1])
                return self.setr(self.fold(A % B), 0, b - 1)
            if al is not None and al >= 0 and bl is not None and bl > 0:
                r = self.fold(A / B if op == "/" else A % B)
                return self.setr(r, 0, ah if ah is not None else self.lim(ty)[1])
            # truncated division
            aa = z3.If(A >= 0, A, -A)
            bb = z3.If(B >= 0, B, -B)
            q = aa / bb
            q = z3.If((A >= 0) == (B >= 0), q, -q)
            return self.wrap(self.fold(q if op == "/" else A - q * B), ty)
        if op == "<<" and isinstance(b, int):
            return self.wrap(self.fold(A * (1 << b)), ty, (al << b, ah << b) if None not in (al, ah) else None)
        if op == ">>" and isinstance(b, int):
            r = self.fold(A / (1 << b))
            return self.setr(r, *((al >> b, ah >> b) if None not in (al, ah) else self.lim(ty)))
        if op == "&" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
            return self.setr(self.fold(A % (b + 1)), 0, b)
        if op == "&" and isinstance(a, int) and a >= 0 and (a & (a + 1)) == 0:
            return self.setr(self.fold(B % (a + 1)), 0, a)
        if op == "&" and isinstance(b, int) and b > 0 and (b & (b - 1)) == 0:
            return self.setr(self.fold(((A / b) % 2) * b), 0, b)
        raise Unsupported("integer-mode operator %s on symbolic operands" % op)

    def cmp(self, op, a, b, ty):
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        A, B = self.sz(a), self.sz(b)
        return norm_bool({"<": A < B, "<=": A <= B, ">": A > B, ">=": A >= B, "==": A == B, "!=": A != B}[op])

    def neg(self, a, ty):
        return self.binop("-", 0, a, ty)

    def inv(self, a, ty):
        return self.binop("-", -1, a, ty) if ty.signed else self.binop("-", (1 << ty.width) - 1, a, ty)

    def convert(self, a, f, t):
        return self.wrap(a, t)

    def add(self, a, b):
        return self.binop("+", a, b, self.P.INT) if isinstance(a, int) and isinstance(b, int) else self._lin(self.sz(a) + self.sz(b))

    def sub(self, a, b):
        return a - b if isinstance(a, int) and isinstance(b, int) else self._lin(self.sz(a) - self.sz(b))

    def mul(self, a, b):
        return a * b if isinstance(a, int) and isinstance(b, int) else self._lin(self.sz(a) * self.sz(b))

    def _lin(self, t):
        return self.fold(t)

    def le(self, a, b):
        return self.cmp("<=", a, b, None)

    def lt(self, a, b):
        return self.cmp("<", a, b, None)

    def eq(self, a, b):
        return self.cmp("==", a, b, None)

    def select(self, arr, i):
        r = self.fold(z3.Select(arr, self.sz(i)))
        if not isinstance(r, int) and r.get_id() not in self.rng:
            self.facts += [r >= 0, r <= 255]     # arrays of this sort hold bytes
        return self.setr(r, 0, 255)

    def ite(self, c, a, b, ty):
        (al, ah), (bl, bh) = self.getr(a), self.getr(b)
        r = self.fold(z3.If(c, self.sz(a), self.sz(b)))
        if None not in (al, ah, bl, bh):
            self.setr(r, min(al, bl), max(ah, bh))
        return r

    def eqterm(self, a, b, ty):
        return self.cmp("==", a, b, ty)

    def model_int(self, m, x, signed=False, w=64):
        return x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()
