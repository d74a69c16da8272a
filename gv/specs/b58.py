"""Contracts: base58 (C15).  The value of a text is defined digit by digit, most significant first; the value of a byte
string byte by byte (math/big's SetBytes and Bytes); both digit tables are written out here, independently of the code's."""
from ..contract import *
from ..spec import *
from ..loops import Cand
from .names import seq_in
from .digest import b58enc, b58dec
from .. import textm as tx, bigm

RANGES = [(0x31, 0x39, 0), (0x41, 0x48, 9), (0x4A, 0x4E, 17), (0x50, 0x5A, 22), (0x61, 0x6B, 33), (0x6D, 0x7A, 44)]


def py_code(c):
    """value of a character of the alphabet 1-9 A-H J-N P-Z a-k m-z; 255 for any other"""
    for lo, hi, d in RANGES:
        if lo <= c <= hi:
            return c - lo + d
    return 255


CODE = [py_code(c) for c in range(256)]
CHAR = [CODE.index(d) for d in range(58)]
# read off the finite definition (complete enumeration): the facts used about code and char
assert all(CODE[CHAR[d]] == d for d in range(58)) and all(x <= 57 or x == 255 for x in CODE)
assert [c for c in range(256) if CODE[c] == 0] == [0x31]


def code(E, c):
    if isinstance(c, int):
        return z3.IntVal(CODE[c])
    r = E.uf("b58code", (E.D.sz(c),), z3.IntSort())
    if tx.once(E, "b58code", r):
        E.D.facts += [r >= 0, z3.Or(r <= 57, r == 255), (r == 0) == (E.D.sz(c) == 0x31)]
        E.D.setr(r, 0, 255)
    return r


def char(E, d):
    """the character of a digit"""
    if isinstance(d, int):
        return z3.IntVal(CHAR[d])
    r = E.uf("b58char", (E.D.sz(d),), z3.IntSort())
    if tx.once(E, "b58char", r):
        E.D.facts += [z3.Implies(z3.And(d >= 0, d < 58), z3.And(r >= 0x31, r <= 0x7A, (r == 0x31) == (d == 0))), r >= 0, r <= 255]
        E.D.setr(r, 0, 255)
    return r


def h_table(E, v, i):
    """the code's tables, when they hold what the definition says (compared entry by entry)"""
    if list(v) == CODE:
        return code(E, i)
    if list(v) == CHAR:
        return char(E, i)
    return None


def minbytes(E, st, v):
    """minimal big-endian bytes of a non-negative integer (math/big's Bytes)"""
    t = bigm.wide(E, v)
    n = E.uf("minlen", (t,), E.D.szsort())
    if tx.once(E, "minlen", n):
        E.D.facts += [n >= 0, n <= 1 << 41, (n == 0) == (t == 0)]
    return Rope((View(ArrSrc(E.uf("minbytes", (t,), E.arrsort())), 0, n),))


def h_bytes(E, st, v):
    return [(st, (E.mkslice(st, minbytes(E, st, v)),))]


class Text:
    """a text and its value as base-58 digits"""

    def __init__(self, E, st, t):
        self.E, self.k = E, tx.key(E, st, t)
        self.t = t
        self.N = E.D.sz(E.rlen(t))
        self.good = E.uf("b58good", self.k, z3.BoolSort())
        self.w = E.uf("b58bad", self.k, z3.IntSort())
        self.nz = E.uf("b58ones", self.k, z3.IntSort())

    def P(self, k):
        return self.E.uf("b58P", self.k + (self.E.D.sz(k),), z3.IntSort())

    def at(self, j):
        return self.E.D.sz(tx.at(self.E, self.k, j))

    def facts(self, st):
        E, D = self.E, self.E.D
        if any(u.name == ("b58", id(self)) for u in st.univ if hasattr(u, "name")):
            return
        rng = lambda j: band(D.le(0, j), D.lt(j, self.N))
        st.assume(self.P(0) == 0)
        st.assume(z3.Implies(z3.Not(self.good), z3.And(self.w >= 0, self.w < self.N, code(E, self.at(self.w)) == 255)))
        st.assume(z3.And(self.nz >= 0, self.nz <= self.N, z3.Implies(self.nz < self.N, self.at(self.nz) != 0x31)))
        st.univ.append(Univ(lambda j: bimp(rng(j), norm_bool(self.P(D.add(j, 1)) == 58 * self.P(j) + code(E, self.at(j)))), "digit"))
        st.univ.append(Univ(lambda j: bimp(band(self.good, rng(j)), norm_bool(code(E, self.at(j)) <= 57)), "alphabet"))
        st.univ.append(Univ(lambda j: bimp(band(D.le(0, j), D.lt(j, self.nz)), norm_bool(self.at(j) == 0x31)), "ones"))


def T(E, st, t):
    k = ("b58text", repr_key(t))
    if k not in E.ufs:
        E.ufs[k] = Text(E, st, t)
    return E.ufs[k]


def dec_def(E, st, a):
    D = E.D
    x = T(E, st, seq_in(E, st, a[0]))
    x.facts(st)
    w10 = D.fold(x.w / 10)
    st.idx = st.idx + [x.nz, x.w, w10]
    out = []
    for s, g in E.split(st, x.good):
        out.append(Out(s, (E.cat(Rope((View(ConstSrc(0), 0, x.nz),)), minbytes(E, s, x.P(x.N))) if g else Rope(),)))
    return out


def dec_inv(E, S, a):
    D = E.D
    x = T(E, S.st, seq_in(E, S.st, a[0]))
    v = x.t.segs[0] if len(x.t.segs) == 1 else None
    if not isinstance(v, View):
        return None

    def done(k, c):
        return D.fold(z3.If(D.sz(k) * c <= x.N, D.sz(k) * c, x.N))

    def enter(s):
        x.facts(s)
        s.idx = s.idx + [x.w, x.nz] + [D.fold(10 * S.K + i) for i in range(10)]
    strides = (10, 1)
    return Cand(enter=enter,
                rope=[(lambda c: lambda k, ty: Rope((View(v.src, D.add(v.off, done(k, c)), D.sub(x.N, done(k, c))),)))(c) for c in strides],
                big=[(lambda c: lambda k, ty: bigm.BigV(x.P(done(k, c))))(c) for c in strides])


Contract("base58.Decode", spec=lambda E, st, a: [Out(st, (b58dec(E, st, seq_in(E, st, a[0])),))], define=dec_def, mode="int", anymode=True, decided="C15",
         cands=dec_inv, hooks=dict(big_bytes=h_bytes, table=h_table), doc="a zero byte per leading 1, then the minimal bytes of the digits' value; nothing when a character is outside the alphabet")


# ---------------------------------------------------------------- encoding

def val_of(E, st, r):
    """big-endian value of a byte string (math/big's SetBytes)"""
    v = E.uf("bytesval", tx.key(E, st, r), z3.IntSort())
    if tx.once(E, "bytesval", v):
        E.D.facts.append(v >= 0)
    return v


def h_value(E, st, r):
    return bigm.BigV(val_of(E, st, r))


class Digits:
    """a byte string b, its value V, its base-58 digits: Q(0) = V, Q(k) = 58 Q(k+1) + R(k), 0 <= R(k) < 58;
    L is the least k with Q(k) = 0; nz counts the leading zero bytes"""

    def __init__(self, E, st, r):
        self.E, self.k, self.r = E, tx.key(E, st, r), r
        self.N = E.D.sz(E.rlen(r))
        self.V = val_of(E, st, r)
        self.L = E.uf("b58L", (self.V,), z3.IntSort())
        self.nz = E.uf("b58zeros", self.k, z3.IntSort())
        self.n = E.D.fold(self.L + self.nz)
        self.known = {}
        if E.D.divrem is None:
            E.D.divrem = self.divrem

    def Q(self, j):
        j = z3.simplify(self.E.D.sz(j))
        if z3.is_int_value(j) and j.as_long() == 0:
            return self.V
        q = self.E.uf("b58Q", (self.V, j), z3.IntSort())
        self.known[q.get_id()] = ("Q", j, q)
        return q

    def R(self, j):
        r = self.E.uf("b58R", (self.V, z3.simplify(self.E.D.sz(j))), z3.IntSort())
        self.E.D.setr(r, 0, 57)
        return r

    def unfold(self, j):
        return z3.And(self.Q(j) == 58 * self.Q(self.E.D.add(j, 1)) + self.R(j), self.R(j) >= 0, self.R(j) < 58, self.Q(j) >= 0)

    def exp(self, j, n):
        """sum of R(j+i) 58^i for i < n"""
        t = z3.IntVal(0)
        for i in range(n):
            t = t + self.R(self.E.D.add(j, i)) * 58 ** i
            u = self.unfold(self.E.D.add(j, i))
            if tx.once(self.E, "b58unfold", u):
                self.E.D.facts.append(u)
        t = self.E.D.fold(t)
        if isinstance(t, int):
            return z3.IntVal(t)
        self.known[t.get_id()] = ("exp", j, n, t)
        self.E.D.setr(t, 0, 58 ** n - 1)
        return t

    def divrem(self, a, c):
        n, p = 0, 1
        while p < c:
            n, p = n + 1, p * 58
        if p != c or n == 0:
            return None
        if self.V.eq(a):
            f = ("Q", z3.IntVal(0))
        else:
            f = self.known.get(a.get_id())
        if f is None:
            return None
        j = f[1]
        if f[0] == "Q":
            q, r = self.Q(self.E.D.add(j, n)), self.exp(j, n)
        elif f[2] >= n:
            q, r = self.exp(self.E.D.add(j, n), f[2] - n), self.exp(j, n)
        else:
            return None
        if not self.E.D.prove(norm_bool(z3.And(a == c * q + r, r >= 0, r < c))):
            return None
        return q, r

    def facts(self, st):
        E, D = self.E, self.E.D
        st.assume(z3.And(self.L >= 0, self.L <= 1 << 41))
        st.assume(z3.And(self.nz >= 0, self.nz <= self.N, z3.Implies(self.nz < self.N, D.sz(tx.at(E, self.k, self.nz)) != 0)))
        st.univ.append(Univ(lambda j: bimp(D.le(0, j), norm_bool(z3.And(self.unfold(j), (self.Q(j) > 0) == (D.sz(j) < self.L)))), "digits"))
        st.univ.append(Univ(lambda j: bimp(band(D.le(0, j), D.lt(j, self.nz)), norm_bool(D.sz(tx.at(E, self.k, j)) == 0)), "zeros"))


def G(E, st, r):
    k = ("b58digits", repr_key(r))
    if k not in E.ufs:
        E.ufs[k] = Digits(E, st, r)
    return E.ufs[k]


def fnrope(E, f, n):
    j = z3.Int(E.fresh_name("j"))
    return Rope((View(FnSrc(j, f(j)), 0, n),))


def enc_def(E, st, a):
    d = G(E, st, seq_in(E, st, a[0]))
    d.facts(st)
    st.idx = st.idx + [d.nz, d.L]
    return [Out(st, (E.cat(Rope((View(ConstSrc(0x31), 0, d.nz),)), fnrope(E, lambda j: char(E, d.R(E.D.sub(E.D.sub(d.L, 1), j))), d.L)),))]


def enc_inv(E, S, a):
    D = E.D
    d = G(E, S.st, seq_in(E, S.st, a[0]))

    def done(k, c):
        return D.fold(z3.If(D.sz(k) * c <= d.L, D.sz(k) * c, d.L))

    def enter(s):
        d.facts(s)
        s.idx = s.idx + [d.nz, d.L] + [D.fold(10 * S.K + i) for i in range(11)]
    src = FnSrc(z3.Int("b58j"), char(E, d.R(z3.Int("b58j"))), ("b58digits", d.V.get_id()))

    def orig(j):
        return z3.If(D.sz(j) < d.L, char(E, d.R(j)), z3.IntVal(0x31))

    def swapped(k, ty):
        k = D.sz(k)
        return fnrope(E, lambda j: z3.If(z3.Or(j < k, j >= D.sz(d.n) - k), orig(D.sub(D.sub(d.n, 1), j)), orig(j)), d.n)
    strides = (10, 1)
    return Cand(enter=enter,
                big=[(lambda c: lambda k, ty: bigm.BigV(d.Q(D.mul(k, c))))(c) for c in strides],
                slice=[(lambda c: lambda k, ty: Rope((View(src, 0, done(k, c)),)))(c) for c in strides],
                rope=[swapped])


Contract("base58.Encode", spec=lambda E, st, a: [Out(st, (b58enc(E, st, seq_in(E, st, a[0])),))], define=enc_def, mode="int", anymode=True, decided="C15",
         cands=enc_inv, hooks=dict(bytes_value=h_value, table=h_table), doc="a 1 per leading zero byte, then the base-58 digits of the value, most significant first")


# ---------------------------------------------------------------- lemmas

def lemmas(P):
    """decoding the text of a byte string gives the byte string, from the two definitions above (induction steps)"""
    out = []

    def prove(name, hyp, goal):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*hyp)
        s.add(z3.Not(goal))
        r = s.check()
        out.append((name, "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", "z3"))
    I = z3.IntSort()
    T, Pv, Q, R, cd, ch = [z3.Function(n, I, I) for n in ("T", "P", "Q", "R", "code", "char")]
    nz, L, i = z3.Ints("nz L i")
    d, c = z3.Ints("d c")
    defs = [cd(x) == v for x, v in enumerate(CODE)] + [ch(x) == v for x, v in enumerate(CHAR)]
    prove("every digit's character has that digit's value", defs + [d >= 0, d < 58], z3.Or([z3.And(d == x, cd(CHAR[x]) == x) for x in range(58)]))
    text = lambda j: z3.If(j < nz, z3.IntVal(0x31), ch(R(L - 1 - (j - nz))))
    base = [nz >= 0, L >= 0, Pv(0) == 0, Q(L) == 0]
    at = lambda j: [T(j) == text(j), Pv(j + 1) == 58 * Pv(j) + cd(T(j)), cd(z3.IntVal(0x31)) == 0]
    q = lambda j: [Q(j) == 58 * Q(j + 1) + R(j), R(j) >= 0, R(j) < 58, cd(ch(R(j))) == R(j), (ch(R(j)) == 0x31) == (R(j) == 0)]
    prove("leading ones have value 0 (induction step)", base + at(i) + [i >= 0, i < nz, Pv(i) == 0], Pv(i + 1) == 0)
    prove("value of the first digits (base)", base + [Pv(nz) == 0], Pv(nz + 0) == Q(L - 0))
    prove("value of the first digits (induction step)", base + at(nz + i) + q(L - i - 1) + [i >= 0, i < L, Pv(nz + i) == Q(L - i)], Pv(nz + i + 1) == Q(L - (i + 1)))
    prove("the whole text's value is the value encoded", base + [Pv(nz + L) == Q(L - L)], Pv(nz + L) == Q(0))
    prove("the first digit is not a one", base + at(nz) + q(L - 1) + [L > 0, Q(L - 1) > 0], T(nz) != 0x31)
    prove("every character is of the alphabet", base + at(i) + q(L - 1 - (i - nz)) + [i >= 0, i < nz + L], cd(T(i)) <= 57)
    return out
