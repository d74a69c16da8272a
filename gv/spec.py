"""Specification values: wire formats (codecs) and equality goals over symbolic sequences."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from .engine import Univ

CODECS = {}


class ForAll:
    """for all 0 <= j < n: f(j)"""

    def __init__(self, n, f):
        self.n, self.f = n, f


def conj(*xs):
    """formula = list of atoms (bool / z3 / ForAll)"""
    out = []
    for x in xs:
        if isinstance(x, list):
            out += x
        else:
            out.append(x)
    return out


class Alt:
    """guarded parse alternative"""

    def __init__(self, guard, ok, val, nxt):
        self.guard, self.ok, self.val, self.next = guard, ok, val, nxt


def rangefact(E, v, lo, hi):
    if E.D.name == "int" and v.get_id() not in E.D.rng:
        E.D.facts += [v >= lo, v <= hi]
        E.D.setr(v, lo, hi)


def uleq(E, a, b):
    """unsigned comparison of a 64-bit count with a size"""
    if E.D.name == "int":
        return E.D.le(a, b)
    return norm_bool(z3.ULE(E.D.sz(a), E.D.sz(b)))


class Codec:
    opaque = False
    atomic = False    # never unfolded: equal only to itself on an equal value
    fixed = None      # constant wire length
    goty = None

    def __init__(self, name):
        self.name = name
        CODECS[name] = self

    def __repr__(self):
        return self.name

    # wire length term of a Wire node
    def wlen(self, E, st, v):
        if self.fixed is not None:
            return self.fixed
        key = vkey(v)
        n = E.ufs.get(("wlen", self.name, key))
        if n is None:
            n = E.D.fresh(E.fresh_name("wlen_" + self.name), E.P.INT)
            E.ufs[("wlen", self.name, key)] = n
            E.D.facts.append(zb(E.D.le(0, n)))
            E.D.facts.append(zb(E.D.le(n, 1 << 42)))
            E.keep.append(v)
        return n

    def node(self, E, st, v):
        return Rope((Wire(self.name, v, self.wlen(E, st, v)),))

    def unfold(self, E, st, v):
        """-> [(st, rope)]"""
        raise Unsupported("unfold " + self.name)

    def parse(self, E, st, p, deep=False):
        """-> [Alt] for the abstract input; deep: definition, else possibly opaque"""
        raise Unsupported("parse " + self.name)


def vkey(v):
    if isinstance(v, z3.ExprRef):
        return v.get_id()
    if isinstance(v, (int, bool, str)):
        return (type(v).__name__, v)
    return repr_key(v)


def repr_key(v):
    if isinstance(v, z3.ExprRef):
        return "z%d" % v.get_id()
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(repr_key(x) for x in v) + ")"
    if isinstance(v, StructV):
        return "{" + ",".join(repr_key(x) for x in v.vals) + "}"
    if isinstance(v, Opq):
        return "O:%s%s" % (v.base, repr_key(v.args))
    if isinstance(v, Rope):
        return "R[" + ",".join(repr_key(x) for x in v.segs) + "]"
    if isinstance(v, View):
        return "V(%s,%s,%s)" % (v.src.key(), repr_key(v.off), repr_key(v.n))
    if isinstance(v, Lit):
        return "L" + repr_key(v.v)
    if isinstance(v, SliceV):
        return "S(%s,%s,%s)" % (repr_key(v.loc) if v.loc else None, repr_key(v.off), repr_key(v.ln))
    if isinstance(v, PtrV):
        return "P%s" % (v,)
    if isinstance(v, Gen):
        return "G(%d,%s,%s)" % (v.g.id, repr_key(v.a), repr_key(v.n))
    if isinstance(v, Wire):
        return "W(%s,%s)" % (v.c, repr_key(v.v))
    if isinstance(v, App):
        return "A(%s,%s)" % (v.f, repr_key(v.args))
    if isinstance(v, (int, bool, str, Nil)) or v is None:
        return repr(v)
    raise Unsupported("key of %r" % (v,))


def IN(st):
    return st.ghost["IN"]


def NN(st):
    return st.ghost["N"]


def unwrap(v, w):
    """a term equal to v modulo 2^w, without the wrapping to a type of at least w bits"""
    while True:
        c = [x for x in v.children()] if z3.is_add(v) else [v]
        m = [x for x in c if z3.is_mod(x) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() % (1 << w) == 0]
        if len(m) != 1:
            return v
        v = z3.simplify(z3.Sum([x.arg(0) if x is m[0] else x for x in c]))
        if z3.is_int_value(v):
            return v


class Prim(Codec):
    """little-endian integer (or float bits, or bool) of w bytes"""

    def __init__(self, name, w, kind="int"):
        super().__init__(name)
        self.fixed = w
        self.kind = kind

    def unfold(self, E, st, v):
        D = E.D
        if self.kind == "bool":
            if isb(v):
                return [(st, lit([1 if v else 0]))]
            return [(st, lit([D.fold(z3.If(v, D.byte(1), D.byte(0)))]))]
        bs = []
        w = self.fixed * 8
        if D.name == "int" and not isinstance(v, int):
            v = unwrap(v, w)
        for i in range(self.fixed):
            if isinstance(v, int):
                bs.append((v >> (8 * i)) & 255)
            elif D.name == "bv":
                bs.append(D.fold(z3.Extract(8 * i + 7, 8 * i, v)))
            else:
                bs.append(D.setr(D.fold((v / (1 << (8 * i))) % 256), 0, 255))
        return [(st, lit(bs))]

    def node(self, E, st, v):
        if E.D.name == "int" and not isinstance(v, int):
            return Rope((Wire(self.name, v, self.fixed),))
        return self.unfold(E, st, v)[0][1]

    def parse(self, E, st, p, deep=False):
        D = E.D
        if D.name == "int":
            # opaque: callers only move the value around
            ok = D.le(D.add(p, self.fixed), NN(st))
            if self.kind == "bool":
                v, u = E.uf("val:bool", (D.sz(p),), z3.BoolSort()), E.uf("val:u8", (D.sz(p),), z3.IntSort())
                if ("asbool", v.get_id()) not in E.ufs:
                    E.ufs[("asbool", v.get_id())] = v
                    rangefact(E, u, 0, 255)
                    D.facts.append(v == (u != 0))
                return [Alt(True, conj(ok), v, D.add(p, 1))]
            if self.name[0] == "f":
                return [Alt(True, conj(ok), Float(E.uf("val:" + self.name, (D.sz(p),), z3.RealSort())), D.add(p, self.fixed))]
            v = E.uf("val:" + self.name, (D.sz(p),), z3.IntSort())
            w = 8 * self.fixed
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if self.name[0] == "i" else (0, (1 << w) - 1)
            rangefact(E, v, lo, hi)
            if self.name[0] == "i":         # the same bytes, read as signed
                u = E.uf("val:u" + self.name[1:], (D.sz(p),), z3.IntSort())
                if ("signed", v.get_id()) not in E.ufs:
                    E.ufs[("signed", v.get_id())] = v
                    rangefact(E, u, 0, (1 << w) - 1)
                    D.facts.append(v == z3.If(u >= 1 << (w - 1), u - (1 << w), u))
            return [Alt(True, conj(ok), v, D.add(p, self.fixed))]
        bs = [D.select(IN(st), D.add(p, i)) for i in range(self.fixed)]
        ok = band(D.le(D.add(p, self.fixed), NN(st)))
        if self.kind == "bool":
            v = norm_bool(D.byte(bs[0]) != 0)
        elif D.name == "bv":
            v = D.fold(z3.Concat(*[D.byte(b) for b in reversed(bs)])) if self.fixed > 1 else bs[0]
        else:
            raise Unsupported("integer-mode parse")
        return [Alt(True, conj(ok), v, D.add(p, self.fixed))]


class UVar(Codec):
    """LEB128; zig-zag for the signed kind"""
    opaque = True

    def __init__(self, name, signed):
        super().__init__(name)
        self.signed = signed

    def wlen(self, E, st, v):
        if isinstance(v, int):
            u = self.zz(E, v)
            n = 1
            while u >> (7 * n):
                n += 1
            return n
        D = E.D
        n = E.uf("uvlen_" + self.name, (v,), D.szsort())
        k = ("uvlen", n.get_id())
        if k not in E.ufs:
            E.ufs[k] = n
            D.facts.append(zb(D.le(1, n)))
            D.facts.append(zb(D.le(n, 10)))
            u = self.zz(E, v)
            for i in range(1, 10):     # definition: at most i bytes iff u < 2^(7i)
                if D.name == "bv":
                    D.facts.append(z3.ULT(u, z3.BitVecVal(1 << (7 * i), 64)) == (n <= i))
                else:
                    D.facts.append((u < (1 << (7 * i))) == (n <= i))
        return n

    def zz(self, E, v):
        if not self.signed:
            return v
        if isinstance(v, int):
            s = E.D.toint(v, True, 64)
            return (s << 1 if s >= 0 else ((-s) << 1) - 1) & ((1 << 64) - 1)
        if E.D.name == "int":
            return z3.If(v >= 0, 2 * v, -2 * v - 1)
        return z3.If(v >= 0, v << 1, ~(v << 1))

    def unfold(self, E, st, v):
        D = E.D
        u = self.zz(E, v)
        if isinstance(u, int):
            bs = []
            while True:
                b = u & 127
                u >>= 7
                if u:
                    bs.append(b | 128)
                else:
                    bs.append(b)
                    return [(st, lit(bs))]
        out = []
        for n in range(1, 11):
            lo = (1 << (7 * (n - 1))) if n > 1 else 0
            if D.name == "int":
                c = z3.And(u >= lo, u < (1 << (7 * n)))
                if E.pr.feasible(st, c):
                    s = st.fork().assume(c)
                    out.append((s, lit([D.setr(D.fold((u / (1 << 7 * i)) % 128 + (128 if i < n - 1 else 0)), 0, 255) for i in range(n)])))
                continue
            c = z3.UGE(u, z3.BitVecVal(lo, 64))
            if n < 10:
                c = z3.And(c, z3.ULT(u, z3.BitVecVal(1 << (7 * n), 64)))
            if not E.pr.feasible(st, c):
                continue
            s = st.fork().assume(c)
            bs = []
            for i in range(n):
                g = z3.Extract(min(7 * i + 6, 63), 7 * i, u)
                if g.size() < 7:
                    g = z3.ZeroExt(7 - g.size(), g)
                bs.append(D.fold(z3.Concat(z3.BitVecVal(1 if i < n - 1 else 0, 1), g)))
            out.append((s, lit(bs)))
        return out

    def parse(self, E, st, p, deep=False):
        D = E.D
        if not deep:
            N = NN(st)
            pp = D.sz(p)
            ok = E.uf("ok:" + self.name, (pp,), z3.BoolSort())
            nx = E.uf("next:" + self.name, (pp,), D.szsort())
            if D.name == "int":
                v = E.uf("val:" + self.name, (pp,), z3.IntSort())
                rangefact(E, v, *((-(1 << 63), (1 << 63) - 1) if self.signed else (0, (1 << 64) - 1)))
            else:
                v = E.uf("val:" + self.name, (pp,), z3.BitVecSort(64))
            bound = norm_bool(z3.Implies(ok, z3.And(zb(D.lt(p, nx)), zb(D.le(nx, N)), zb(D.le(nx, D.add(p, 10))))))
            k = ("okfact", ok.get_id())
            if k not in E.ufs:
                E.ufs[k] = ok
                E.D.facts.append(bound)
            return [Alt(True, conj(ok, D.lt(p, nx), D.le(nx, N)), v, nx)]
        alts = []
        arr = IN(st)
        b = [D.byte(D.select(arr, D.add(p, i))) for i in range(10)]
        hi = [z3.Extract(7, 7, x) == 1 for x in b]
        for n in range(1, 11):
            g = band(*(hi[:n - 1] + [z3.Not(hi[n - 1])]))
            u = z3.Concat(*[z3.Extract(6, 0, b[i]) for i in reversed(range(n))]) if n > 1 else z3.Extract(6, 0, b[0])
            u = z3.ZeroExt(64 - u.size(), u) if u.size() < 64 else z3.Extract(63, 0, u)
            ok = [D.le(D.add(p, n), NN(st))]
            if n == 10:
                ok.append(z3.ULE(b[9], z3.BitVecVal(1, 8)))
            if self.signed:
                u = z3.If(z3.Extract(0, 0, u) == 1, ~z3.LShR(u, 1), z3.LShR(u, 1))
            alts.append(Alt(norm_bool(g), conj(*ok), D.fold(u), D.add(p, n)))
        alts.append(Alt(norm_bool(band(*hi)), conj(False), 0, p))
        return alts


class BytesC(Codec):
    """length prefix and that many bytes; value: a byte sequence"""

    def __init__(self, name):
        super().__init__(name)

    def wlen(self, E, st, v):
        n = E.rlen(v) if isinstance(v, Rope) else seq_len(E, st, v)
        return E.D.add(CODECS["uvar"].wlen(E, st, n), n)

    def unfold(self, E, st, v):
        out = []
        for s, r in seq_of(E, st, v):
            out.append((s, E.cat(CODECS["uvar"].node(E, s, E.rlen(r)), r)))
        return out

    def parse(self, E, st, p, deep=False):
        D = E.D
        a = CODECS["uvar"].parse(E, st, p)[0]
        l, q = a.val, a.next
        room = D.sub(NN(st), q)
        okl = uleq(E, l, room)
        return [Alt(True, conj(a.ok, okl), Rope((View(ArrSrc(IN(st)), q, l),)), D.add(q, l))]


class Fixed(Codec):
    """n raw bytes; value: a byte sequence of that length"""

    def __init__(self, name, n):
        super().__init__(name)
        self.fixed = n

    def unfold(self, E, st, v):
        return seq_of(E, st, v)

    def parse(self, E, st, p, deep=False):
        D = E.D
        return [Alt(True, conj(D.le(D.add(p, self.fixed), NN(st))), Rope((View(ArrSrc(IN(st)), p, self.fixed),)), D.add(p, self.fixed))]


class RawN(Codec):
    """n raw bytes, n a term; value: a byte sequence of that length"""

    def __init__(self, n):
        self.name, self.n = "raw", n

    def node(self, E, st, v):
        return seq_of(E, st, v)[0][1]

    def unfold(self, E, st, v):
        return seq_of(E, st, v)

    def parse(self, E, st, p, deep=False):
        D = E.D
        room = D.sub(NN(st), p)
        return [Alt(True, conj(D.le(0, self.n), D.le(self.n, room)), Rope((View(ArrSrc(IN(st)), p, self.n),)), D.add(p, self.n))]


class Struct(Codec):
    def __init__(self, name, parts, opaque=False, single=False):
        """parts: [(getter index path or name, codec name)] in wire order, by Go field order of the value"""
        super().__init__(name)
        self.parts = parts
        self.opaque = opaque
        fx = [CODECS[c].fixed for _, c in parts]
        self.fixed = sum(fx) if all(f is not None for f in fx) else None

    def get(self, E, st, v, path):
        for f in path.split("."):
            v = E.mat(st, v)
            if isinstance(v, Opq):
                raise Unsupported("field of %r" % (v,))
            v = v.vals[int(f)]
        return v

    def unfold(self, E, st, v):
        cur = [(st, Rope())]
        for path, c in self.parts:
            cur = [(s, E.cat(r, CODECS[c].node(E, s, norm_seq(E, s, self.get(E, s, v, path))))) for s, r in cur]
        return cur

    def parse(self, E, st, p, deep=False):
        D = E.D
        if self.opaque and not deep:
            return opaque_parse(E, st, self, p)
        alts = [Alt(True, [], {}, p)]
        for path, c in self.parts:
            na = []
            for a in alts:
                for b in CODECS[c].parse(E, st, a.next):
                    v = dict(a.val)
                    v[path] = b.val
                    na.append(Alt(band(a.guard, b.guard), conj(a.ok, b.ok), v, b.next))
            alts = na
        for a in alts:
            a.val = build(a.val)
        return alts


def build(d):
    """{'0': x, '1.0': y, ...} -> nested StructV"""
    if "" in d:
        return d[""]
    groups = {}
    for k, v in d.items():
        h, _, t = k.partition(".")
        groups.setdefault(int(h), {})[t] = v
    return StructV([build(groups[i]) for i in range(len(groups))])


def opaque_parse(E, st, c, p):
    D = E.D
    N = NN(st)
    pp = D.sz(p)
    ok = E.uf("ok:" + c.name, (pp,), z3.BoolSort())
    nx = E.uf("next:" + c.name, (pp,), D.szsort())
    ty = E.P.byname[c.goty]
    v = E.opq(st, ty, "val:" + c.name, (pp,))
    return [Alt(True, conj(ok, D.lt(p, nx), D.le(nx, N)), v, nx)]


class Vec(Codec):
    """uvar count, then the elements; value: a sequence"""

    def __init__(self, name, elem):
        super().__init__(name)
        self.elem = elem

    def unfold(self, E, st, v):
        c = CODECS[self.elem]
        D = E.D
        out = []
        for s, r in seq_of(E, st, v):
            n = E.rlen(r)
            out.append((s, E.cat(CODECS["uvar"].node(E, s, n), vec_body(E, s, c, r, n))))
        return out

    def elpos(self, E, st, p1, j):
        D = E.D
        c = CODECS[self.elem]
        if c.fixed is not None:
            return D.add(p1, D.mul(c.fixed, j))
        P = D.fresh("#p", E.P.INT)
        a = c.parse(E, st, P)
        if len(a) != 1:
            raise Unsupported("elements with alternatives")
        return E.iter_term((P, a[0].next), p1, j)

    def parse(self, E, st, p, deep=False):
        D = E.D
        a = CODECS["uvar"].parse(E, st, p)[0]
        n, p1 = a.val, a.next
        c = CODECS[self.elem]
        var = D.fresh(E.fresh_name("vj"), E.P.INT)
        body = c.parse(E, st, self.elpos(E, st, p1, var))[0]
        def okj(j):
            return c.parse(E, st, self.elpos(E, st, p1, j))[0].ok
        small = zb(D.le(0, n))
        return [Alt(True, conj(a.ok, small, ForAll(n, okj)),
                    Rope((View(FnSrc(var, body.val), 0, n),)), self.elpos(E, st, p1, n))]


def vec_body(E, st, c, r, n):
    D = E.D
    if isinstance(n, int):
        rs = Rope()
        for i in range(n):
            e = E.rope_at(st, r, i)[0][1]
            rs = E.cat(rs, c.node(E, st, e))
        return rs
    var = D.fresh(E.fresh_name("wj"), E.P.INT)
    if len(r.segs) == 1 and isinstance(r.segs[0], View):
        e = E.src_at(st, r.segs[0].src, D.add(r.segs[0].off, var))
        g = Generator(var, [(True, c.node(E, st, e))], "vec:" + c.name)
        if c.fixed is not None:
            ln = D.mul(c.fixed, n)
        else:
            ln = E.D.fresh(E.fresh_name("vlen"), E.P.INT)
        return Rope((Gen(g, 0, n, ln),))
    raise Unsupported("vector over %r" % (r,))


class Alias(Codec):
    """same wire format under another name"""

    def __init__(self, name, of):
        super().__init__(name)
        CODECS[name] = CODECS[of]


def seq_len(E, st, v):
    v = E.mat(st, v)
    if isinstance(v, Rope):
        return E.rlen(v)
    if isinstance(v, SliceV):
        return v.ln
    raise Unsupported("length of %r" % (v,))


def seq_of(E, st, v):
    v = E.mat(st, v)
    if isinstance(v, Rope):
        return [(st, v)]
    if isinstance(v, SliceV):
        return E.content(st, v)
    raise Unsupported("sequence %r" % (v,))


def norm_seq(E, st, v):
    """slices as their contents, so that Wire nodes hold no heap pointers"""
    m = E.mat(st, v)
    if isinstance(m, SliceV):
        rs = E.content(st, m)
        if len(rs) == 1:
            return rs[0][1]
    return v


class Spec:
    def unfold_wire(self, E, st, c, v):
        u = CODECS[c].unfold(E, st, v)
        if len(u) == 1:
            return u[0][1]
        return None

    def app_at(self, E, st, s, i):
        h = APP_AT.get(s.f)
        return h(E, st, s, i) if h else None

    def rope_eq_atom(self, E, st, a, b):
        return None


APP_AT = {}
SPEC = Spec()


# ---------------------------------------------------------------- goals

class Goals:
    """list of (state, goal, label) that must all be valid"""

    def __init__(self, E):
        self.E = E
        self.items = []

    def add(self, st, g, label):
        self.items.append((st, g, label))

    def rope_eq(self, st, a, b, label, depth=0):
        E, D = self.E, self.E.D
        if same(a, b):
            return self.add(st, True, label)
        A, B = list(a.segs), list(b.segs)
        work = [(st, A, B)]
        steps = 0
        while work:
            steps += 1
            if steps > 400:
                return self.add(st, False, label + ": comparison too long")
            s, A, B = work.pop()
            A, B = self.dropempty(s, A), self.dropempty(s, B)
            if not A and not B:
                self.add(s, True, label)
                continue
            if not A or not B:
                rest = A or B
                n = E.rlen(Rope(rest))
                self.add(s, norm_bool(zb(D.eq(n, 0))), label + ": lengths differ")
                continue
            x, y = A[0], B[0]
            if same(x, y):
                work.append((s, A[1:], B[1:]))
                continue
            if isinstance(x, Wire) and isinstance(y, Wire) and x.c == y.c:
                # equal values give equal encodings
                if self.quick_val_eq(s, x.v, y.v):
                    work.append((s, A[1:], B[1:]))
                    continue
            if isinstance(x, App) and isinstance(y, App) and x.f == y.f and len(x.args) == len(y.args):
                for u, v in zip(x.args, y.args):
                    self.val_eq(s, u, v, label + ": " + x.f)
                work.append((s, A[1:], B[1:]))
                continue
            if isinstance(x, Gen) and isinstance(y, Gen):
                # same number of iterations, same contribution each
                self.add(s, D.eq(x.n, y.n), label + ": element counts")
                s2 = s.fork()
                s2.assume(D.eq(x.n, y.n))
                self.gen_body(s2, x, y, label, depth)
                work.append((s, A[1:], B[1:]))
                continue
            if isinstance(x, Wire) or isinstance(y, Wire):
                done = False
                cand = [(who, seg) for who, seg in ((0, x), (1, y)) if isinstance(seg, Wire)]
                cand.sort(key=lambda t: isinstance(CODECS[t[1].c], UVar))
                for who, seg in cand:
                    if not CODECS[seg.c].atomic:
                        us = CODECS[seg.c].unfold(E, s, seg.v)
                        for s2, r in us:
                            if who == 0:
                                work.append((s2, list(r.segs) + A[1:], B))
                            else:
                                work.append((s2, A, list(r.segs) + B[1:]))
                        done = True
                        break
                if done:
                    continue
                self.add(s, False, label + ": %r vs %r" % (x, y))
                continue
            if isinstance(x, Lit) and isinstance(y, Lit):
                n = min(len(x.v), len(y.v))
                for i in range(n):
                    self.val_eq(s, x.v[i], y.v[i], label)
                A2 = ([Lit(x.v[n:])] if len(x.v) > n else []) + A[1:]
                B2 = ([Lit(y.v[n:])] if len(y.v) > n else []) + B[1:]
                work.append((s, A2, B2))
                continue
            if isinstance(x, (Gen, App)) or isinstance(y, (Gen, App)):
                h = self.special(s, x, y, A, B, label)
                if h is not None:
                    work += h
                    continue
                # maybe one of them is empty
                self.add(s, False, label + ": %r vs %r" % (x, y))
                continue
            # views and literals: align lengths
            nx, ny = E.seglen(x), E.seglen(y)
            for s2, le in E.split(s.fork(), D.le(nx, ny)):
                n = nx if le else ny
                xs, ys = self.cut(s2, x, n), self.cut(s2, y, n)
                if xs is None or ys is None:
                    self.add(s2, False, label + ": cannot align %r with %r" % (x, y))
                    continue
                (x1, x2), (y1, y2) = xs, ys
                self.seg_eq(s2, x1, y1, n, label)
                work.append((s2, ([x2] if x2 is not None else []) + A[1:], ([y2] if y2 is not None else []) + B[1:]))

    def special(self, s, x, y, A, B, label):
        E, D = self.E, self.E.D
        if isinstance(x, App) and isinstance(y, View):
            return [(s, [View(AppSrc(x.f, x.args), 0, x.ln)] + A[1:], B)]
        if isinstance(y, App) and isinstance(x, View):
            return [(s, A, [View(AppSrc(y.f, y.args), 0, y.ln)] + B[1:])]
        # a generator against a view: element by element when it contributes single elements
        for g, v, gi in ((x, y, 0), (y, x, 1)):
            if isinstance(g, Gen) and isinstance(v, View) and g.g.cases is not None:
                pass
        # an application against other content: expand it when its length is constant
        for a, ai in ((x, 0), (y, 1)):
            if isinstance(a, App) and isinstance(a.ln, int) and a.ln <= 256 and a.f in APP_AT:
                r = [APP_AT[a.f](E, s, a, i) for i in range(a.ln)]
                if ai == 0:
                    return [(s, [Lit(r)] + A[1:], B)]
                return [(s, A, [Lit(r)] + B[1:])]
        return None

    def dropempty(self, st, segs):
        E = self.E
        while segs:
            n = E.seglen(segs[0])
            if isinstance(n, int):
                if n:
                    return segs
            elif not E.proves(st, E.D.eq(n, 0)):
                return segs
            segs = segs[1:]
        return segs

    def cut(self, st, x, n):
        E, D = self.E, self.E.D
        nx = E.seglen(x)
        if same(nx, n) or E.proves(st, D.eq(nx, n)):
            return x, None
        if isinstance(x, Lit):
            if isinstance(n, int):
                return Lit(x.v[:n]), Lit(x.v[n:])
            return None
        return View(x.src, x.off, n), View(x.src, x.off if x.src.kind == "const" else D.add(x.off, n), D.sub(nx, n))

    def seg_eq(self, s, x, y, n, label):
        E, D = self.E, self.E.D
        if isinstance(x, View) and isinstance(y, View) and x.src.key() == y.src.key():
            if x.src.kind == "const" or E.proves(s, D.eq(x.off, y.off)):
                return self.add(s, True, label)
            if x.src.kind == "arr":
                pass
        if isinstance(x, View) and isinstance(y, View) and x.src.kind == "app" and y.src.kind == "app" and x.src.f == y.src.f and len(x.src.args) == len(y.src.args) \
                and E.proves(s, D.eq(x.off, y.off)):
            for u, v in zip(x.src.args, y.src.args):
                self.val_eq(s, u, v, label + ": argument of " + x.src.f)
            return
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Lit):
                for i in range(len(a.v)):
                    e = E.src_at(s, b.src, D.add(b.off, i) if b.src.kind != "const" else i) if isinstance(b, View) else b.v[i]
                    self.val_eq(s, a.v[i], e, label)
                return
        j = D.fresh(E.fresh_name("sk"), E.P.INT)
        s2 = s.fork()
        s2.assume(D.le(0, j))
        s2.assume(D.lt(j, n))
        s2.idx = s2.idx + [j]
        a = E.src_at(s2, x.src, D.add(x.off, j))
        b = E.src_at(s2, y.src, D.add(y.off, j))
        self.val_eq(s2, a, b, label + " (element)")

    def gen_body(self, s, x, y, label, depth):
        E, D = self.E, self.E.D
        if x.g is y.g and E.proves(s, D.eq(x.a, y.a)):
            return self.add(s, True, label)
        if x.g.cases is None or y.g.cases is None:
            return self.add(s, False, label + ": unknown generator")
        j = D.fresh(E.fresh_name("sk"), E.P.INT)
        s2 = s.fork()
        s2.assume(D.le(0, j))
        s2.assume(D.lt(j, x.n))
        s2.idx = s2.idx + [j]
        for ga, ra in x.g.cases:
            ga = subst(ga, [(x.g.var, D.sz(D.add(x.a, j)))]) if not isb(ga) else ga
            for gb, rb in y.g.cases:
                gb = subst(gb, [(y.g.var, D.sz(D.add(y.a, j)))]) if not isb(gb) else gb
                s3 = s2.fork()
                s3.assume(ga)
                s3.assume(gb)
                if not E.pr.feasible(s3, True) or E.pr.check(s3, True) == z3.unsat:
                    continue
                self.rope_eq(s3, subst(ra, [(x.g.var, D.sz(D.add(x.a, j)))]), subst(rb, [(y.g.var, D.sz(D.add(y.a, j)))]), label + " (element)", depth + 1)

    def quick_val_eq(self, st, a, b):
        if same(a, b):
            return True
        if isinstance(a, (int, z3.BitVecRef, z3.ArithRef)) and isinstance(b, (int, z3.BitVecRef, z3.ArithRef)):
            return self.E.proves(st, self.E.D.cmp("==", a, b, self.E._ety_of((a, b)) or self.E.P.INT))
        g = Goals(self.E)
        try:
            g.val_eq(st.fork(), a, b, "")
        except Unsupported:
            return False
        return all(gl is True or (not isb(gl) and self.E.proves(s, gl)) for s, gl, _ in g.items)

    def val_eq(self, st, a, b, label):
        """structural equality; slices by content (nil and empty are the same)"""
        E, D = self.E, self.E.D
        if same(a, b):
            return self.add(st, True, label)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return self.add(st, norm_bool(zb(a) == zb(b)), label)
        if isinstance(a, (int, z3.BitVecRef, z3.ArithRef)) and isinstance(b, (int, z3.BitVecRef, z3.ArithRef)):
            t = None
            if D.name == "bv":
                w = a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else None
                if w is None:
                    return self.add(st, a == b, label)
                A = z3.BitVecVal(a, w) if isinstance(a, int) else a
                B = z3.BitVecVal(b, w) if isinstance(b, int) else b
                if A.size() != B.size():
                    return self.add(st, False, label + ": widths differ")
                return self.add(st, A == B if w == D.raw else norm_bool(A == B), label)
            return self.add(st, D.eq(a, b), label)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.base == b.base and len(a.args) == len(b.args):
            return self.add(st, band(*[norm_bool(D.sz(x) == D.sz(y)) for x, y in zip(a.args, b.args)]), label)
        a, b = E.mat(st, a), E.mat(st, b)
        if isinstance(a, StructV) and isinstance(b, StructV):
            if len(a.vals) != len(b.vals):
                return self.add(st, False, label + ": shapes differ")
            for i, (x, y) in enumerate(zip(a.vals, b.vals)):
                self.val_eq(st, x, y, label + ".%d" % i)
            return
        if isinstance(a, (Rope, SliceV)) and isinstance(b, (Rope, SliceV)):
            for s, ra in ([(st, a)] if isinstance(a, Rope) else E.content(st, a)):
                for s2, rb in ([(s, b)] if isinstance(b, Rope) else E.content(s, b)):
                    self.rope_eq(s2, ra, rb, label)
            return
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            if a.ty is not b.ty and a.ty != b.ty:
                return self.add(st, False, label + ": dynamic types differ")
            return self.val_eq(st, a.val, b.val, label)
        if isinstance(a, Float) and isinstance(b, Float):
            return self.add(st, norm_bool(a.t == b.t), label)
        if hasattr(a, "val_eq"):
            return a.val_eq(self, st, b, label)
        self.add(st, False, label + ": %r vs %r" % (a, b))

    def formula(self, st, atoms, label):
        """all atoms hold"""
        E, D = self.E, self.E.D
        for a in atoms:
            if isinstance(a, list):
                self.formula(st, a, label)
            elif isinstance(a, ForAll):
                j = D.fresh(E.fresh_name("sk"), E.P.INT)
                s = st.fork()
                s.assume(D.le(0, j))
                s.assume(D.lt(j, a.n))
                s.idx = s.idx + [j]
                self.formula(s, a.f(j), label + " (each element)")
            else:
                self.add(st, a, label)

    def not_formula(self, st, atoms, label):
        """some atom fails"""
        self.add(st, self.neg(st, atoms), label)

    def neg(self, st, atoms):
        E, D = self.E, self.E.D
        ds = []
        for a in atoms:
            if isinstance(a, list):
                ds.append(self.neg(st, a))
            elif isinstance(a, ForAll):
                for t in st.idx:
                    ds.append(band(D.le(0, t), D.lt(t, a.n), self.neg(st, a.f(t))))
            else:
                ds.append(bnot(a))
        return bor(*ds)


# ---------------------------------------------------------------- base codecs

for _n, _w in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("i8", 1), ("i16", 2), ("i32", 4), ("i64", 8), ("f32", 4), ("f64", 8)):
    Prim(_n, _w)
Prim("bool", 1, "bool")
UVar("uvar", False)
UVar("svar", True)
BytesC("bytes")
for _n in (16, 20, 32, 64):
    Fixed("fixed%d" % _n, _n)
