"""Contracts: RIPEMD-160 (C18).  compress() is written from the published definition, independently of the code."""
from ..contract import *
from ..spec import *
from ..loops import Cand, rope_same
from ..engine import Obj

M32 = (1 << 32) - 1
IV = (0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0)
RHO = (7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8)
SHIFT = ((11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8), (12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7),
         (13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9), (14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6),
         (15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5))      # per round, indexed by message word
KL = (0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E)                  # floor(2^30 sqrt(2, 3, 5, 7))
KR = (0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0)                  # floor(2^30 cbrt(2, 3, 5, 7))


def orders():
    """word order of each round: identity, rho, rho^2, ...; on the right line after pi(i) = 9 i + 5 mod 16"""
    L, R = [list(range(16))], [[(9 * i + 5) % 16 for i in range(16)]]
    for _ in range(4):
        L.append([RHO[i] for i in L[-1]])
        R.append([RHO[i] for i in R[-1]])
    return L, R


def compress(h, w, ops):
    """one application of the compression function; ops: (add, xor, or, and, not, rotl, const)"""
    add, xor, or_, and_, not_, rotl, const = ops
    f = (lambda x, y, z: xor(xor(x, y), z), lambda x, y, z: or_(and_(x, y), and_(not_(x), z)), lambda x, y, z: xor(or_(x, not_(y)), z),
         lambda x, y, z: or_(and_(x, z), and_(y, not_(z))), lambda x, y, z: xor(x, or_(y, not_(z))))
    OL, OR = orders()

    def line(order, ks, fs):
        a, b, c, d, e = h
        for r in range(5):
            for i in range(16):
                j = order[r][i]
                t = add(add(a, fs[r](b, c, d)), w[j])
                if ks[r]:
                    t = add(t, const(ks[r]))
                t = add(rotl(t, SHIFT[r][j]), e)
                a, e, d, c, b = e, d, rotl(c, 10), b, t
        return a, b, c, d, e
    a, b, c, d, e = line(OL, KL, f)
    aa, bb, cc, dd, ee = line(OR, KR, f[::-1])
    return (add(add(h[1], c), dd), add(add(h[2], d), ee), add(add(h[3], e), aa), add(add(h[4], a), bb), add(add(h[0], b), cc))


PY = (lambda a, b: a + b & M32, lambda a, b: a ^ b, lambda a, b: a | b, lambda a, b: a & b, lambda a: ~a & M32,
      lambda a, n: (a << n | a >> (32 - n)) & M32, lambda k: k)
Z3 = (lambda a, b: a + b, lambda a, b: a ^ b, lambda a, b: a | b, lambda a, b: a & b, lambda a: ~a,
      lambda a, n: z3.RotateLeft(a, n), lambda k: z3.BitVecVal(k, 32))


def py_hash(m):
    n = len(m)
    m = m + b"\x80" + bytes((55 - n) % 64) + (8 * n).to_bytes(8, "little")
    h = IV
    for i in range(0, len(m), 64):
        h = compress(h, [int.from_bytes(m[i + 4 * j:i + 4 * j + 4], "little") for j in range(16)], PY)
    return b"".join(x.to_bytes(4, "little") for x in h)


# published vectors: the definition above is RIPEMD-160
assert py_hash(b"").hex() == "9c1185a5c5e9fc54612808977ee8f548b2258d31"
assert py_hash(b"abc").hex() == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"
assert py_hash(b"1234567890" * 8).hex() == "9b752e45573d4b39f4dbd3323cab82bf63326bfb"


# ---------------------------------------------------------------- the state of a digest

def H(E, A, k):
    """chaining state after k blocks of the message A (its definition: H(A,0) = IV, H(A,k+1) = compress(H(A,k), block k))"""
    return [E.uf("rmdH%d" % i, (A, E.D.sz(k)), z3.BitVecSort(32)) for i in range(5)]


def step(E, A, k, off):
    """H(A, k+1) written out; off: byte offset of block k"""
    D = E.D
    w = [z3.Concat(*[D.byte(D.select(A, D.add(off, 4 * j + b))) for b in (3, 2, 1, 0)]) for j in range(16)]
    return list(compress(H(E, A, k), w, Z3))


def layout(E):
    """positions of chaining state, buffer, fill and total in the digest struct, by type"""
    ty = E.P.byname.get(MOD + "ripemd160.digest")
    if ty is None:
        raise Unsupported("no digest type")
    pos = {}
    for i, (n, t, _) in enumerate(E.P.fields(ty)):
        k = E.P.kind(t)
        if k == "array":
            key = "s" if E.P.elem(t).width == 32 else "x"
        elif k == "int":
            key = "tc" if not t.signed else "nx"
        else:
            key = "?"
        if key in pos or key == "?":
            raise Unsupported("digest layout")
        pos[key] = i
    if len(pos) != 4:
        raise Unsupported("digest layout")
    return ty, pos


def pack(pos, **kw):
    v = [None] * 4
    for k, i in pos.items():
        v[i] = kw[k]
    return StructV(v)


def q64(E, t):
    return E.D.fold(E.D.sz(t) & ~63)


def r64(E, t):
    return E.D.fold(E.D.sz(t) & 63)


def blk(E, t):
    return E.D.fold(z3.LShR(E.D.sz(t), 6))


class Absorbed:
    """a digest that has absorbed the first T bytes of the message A: chaining state of the full blocks, the rest buffered"""

    def __init__(self, A, T):
        self.A, self.T = A, T

    def inst(self, E, st):
        ty, pos = layout(E)
        D = E.D
        nx = r64(E, self.T)
        xr = E.fresh_arr("rmdx")
        x = E.cat(Rope((View(ArrSrc(self.A), q64(E, self.T), nx),)), Rope((View(ArrSrc(xr), nx, D.sub(64, nx)),)))
        return pack(pos, s=lit(H(E, self.A, blk(E, self.T))), x=x, nx=nx, tc=self.T)

    def check(self, G, st, got, label):
        E, D = G.E, G.E.D
        _, pos = layout(E)
        got = E.mat(st, got)
        nx = r64(E, self.T)
        G.add(st, D.eq(got.vals[pos["tc"]], self.T), label + ": bytes absorbed")
        G.add(st, D.eq(got.vals[pos["nx"]], nx), label + ": bytes buffered")
        G.rope_eq(st, got.vals[pos["s"]], lit(H(E, self.A, blk(E, self.T))), label + ": chaining state")
        for s, r in E.rope_slice(st, E.mat(st, got.vals[pos["x"]]), 0, nx):
            G.rope_eq(s, r, Rope((View(ArrSrc(self.A), q64(E, self.T), nx),)), label + ": buffered bytes")


def holds(E, st, chk, v):
    """a check as conditions (for preconditions at call sites)"""
    g = Goals(E)
    try:
        chk.check(g, st, v, "")
    except Unsupported:
        return False
    return all(x is True or (E.proves(s, x) if not isb(x) else E.pr.check(s, True) == z3.unsat) for s, x, _ in g.items)


def message(E, st):
    A = st.ghost.get("MSG")
    if A is None:
        raise Unsupported("RIPEMD-160 outside its contracts")
    return A


def new_message(E, st):
    st.ghost["MSG"] = A = z3.Const("MSG", E.arrsort())
    return A


def counter(E, st, n, lim=1 << 60):
    t = E.D.fresh(n, E.P.INT)
    st.assume(E.D.le(0, t))
    st.assume(E.D.le(t, lim))
    return t


def in_slice(E, st, rope, tag):
    n = E.rlen(rope)
    return SliceV(PtrV(E.new(st, "cell", None, rope, pre=True, tag=tag)), 0, n, n)


def content1(E, st, v):
    rs = E.content(st, v)
    if len(rs) != 1:
        raise Unsupported("content forks")
    return rs[0][1]


# ---------------------------------------------------------------- blocks

def block_setup(E, st, fn):
    A = new_message(E, st)
    ty, pos = layout(E)
    j0 = counter(E, st, "j0", 1 << 54)
    n = counter(E, st, "n", 1 << 40)
    st.ghost["J0"], st.ghost["N"] = j0, n
    v = [E.opq(st, t, "md." + f) for f, t, _ in E.P.fields(ty)]
    v[pos["s"]] = lit(H(E, A, j0))
    md = PtrV(E.new(st, "cell", ty, StructV(v), pre=True, tag="md"))
    return [md, in_slice(E, st, Rope((View(ArrSrc(A), E.D.mul(64, j0), n),)), "p")]


def block_at(E, st, a):
    """(A, first block, length) when the data are whole blocks of the message continuing the chaining state"""
    A = message(E, st)
    r = content1(E, st, a[1])
    n = E.rlen(r)
    v = next((g for g in r.segs if isinstance(g, View) and isinstance(g.src, ArrSrc) and g.src.arr.eq(A)), None)
    return A, v.off if v is not None else None, n, r


def block_spec(E, st, a):
    D = E.D
    _, pos = layout(E)
    A, off, n, r = block_at(E, st, a)
    out = []
    for s, few in E.split(st, D.lt(n, 64)):
        if few:
            out.append(Out(s, (0,)))
            continue
        md = E.mat(s, E.load(s, a[0])[0][1])
        if off is None or not rope_same(E, s, r, Rope((View(ArrSrc(A), off, n),))):
            raise Unsupported("blocks that are not part of the message")
        j0 = blk(E, off)
        if not E.proves(s, D.eq(D.mul(64, j0), off)) or not rope_same(E, s, E.mat(s, md.vals[pos["s"]]), lit(H(E, A, j0))):
            raise Unsupported("blocks out of step with the chaining state")
        v = list(md.vals)
        v[pos["s"]] = lit(H(E, A, D.add(j0, blk(E, n))))
        out.append(Out(s, (q64(E, n),), post={0: StructV(v)}))
    return out


def block_inv(E, S, a):
    D = E.D
    A = S.st.ghost.get("MSG")
    j0 = S.st.ghost.get("J0")
    if A is None or j0 is None:
        return None
    K1 = D.add(S.K, 1)

    def state(k, ty):
        if not isinstance(k, int) and same(k, K1):
            return lit(step(E, A, D.add(j0, S.K), D.add(D.mul(64, j0), D.mul(64, S.K))))
        return lit(H(E, A, D.add(j0, k)))
    return Cand(rope=[state], scratch=True, preds=[lambda k: D.le(k, blk(E, S.st.ghost["N"]))])


Contract("ripemd160._Block", setup=block_setup, spec=block_spec, cands=block_inv, hooks=dict(sweep=True, raw=32), doc="each full 64-byte block is compressed into the chaining state; the rest is left")


# ---------------------------------------------------------------- writing

def write_setup(E, st, fn):
    A = new_message(E, st)
    T = counter(E, st, "T")
    n = counter(E, st, "n", 1 << 40)
    ty, _ = layout(E)
    d = PtrV(E.new(st, "cell", ty, Absorbed(A, T).inst(E, st), pre=True, tag="d"))
    return [d, in_slice(E, st, Rope((View(ArrSrc(A), T, n),)), "p")]


def write_spec(E, st, a):
    D = E.D
    A = message(E, st)
    _, pos = layout(E)
    d = E.mat(st, E.load(st, a[0])[0][1])
    T = d.vals[pos["tc"]]
    out = []
    for s, r in E.content(st, a[1]):
        n = E.rlen(r)
        if not holds(E, s, Absorbed(A, T), d) or not rope_same(E, s, r, Rope((View(ArrSrc(A), T, n),))):
            E.require(s, False, "precondition of Write: the data are the next part of the padded message", None, None)
            continue
        out.append(Out(s, (n, NIL), post={0: Absorbed(A, D.add(T, n))}))
    return out


def write_inv(E, S, a):
    """while the buffer is filled: it holds the message up to here"""
    D = E.D
    A = S.st.ghost.get("MSG")
    _, pos = layout(E)

    def buf(k, ty):
        d = E.mat(S.st, E.load(S.st, a[0])[0][1])
        x = d.vals[pos["x"]]
        v = [g for g in x.segs]
        if not v or not all(isinstance(g, View) for g in v):
            return Rope()
        nx = v[0].n
        return E.cat(Rope((View(v[0].src, v[0].off, D.add(nx, k)),)), Rope((View(v[-1].src, D.add(v[-1].off, k), D.sub(v[-1].n, k)),)))
    return Cand(rope=[buf])


Contract("(*ripemd160.digest).Write", setup=write_setup, spec=write_spec, cands=write_inv, doc="afterwards the digest has absorbed the data as well; never an error")


# ---------------------------------------------------------------- sum

def sum_setup(E, st, fn):
    D = E.D
    A = new_message(E, st)
    T = counter(E, st, "T", 1 << 58)
    ty, _ = layout(E)
    d = PtrV(E.new(st, "cell", ty, Absorbed(A, T).inst(E, st), pre=True, tag="d"))
    # the message is followed by its padding (bytes from T on are not part of what was absorbed)
    pad = padlen(E, T)
    at = lambda i: D.byte(D.select(A, D.add(T, i)))
    st.assume(at(0) == 0x80)
    for i in range(1, 64):
        st.assume(z3.Implies(zb(D.lt(i, pad)), at(i) == 0))
    for i in range(8):
        st.assume(at(D.add(pad, i)) == z3.Extract(7, 0, z3.LShR(D.sz(T) << 3, 8 * i)))
    return [d, E.opq(st, fn.params[1][1], "in")]


def padlen(E, T):
    r = E.D.sz(r64(E, T))
    return E.D.fold(z3.If(z3.ULT(r, z3.BitVecVal(56, 64)), 56 - r, 120 - r))


def sum_spec(E, st, a):
    D = E.D
    A = message(E, st)
    _, pos = layout(E)
    d = E.mat(st, E.load(st, a[0])[0][1])
    T = d.vals[pos["tc"]]
    nb = blk(E, D.add(D.add(T, padlen(E, T)), 8))
    bs = []
    for h in H(E, A, nb):
        bs += [D.fold(z3.Extract(8 * i + 7, 8 * i, h)) for i in range(4)]
    out = []
    for s, r in E.content(st, a[1]):
        out.append(Out(s, (E.cat(r, lit(bs)),)))
    return out


Contract("(*ripemd160.digest).Sum", setup=sum_setup, spec=sum_spec, noapply=True, spare=(1,),
         doc="the given slice followed by the final chaining state of message, padding and length; the digest is unchanged")


# ---------------------------------------------------------------- new, reset, sizes

def iv_fact(E, st):
    A = new_message(E, st)
    for h, v in zip(H(E, A, 0), IV):
        st.assume(h == z3.BitVecVal(v, 32))
    return A


def reset_setup(E, st, fn):
    iv_fact(E, st)
    ty, _ = layout(E)
    return [PtrV(E.new(st, "cell", ty, E.opq(st, ty, "d"), pre=True, tag="d"))]


Contract("(*ripemd160.digest).Reset", setup=reset_setup, spec=lambda E, st, a: [Out(st, (), post={0: Absorbed(message(E, st), 0)})], noapply=True,
         doc="afterwards the digest has absorbed nothing")


class NewDigest:
    def __init__(self, A):
        self.A = A

    def check(self, G, st, got, label):
        E = G.E
        if not isinstance(got, IfaceV) or not isinstance(got.val, PtrV) or got.ty.s != "*" + MOD + "ripemd160.digest":
            return G.add(st, False, label + ": a digest")
        Absorbed(self.A, 0).check(G, st, E.load(st, got.val)[0][1], label)


def new_setup(E, st, fn):
    iv_fact(E, st)
    return []


Contract("ripemd160.New", setup=new_setup, spec=lambda E, st, a: [Out(st, (NewDigest(message(E, st)),))], noapply=True, doc="a digest that has absorbed nothing")
for _n, _v in (("Size", 20), ("BlockSize", 64)):
    Contract("(*ripemd160.digest).%s" % _n, setup=reset_setup, spec=(lambda v: lambda E, st, a: [Out(st, (v,))])(_v), noapply=True, doc="%d" % _v)
