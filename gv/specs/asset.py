"""Contracts: asset text (C11)."""
from ..contract import *
from ..spec import *
from .names import seq_in, codes, U64, new_symbol
from .. import textm as tx


def zeros(n):
    return Rope((View(ConstSrc(0x30), 0, n),))


def asset_text(E, st, v, tail=()):
    """sign, digits with the point `decimals` places from the right (zero-filled), space, code"""
    D = E.D
    I64 = E.P.byname["int64"]
    val, sym = v.vals
    d = D.fold(U64(sym) & 0xFF)
    outs = []
    for c, bs in codes(z3.LShR(U64(sym), 8)):
        s = st.fork()
        s.assume(norm_bool(c))
        if bs is None:
            outs.append(Out(s, (ANY,) * (1 + len(tail))))
            continue
        for s1, neg in E.split(s, D.cmp("<", val, 0, I64)):
            mag = D.binop("-", 0, val, E.P.U64) if neg else val
            dig = tx.dec(E, mag, E.P.U64)
            n = E.rlen(dig)
            for s2, short in E.split(s1, D.le(n, d)):
                full = E.cat(zeros(D.add(D.sub(d, n), 1)), dig) if short else dig
                for s3, point in E.split(s2, D.lt(0, d)):
                    ln = E.rlen(full)
                    forms = [(s3, full)]
                    if point:
                        forms = [(s4, E.cat(a, lit(b"."), b)) for s4, a, b in E.rope_split(s3, full, D.sub(ln, d))]
                    for s4, t in forms:
                        outs.append(Out(s4, (E.cat(lit(b"-") if neg else Rope(), t, lit(b" "), lit(bs)),) + tail))
    return outs


Contract("(*chain.Asset).String", spec=lambda E, st, a: asset_text(E, st, E.mat(st, E.load(st, a[0])[0][1])), doc="exact amount with the point placed by the precision, a space and the code")
Contract("(chain.Asset).MarshalText", spec=lambda E, st, a: asset_text(E, st, E.mat(st, a[0]), (NIL,)), doc="exact amount with the point placed by the precision, a space and the code")


# ---------------------------------------------------------------- parsing

def points(E, st, t):
    """(number of points, position of the first) in an amount text"""
    return tx.sepinfo(E, st, t, ord("."))


def nopoint(E, st, t):
    """the amount text without its first point (defined element by element)"""
    D = E.D
    cnt, f = points(E, st, t)
    k = tx.key(E, st, t)
    kk = ("nopoint", tuple(x.get_id() for x in k))
    nd = E.ufs.get(kk)
    if nd is None:
        nd = E.ufs[kk] = E.fresh_arr("nopoint")
        E.keep.append(k)
    has = norm_bool(zb(D.lt(0, cnt)))
    n = tx.norm_sz(E, k[2])

    def at(j):
        before = bor(bnot(has), D.lt(j, f))
        x = z3.If(zb(before), D.byte(tx.at(E, k, j)), D.byte(tx.at(E, k, D.add(j, 1))))
        return norm_bool(D.byte(D.select(nd, j)) == x)
    st.univ.append(Univ(lambda j: bimp(band(D.le(0, j), D.lt(j, n)), at(j)), "text without its point"))
    st.univ.append(Univ(lambda j: bimp(band(D.le(0, j), D.lt(j, n), tx.bcmp(E, "==", tx.at(E, k, j), 0x2E)), band(has, D.le(f, j))), "first point"))
    return Rope((View(ArrSrc(nd), 0, D.fold(D.sz(n) - z3.If(zb(has), D.sz(1), D.sz(0)))),)), nd, has, f, n


def amount(E, st, t):
    """[(st, value, decimals, may be refused)] of an amount text; value None: not an amount"""
    D = E.D
    U = E.P.U64
    out = []
    for s, pp in tx.seps(E, st, t, ord(".")):
        if pp is None:
            # a second point: where it is
            cnt, f = points(E, s, t)
            rest = tx.sub(E, s, t, D.add(f, 1), E.rlen(t))
            c2, f2 = points(E, s, rest)
            s.idx = s.idx + [f, D.add(D.add(f, 1), f2)]
            out.append((s, None, None, False))
            continue
        u, nd, has, f, n = nopoint(E, s, t)
        dp = E.rlen(pp[1]) if len(pp) == 2 else 0
        for s1, e in E.split(s, D.eq(E.rlen(u), 0)):
            if e:
                out.append((s1, None, None, False))
                continue
            for s2, neg in E.split(s1, tx.bcmp(E, "==", E.rope_at(s1, t, 0, E.P.BYTE)[0][1], 0x2D)):
                sg = 1 if neg else 0
                digs = tx.sub(E, s2, u, sg, E.rlen(u))
                ok, big, val = tx.alldigits(E, s2, digs)
                w = E.uf("decbad", tx.key(E, s2, digs), D.szsort())
                wp = D.add(w, sg)
                s2.idx = s2.idx + [0, sg, wp, D.fold(z3.If(zb(band(has, D.le(f, wp))), D.sz(D.add(wp, 1)), D.sz(wp)))]
                good = band(ok, bnot(big), D.cmp("<=", val, (1 << 63) - 1 + sg, U), D.le(dp, 18))
                for s3, g in E.split(s2, norm_bool(zb(ok))):
                    if not g:
                        out.append((s3, None, None, False))
                        continue
                    k = tx.key(E, s3, t)
                    s3.univ.append(Univ(lambda j: bimp(band(D.le(sg, j), D.lt(j, n), bnot(band(has, D.eq(j, f)))), tx.isdigit(E, tx.at(E, k, j))), "digits around the point"))
                    for s4, g in E.split(s3, norm_bool(zb(good))):
                        if not g:
                            out.append((s4, None, None, False))
                            continue
                        # a point without digits on one of its sides may be refused
                        odd = band(has, bor(D.eq(f, sg), D.eq(dp, 0)))
                        for s5, o in E.split(s4, norm_bool(zb(odd))):
                            out.append((s5, D.binop("-", 0, val, E.P.byname["int64"]) if neg else val, dp, o))
    return out


def asset_parse(i, res):
    def f(E, st, a):
        D = E.D
        outs = []
        for s, parts in tx.seps(E, st, seq_in(E, st, a[i]), 0x20):
            if parts is None or len(parts) != 2:
                outs.append(res(s, None, False))
                continue
            for s1, e in E.split(s, norm_bool(zb(bor(D.eq(E.rlen(parts[0]), 0), D.eq(E.rlen(parts[1]), 0))))):
                if e:
                    outs.append(res(s1, None, False))
                    continue
                for s2, v, dp, may in amount(E, s1, parts[0]):
                    if v is None:
                        outs.append(res(s2, None, False))
                        continue
                    prec = D.convert(dp, E.P.INT, E.P.BYTE)
                    outs += new_symbol(E, s2, prec, parts[1], lambda s, y, m: res(s, StructV((v, y)) if y is not None else None, m), mayerr=may)
        return outs
    return f


def invariant(E, S, a):
    """while reading the amount: digits so far are the text without its point; decimals are counted from the point"""
    from ..loops import Cand
    D = E.D
    r = a[0] if isinstance(a[0], Rope) else None
    if r is None:
        return None
    cnt, sp = tx.sepinfo(E, S.st, r, 0x20)
    t = tx.sub(E, S.st, r, 0, sp)
    u, nd, has, f, n = nopoint(E, S.st.fork(), t)
    found = lambda k: band(has, D.lt(f, k))
    conv = lambda v, ty: D.convert(v, E.P.INT, ty) if ty is not None and ty.width else v
    dec = lambda k, ty: D.ite(found(k), conv(D.sub(D.sub(k, f), 1), ty), 0, ty or E.P.INT) if not isb(found(k)) else conv(D.sub(D.sub(k, f), 1), ty) if found(k) else 0

    def text(k, ty):
        return Rope((View(ArrSrc(nd), 0, D.fold(D.sz(k) - z3.If(zb(found(k)), D.sz(1), D.sz(0)))),))
    return Cand(enter=lambda s: nopoint(E, s, t), bool=[lambda k, ty: found(k), lambda k, ty: bnot(found(k))], int=[dec], rope=[text],
                preds=[lambda k: D.le(k, n), lambda k: bimp(found(k), D.le(D.sub(D.sub(k, f), 1), 18))])


def r_val(s, v, m):
    return Out(s, (v, NIL), mayerr=m) if v is not None else Out(s, (ANY, ANYERR))


def r_dst(s, v, m):
    return Out(s, (NIL,), post={0: v}, mayerr=m) if v is not None else Out(s, (ANYERR,))


Contract("chain.NewAssetFromString", spec=asset_parse(0, r_val), mode="int", cands=invariant, doc="exact amount and symbol of the text; anything malformed or out of range is an error")
Contract("(*chain.Asset).UnmarshalText", spec=asset_parse(1, r_dst), mode="int", doc="as NewAssetFromString; on error the destination is unchanged")
Contract("chain.A", spec=asset_parse(0, lambda s, v, m: Out(s, anything=True) if m else Out(s, (v,)) if v is not None else Out(s, panics=True)), mode="int",
         doc="as NewAssetFromString, panics where that is an error")


def lemmas(P):
    """reading the digits (n / 10^k) mod 10 of n from the left, from any position where the rest is zero, gives n: v(k) = n / 10^k is the value read down to position k"""
    n, m = z3.Ints("n m")
    out = []

    def lem(name, *c):
        s = z3.Solver()
        s.add(n >= 0, n < 1 << 64)
        s.add(z3.Not(z3.And(*c)))
        out.append((name, "proved" if s.check() == z3.unsat else "refuted", "z3"))
    lem("decimal digits: nothing is read before the leading digit (and leading zeros add nothing)", n / 10 ** 20 == 0)
    for k in range(20):
        a, b = n / 10 ** (k + 1), n / 10 ** k
        lem("decimal digits: reading digit %d extends the value" % k, b == 10 * a + b % 10, b % 10 >= 0, b % 10 <= 9)
    lem("decimal digits: all digits give the number", n / 10 ** 0 == n)
    return out
