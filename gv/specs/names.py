"""Contracts: account names (C09) and symbols (C10)."""
from ..contract import *
from ..spec import *

U64 = lambda x: z3.BitVecVal(x, 64) if isinstance(x, int) else x


def B8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def alpha(d):
    """character of the 5-bit digit d (a byte term)"""
    return z3.If(d == 0, B8(ord(".")), z3.If(z3.ULT(d, 6), d + (ord("1") - 1), d + (ord("a") - 6)))


def digit(c):
    """5-bit digit of a character of the alphabet"""
    return z3.If(c == ord("."), B8(0), z3.If(z3.ULT(c, ord("a")), c - (ord("1") - 1), c - (ord("a") - 6)))


def isalpha(c):
    return z3.Or(c == ord("."), z3.And(z3.UGE(c, ord("1")), z3.ULE(c, ord("5"))), z3.And(z3.UGE(c, ord("a")), z3.ULE(c, ord("z"))))


def ndigit(v, k):
    """k-th base-32 digit of a name, most significant first; the 13th has four bits"""
    if k == 12:
        return z3.simplify(z3.ZeroExt(4, z3.Extract(3, 0, v)))
    return z3.simplify(z3.ZeroExt(3, z3.Extract(63 - 5 * k, 59 - 5 * k, v)))


def name_texts(v):
    """[(condition, byte list)]: the text of name v, by length"""
    v = U64(v)
    d = [ndigit(v, k) for k in range(13)]
    out = []
    for L in range(13, -1, -1):
        c = [d[k] == 0 for k in range(L, 13)]
        if L:
            c.append(d[L - 1] != 0)
        out.append((z3.And(*c) if c else z3.BoolVal(True), [alpha(d[k]) for k in range(L)]))
    return out


def name_value(bs):
    """(canonical, value) of a text of at most 13 bytes"""
    bs = [B8(b) for b in bs]
    ok = [isalpha(b) for b in bs]
    if len(bs) == 13:
        ok.append(z3.ULT(digit(bs[12]), 16))
    if bs:
        ok.append(bs[-1] != ord("."))
    v = U64(0)
    for k, b in enumerate(bs):
        x = z3.ZeroExt(56, digit(b))
        v = v | (x << (59 - 5 * k) if k < 12 else x)
    return (z3.And(*ok) if ok else True), v


def out_bytes(E, st, conds):
    """outcomes returning one of several literal texts"""
    outs = []
    for c, bs in conds:
        s = st.fork()
        s.assume(norm_bool(c))
        outs.append((s, lit([E.D.fold(b) if not isinstance(b, int) else b for b in bs])))
    return outs


def text_spec(arg, texts, err=False):
    def f(E, st, a):
        v = a[arg]
        return [Out(s, (r, NIL) if err else (r,)) for s, r in out_bytes(E, st, texts(v))]
    return f


Contract("(chain.Name).String", spec=text_spec(0, name_texts), unroll=20, doc="base-32 text of the 64 bits, trailing dots dropped")
Contract("(chain.Name).MarshalText", spec=text_spec(0, name_texts, True), unroll=20, doc="the name's text")


def seq_in(E, st, v):
    r = spec.seq_of(E, st, v)
    assert len(r) == 1
    return r[0][1]


def by_len(E, st, r, hi):
    """[(st, n, bytes or None)] for n = 0..hi and None for longer"""
    n = E.rlen(r)
    out = []
    for k in range(hi + 1):
        s = st.fork()
        c = E.D.eq(n, k)
        if c is False:
            continue
        s.assume(c)
        if E.pr.check(s, True) == z3.unsat:
            continue
        bs = [E.rope_at(s, r, i, E.P.BYTE)[0][1] for i in range(k)]
        out.append((s, k, bs))
    s = st.fork()
    s.assume(E.D.lt(hi, n))
    if E.pr.check(s, True) != z3.unsat:
        out.append((s, None, None))
    return out


def name_parse(arg, res):
    def f(E, st, a):
        outs = []
        for s, n, bs in by_len(E, st, seq_in(E, st, a[arg]), 13):
            if n is None:
                outs.append(res(s, ANY))
                continue
            ok, v = name_value(bs)
            s1 = s.fork()
            s1.assume(norm_bool(ok))
            outs.append(res(s1, E.D.fold(v)))
            s.assume(bnot(norm_bool(ok)))
            outs.append(res(s, ANY))
        return outs
    return f


for n in ("NewName", "N"):
    Contract("chain." + n, spec=name_parse(0, lambda s, v: Out(s, (v,))), unroll=20, doc="value of a canonical name text")
Contract("(*chain.Name).UnmarshalText", spec=name_parse(1, lambda s, v: Out(s, (NIL if v is not ANY else ANY,), post={0: v})), unroll=20,
         doc="value of a canonical name text")


def lemmas(P):
    """over the specifications: parsing the text gives the value back; order"""
    out = []
    v, w = z3.BitVecs("v w", 64)
    s = z3.Solver()
    for c, bs in name_texts(v):
        ok, x = name_value(bs)
        s.push()
        s.add(c, z3.Not(z3.And(zb(ok), x == v)))
        out.append(("a name's text (%d characters) is canonical and parses to the name" % len(bs), "proved" if s.check() == z3.unsat else "refuted", "z3"))
        s.pop()
    bs = [z3.BitVec("c%d" % i, 8) for i in range(13)]
    for L in range(14):
        ok, x = name_value(bs[:L])
        for c, t in name_texts(x):
            s.push()
            s.add(zb(ok), c)
            s.add(z3.BoolVal(True) if len(t) != L else z3.Or(*[a != b for a, b in zip(t, bs)]))
            r = s.check()
            s.pop()
            if r != z3.unsat:
                out.append(("canonical text of %d characters formats to itself" % L, "refuted", "z3"))
                break
        else:
            out.append(("canonical text of %d characters formats to itself" % L, "proved", "z3"))
    lt = z3.BoolVal(False)
    for k in reversed(range(13)):
        a, b = ndigit(v, k), ndigit(w, k)
        lt = z3.Or(z3.ULT(a, b), z3.And(a == b, lt))
    s.add(z3.ULT(v, w) != lt)
    out.append(("numeric order is the base-32 lexicographic order", "proved" if s.check() == z3.unsat else "refuted", "z3"))
    return out


# ---------------------------------------------------------------- symbols

from .. import textm as tx


def upper(c):
    c = B8(c)
    return z3.And(z3.UGE(c, ord("A")), z3.ULE(c, ord("Z")))


def pack(prec, bs):
    """symbol value of a precision (byte term) and code bytes"""
    v = z3.ZeroExt(56, B8(prec))
    for i, b in enumerate(bs):
        v = v | (z3.ZeroExt(56, B8(b)) << (8 * (i + 1)))
    return z3.simplify(v)


def new_symbol(E, st, prec, r, res, mayerr=False):
    """outcomes of making a symbol of a precision byte and a code text"""
    outs = []
    for s, n, bs in by_len(E, st, r, 7):
        if n is None:
            outs.append(res(s, None, False))
            continue
        if E.D.name == "int":
            ok = band(E.D.le(prec, 18), *[band(E.D.le(65, b), E.D.le(b, 90)) for b in bs])
            v = E.D.sz(prec)
            for i, b in enumerate(bs):
                v = v + E.D.sz(b) * (1 << (8 * (i + 1)))
            v = E.D.fold(v)
        else:
            ok = norm_bool(z3.And(z3.ULE(B8(prec), 18), *[upper(b) for b in bs]))
            v = E.D.fold(pack(prec, bs))
        for s1, o in E.split(s, ok):
            outs.append(res(s1, v, mayerr) if o else res(s1, None, False))
    return outs


def r_val(s, v, m):
    return Out(s, (v, NIL), mayerr=m) if v is not None else Out(s, (ANY, ANYERR))


def r_ptr(s, v, m):
    return Out(s, (NIL,), post={0: v}, mayerr=m) if v is not None else Out(s, (ANYERR,))


Contract("chain.NewSymbol", spec=lambda E, st, a: new_symbol(E, st, a[0], seq_in(E, st, a[1]), r_val), doc="packs precision 0..18 and up to seven capitals, else an error", anymode=True)


def symbol_text(res):
    def f(E, st, a, r):
        outs = []
        for s, parts in tx.seps(E, st, r, ord(",")):
            if parts is None or len(parts) != 2:
                outs.append(res(s, None, False))
                continue
            for s1, neg, digs in tx.signed_parts(E, s, parts[0]):
                if digs is None:
                    outs.append(res(s1, None, False))
                    continue
                ok, big, val = tx.alldigits(E, s1, digs)
                rng = band(ok, bnot(big), E.D.cmp("<=", val, 18, E.P.U64), bor(not neg, E.D.cmp("==", val, 0, E.P.U64)))
                for s2, o in E.split(s1, rng):
                    if not o:
                        outs.append(res(s2, None, False))
                        continue
                    # canonical digits must be accepted; a sign or leading zeros may be
                    n = E.rlen(parts[0])
                    c0 = E.rope_at(s2, parts[0], 0, E.P.BYTE)[0][1]
                    canon = band(tx.isdigit(E, c0), bor(E.D.eq(n, 1), bnot(tx.bcmp(E, "==", c0, 48))))
                    prec = E.D.convert(val, E.P.U64, E.P.BYTE)
                    for s3, c in E.split(s2, canon):
                        outs += new_symbol(E, s3, prec, parts[1], res, mayerr=not c)
        return outs
    return f


def sym_parse(i, res):
    g = symbol_text(res)
    return lambda E, st, a: g(E, st, a, seq_in(E, st, a[i]))


Contract("chain.NewSymbolFromString", spec=sym_parse(0, r_val), doc="precision, one comma, code; else an error")
Contract("(*chain.Symbol).UnmarshalText", spec=sym_parse(1, r_ptr), doc="precision, one comma, code; else an error and the destination unchanged")


def code_parse(E, st, a):
    outs = []
    for o in new_symbol(E, st, 0, seq_in(E, st, a[1]), r_ptr):
        if o.post:
            o.post = {0: E.D.binop(">>", o.post[0], 8, E.P.U64, E.P.U64)}
        outs.append(o)
    return outs


Contract("(*chain.SymbolCode).UnmarshalText", spec=code_parse, doc="up to seven capitals; else an error and the destination unchanged")


def codes(v):
    """[(condition, code bytes)] for the valid 56-bit codes, [(rest, None)]"""
    v = U64(v)
    b = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(8)]
    out = []
    for L in range(8):
        c = z3.And(*([upper(x) for x in b[:L]] + [x == 0 for x in b[L:]]))
        out.append((c, b[:L]))
    out.append((z3.Not(z3.Or(*[c for c, _ in out])), None))
    return out


def sym_out(shift, prefix, tail=()):
    def f(E, st, a):
        v = U64(a[0])
        w = z3.LShR(v, shift) if shift else v
        outs = []
        for c, bs in codes(w):
            s = st.fork()
            s.assume(norm_bool(c))
            if bs is None:
                outs.append(Out(s, (ANY,) + ((ANY,) if tail else ())))
                continue
            r = lit(bs)
            if prefix:
                p = E.D.fold(v & 0xFF)
                s2 = s.fork()
                s2.assume(z3.UGT(U64(p), 18))
                outs.append(Out(s2, (ANY,) + ((ANY,) if tail else ())))
                s.assume(z3.ULE(U64(p), 18))
                r = E.cat(tx.dec(E, p, E.P.INT), lit(b","), r)
            outs.append(Out(s, (r,) + tail))
        return outs
    return f


Contract("(chain.Symbol).Name", spec=sym_out(8, False), doc="the code's characters")
Contract("(chain.Symbol).String", spec=sym_out(8, True), doc="precision, comma, code")
Contract("(chain.Symbol).MarshalText", spec=sym_out(8, True, (NIL,)), doc="precision, comma, code")
Contract("(chain.SymbolCode).MarshalText", spec=sym_out(0, False, (NIL,)), doc="the code's characters")
Contract("(chain.Symbol).Code", spec=lambda E, st, a: [Out(st, (E.D.binop(">>", a[0], 8, E.P.U64, E.P.U64),))], doc="the upper 56 bits")
Contract("(chain.Symbol).Decimals", spec=lambda E, st, a: [Out(st, (E.D.binop("&", a[0], 0xFF, E.P.U64),))], doc="the low byte")


def precision(E, st, a):
    outs = []
    for k in range(19):
        s = st.fork()
        s.assume(z3.Extract(7, 0, U64(a[0])) == k)
        outs.append(Out(s, (10 ** k,)))
    return outs


Contract("(chain.Symbol).Precision", spec=precision, requires=lambda E, st, a: [z3.ULE(z3.Extract(7, 0, U64(a[0])), 18)], unroll=30, noapply=True,
         doc="10^decimals up to 18 decimals")


def sym_lemmas(P):
    out = []
    v = z3.BitVec("v", 64)
    p = z3.BitVec("p", 8)
    bs = [z3.BitVec("c%d" % i, 8) for i in range(7)]
    s = z3.Solver()
    for L in range(8):
        x = pack(p, bs[:L])
        s.push()
        s.add(z3.ULE(p, 18), *[upper(b) for b in bs[:L]])
        good = []
        for c, t in codes(z3.LShR(x, 8)):
            if t is not None and len(t) == L:
                good.append(z3.And(c, *[a == b for a, b in zip(t, bs)]))
        s.add(z3.Not(z3.And(z3.Or(*good), z3.Extract(7, 0, x) == p)))
        out.append(("a symbol of %d characters gives its precision and code back" % L, "proved" if s.check() == z3.unsat else "refuted", "z3"))
        s.pop()
    return out
