"""Contracts: JSON integers (C20), hex and base64 text (C14), digests (C19)."""
from ..contract import *
from ..spec import *
from .. import textm as tx
from .names import seq_in, U64, B8


# ---------------------------------------------------------------- C20

def json_out(ty):
    def f(E, st, a):
        v = a[0]
        w = E.D.convert(v, E.P.under(E.P.byname[MOD + "chain." + ty]), E.P.U64)
        d = tx.dec(E, v, E.P.under(E.P.byname[MOD + "chain." + ty]))
        outs = []
        for s, big in E.split(st, E.D.cmp(">", w, 0xFFFFFFFF, E.P.U64)):
            outs.append(Out(s, (E.cat(lit(b'"'), d, lit(b'"')) if big else d, NIL)))
        return outs
    return f


def json_in(ty, bits):
    def f(E, st, a):
        D = E.D
        r = seq_in(E, st, a[1])
        n = E.rlen(r)
        outs = []
        cases = []
        for s, two in E.split(st, D.le(2, n)):
            if not two:
                cases.append((s, r))
                continue
            c0 = E.rope_at(s, r, 0, E.P.BYTE)[0][1]
            c1 = E.rope_at(s, r, D.sub(n, 1), E.P.BYTE)[0][1]
            for s2, q in E.split(s, band(tx.bcmp(E, "==", c0, 34), tx.bcmp(E, "==", c1, 34))):
                cases.append((s2, tx.sub(E, s2, r, 1, D.sub(n, 1)) if q else r))
        for s, t in cases:
            ok, big, val = tx.alldigits(E, s, t)
            good = band(ok, bnot(big), D.cmp("<=", val, (1 << bits) - 1, E.P.U64))
            for s1, g in E.split(s, good):
                if not g:
                    outs.append(Out(s1, (ANYERR,)))
                    continue
                # leading zeros may be refused
                c0 = E.rope_at(s1, t, 0, E.P.BYTE)[0][1]
                for s2, canon in E.split(s1, bor(D.eq(E.rlen(t), 1), bnot(tx.bcmp(E, "==", c0, 48)))):
                    outs.append(Out(s2, (NIL,), post={0: D.convert(val, E.P.U64, E.P.under(E.P.byname[MOD + "chain." + ty]))}, mayerr=not canon))
        return outs
    return f


for ty, bits in (("Uint64", 64), ("BlockNum", 32)):
    Contract("(chain.%s).MarshalJSON" % ty, spec=json_out(ty), doc="decimal digits, quoted exactly above 32 bits")
    Contract("(*chain.%s).UnmarshalJSON" % ty, spec=json_in(ty, bits), doc="decimal digits in range, quoted or not; else an error and the destination unchanged")


# ---------------------------------------------------------------- C14

def rope_of(E, st, v):
    """the bytes of a byte slice, array or 128-bit float"""
    v = E.mat(st, v)
    if isinstance(v, StructV):
        v = v.vals[0]
    return seq_in(E, st, v)


def hex_out(tail=()):
    return lambda E, st, a: [Out(st, (tx.hexenc(E, st, rope_of(E, st, a[0])),) + tail)]


def hex_in(n, wrap=lambda r: r):
    def f(E, st, a):
        r = seq_in(E, st, a[1])
        outs = []
        ok = tx.hexok(E, st, r)
        if n is not None:
            ok = band(ok, E.D.eq(E.rlen(r), 2 * n))
        for s, o in E.split(st, ok):
            if not o:
                outs.append(Out(s, (ANYERR,)))
                continue
            tx.hexok_univ(E, s, r)
            outs.append(Out(s, (NIL,), post={0: wrap(tx.hexdec(E, s, r))}))
        return outs
    return f


for ty, n in (("Bytes", None), ("Checksum160", 20), ("Checksum256", 32), ("Checksum512", 64), ("Float128", 16)):
    w = (lambda r: StructV((r,))) if ty == "Float128" else (lambda r: r)
    Contract("(chain.%s).MarshalText" % ty, spec=hex_out((NIL,)), doc="lower-case hex of exactly the bytes")
    Contract("(*chain.%s).UnmarshalText" % ty, spec=hex_in(n, w), doc="exactly the bytes of the hex text; anything else is an error and the destination unchanged")
for ty, m in (("Bytes", "Hex"), ("Checksum160", "String"), ("Checksum256", "String"), ("Checksum512", "String")):
    Contract("(chain.%s).%s" % (ty, m), spec=hex_out(), doc="lower-case hex of exactly the bytes")


def b64_out(tail=()):
    return lambda E, st, a: [Out(st, (tx.b64enc(E, st, seq_in(E, st, a[0])),) + tail)]


def b64_in(E, st, a):
    D = E.D
    r = seq_in(E, st, a[1])
    n = E.rlen(r)
    outs = []
    m = D.binop("&", n, 3, E.P.INT)
    for s, two in E.split(st, D.eq(m, 2)):
        for s2, three in E.split(s, D.eq(m, 3)) if not two else [(s, False)]:
            t = E.cat(r, lit(b"==" if two else b"=" if three else b""))
            ok, val = tx.b64(E, s2, t)
            for s3, o in E.split(s2, ok):
                outs.append(Out(s3, (NIL,), post={0: val}) if o else Out(s3, (ANYERR,)))
    return outs


Contract("(chain.Blob).Base64", spec=b64_out(), doc="base64 of exactly the bytes")
Contract("(chain.Blob).MarshalText", spec=b64_out((NIL,)), doc="base64 of exactly the bytes")
Contract("(*chain.Blob).UnmarshalText", spec=b64_in, doc="the bytes of the base64 text after completing its padding; else an error and the destination unchanged")
