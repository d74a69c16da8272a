"""Contracts: digests (C19), checksummed base58 (C16), key and signature text (C17)."""
from ..contract import *
from ..spec import *
from ..cryptom import digest
from .names import seq_in
from .. import textm as tx

for bits, h in ((160, "ripemd160"), (256, "sha256"), (512, "sha512")):
    Contract("chain.Checksum%dDigest" % bits, spec=(lambda h: lambda E, st, a: [Out(st, (digest(h, seq_in(E, st, a[0])),))])(h),
             doc="%s of exactly the message" % h)


def action_digest(E, st, a):
    r = CODECS["action"].node(E, st, norm_seq(E, st, a[0]))
    return [Out(st, (digest("sha256", r),))]


Contract("(chain.Action).Digest", spec=action_digest, mode="int", doc="SHA-256 of exactly the action's binary form")


# ---------------------------------------------------------------- base58 as a function

def b58enc(E, st, r):
    """base58 text of a byte sequence (defined by C15)"""
    k = ("b58len", repr_key(r))
    ln = E.ufs.get(k)
    if ln is None:
        ln = E.ufs[k] = E.D.fresh(E.fresh_name("b58len"), E.P.INT)
        E.keep.append(r)
        E.D.facts += [zb(E.D.le(0, ln)), zb(E.D.le(ln, 1 << 42))]
    return Rope((App("base58", (r,), ln),))


def b58dec(E, st, r):
    """bytes of a base58 text: empty when it has a foreign character (defined by C15)"""
    if len(r.segs) == 1 and isinstance(r.segs[0], App) and r.segs[0].f == "base58":
        return r.segs[0].args[0]        # decoding inverts encoding
    k = tx.key(E, st, r)
    n = E.uf("b58dn", k, E.D.szsort())
    if tx.once(E, "b58dn", n):
        E.D.facts += [zb(E.D.le(0, n)), zb(E.D.le(n, 1 << 42))]
    return Rope((View(ArrSrc(E.uf("b58da", k, E.arrsort())), 0, n),))




def sum4(E, st, r, suffix=None):
    """the four checksum bytes of a payload"""
    if suffix is None:
        d = digest("sha256", digest("sha256", r))
    else:
        d = digest("ripemd160", E.cat(r, suffix))
    return E.rope_slice(st, d, 0, 4)[0][1]


def suffixes(E, st, suffix):
    """[(st, suffix)], the empty one apart"""
    if suffix is None:
        return [(st, None)]
    return [(s, Rope() if z else suffix) for s, z in E.split(st, E.D.eq(E.rlen(suffix), 0))]


def check_enc(E, st, a, eos):
    r = seq_in(E, st, a[0])
    return [Out(s, (b58enc(E, s, E.cat(r, sum4(E, s, r, x))),)) for s, x in suffixes(E, st, a[1] if eos else None)]


def check_parts(E, st, text, suffix=None):
    """[(st, payload or None)]"""
    D = E.D
    d = b58dec(E, st, text)
    n = E.rlen(d)
    out = []
    for s, long, suffix in [(s1, l, x) for s0, x in suffixes(E, st, suffix) for s1, l in E.split(s0, D.le(4, n))]:
        if not long:
            out.append((s, None))
            continue
        m = D.sub(n, 4)
        p = tx.sub(E, s, d, 0, m)
        c = tx.sub(E, s, d, m, n)
        want = sum4(E, s, p, suffix)
        eq = band(*[tx.bcmp(E, "==", E.rope_at(s, c, i, E.P.BYTE)[0][1], E.rope_at(s, want, i, E.P.BYTE)[0][1]) for i in range(4)])
        for s1, o in E.split(s, norm_bool(zb(eq))):
            out.append((s1, p if o else None))
    return out


def check_dec(E, st, a, eos):
    return [Out(s, (p, NIL) if p is not None else (ANY, ANYERR)) for s, p in check_parts(E, st, seq_in(E, st, a[0]), a[1] if eos else None)]


Contract("base58.CheckEncode", spec=lambda E, st, a: check_enc(E, st, a, False), doc="base58 of payload and first four bytes of its double SHA-256")
Contract("base58.CheckEncodeEosio", spec=lambda E, st, a: check_enc(E, st, a, True), doc="base58 of payload and first four bytes of RIPEMD-160 of payload and suffix")
Contract("base58.CheckDecode", spec=lambda E, st, a: check_dec(E, st, a, False), doc="the payload when the checksum matches, else an error")
Contract("base58.CheckDecodeEosio", spec=lambda E, st, a: check_dec(E, st, a, True), doc="the payload when the checksum matches, else an error")


# ---------------------------------------------------------------- key and signature text

TAGS = {b"K1": 0, b"P1": 1, b"WA": 2}


def chars(E, st, r, lo, text):
    """condition: the text has these bytes at position lo"""
    return band(*[tx.bcmp(E, "==", E.rope_at(st, r, lo + i, E.P.BYTE)[0][1], c) for i, c in enumerate(text)])


def tagged(E, st, r, prefix, res):
    """prefix, two-character tag, underscore, checked data"""
    outs = []
    n = E.rlen(r)
    ok = band(chars(E, st, r, 0, prefix), chars(E, st, r, 6, b"_"))
    for s, good in E.split(st, norm_bool(zb(ok))):
        if not good:
            outs.append(res(s, None, None))
            continue
        rest = [s]
        for tag, t in TAGS.items():
            nxt = []
            for s1 in rest:
                for s2, m in E.split(s1, norm_bool(zb(chars(E, s1, r, 4, tag)))):
                    if not m:
                        nxt.append(s2)
                        continue
                    for s3, p in check_parts(E, s2, tx.sub(E, s2, r, 7, n), lit(tag)):
                        outs.append(res(s3, t if p is not None else None, p))
            rest = nxt
        outs += [res(s1, None, None) for s1 in rest]
    return outs


def pub_parse(E, st, r, res):
    D = E.D
    n = E.rlen(r)
    outs = []
    for s, long in E.split(st, D.le(7, n)):
        if not long:
            outs.append(res(s, None, None))
            continue
        for s1, new in E.split(s, norm_bool(zb(chars(E, s, r, 0, b"PUB_")))):
            if new:
                outs += tagged(E, s1, r, b"PUB_", res)
                continue
            for s2, l50 in E.split(s1, D.le(50, n)):
                if not l50:
                    outs.append(res(s2, None, None))
                    continue
                for s3, p in check_parts(E, s2, tx.sub(E, s2, r, D.sub(n, 50), n), Rope()):
                    outs.append(res(s3, 0 if p is not None else None, p))
    return outs


def sig_parse(E, st, r, res):
    outs = []
    for s, long in E.split(st, E.D.le(7, E.rlen(r))):
        outs += tagged(E, s, r, b"SIG_", res) if long else [res(s, None, None)]
    return outs


def r_new(s, t, p):
    return Out(s, (StructV((t, p)), NIL)) if t is not None else Out(s, (ANY, ANYERR))


def r_dst(s, t, p):
    return Out(s, (NIL,), post={0: StructV((t, p))}) if t is not None else Out(s, (ANYERR,))


Contract("chain.NewPublicKeyFromString", spec=lambda E, st, a: pub_parse(E, st, seq_in(E, st, a[0]), r_new), doc="tagged or legacy key text with a matching checksum, else an error")
Contract("(*chain.PublicKey).UnmarshalText", spec=lambda E, st, a: pub_parse(E, st, seq_in(E, st, a[1]), r_dst), doc="as NewPublicKeyFromString; on error the destination is unchanged")
Contract("chain.NewSignatureString", spec=lambda E, st, a: sig_parse(E, st, seq_in(E, st, a[0]), r_new), doc="tagged signature text with a matching checksum, else an error")
Contract("(*chain.Signature).UnmarshalText", spec=lambda E, st, a: sig_parse(E, st, seq_in(E, st, a[1]), r_dst), doc="as NewSignatureString; on error the destination is unchanged")


def key_text(prefix, ptr, tail=()):
    def f(E, st, a):
        v = E.mat(st, E.load(st, a[0])[0][1] if ptr else a[0])
        outs = []
        rest = [st]
        for tag, t in TAGS.items():
            nxt = []
            for s in rest:
                for s1, m in E.split(s, tx.bcmp(E, "==", v.vals[0], t)):
                    if not m:
                        nxt.append(s1)
                        continue
                    r = seq_in(E, s1, v.vals[1])
                    d = b58enc(E, s1, E.cat(r, sum4(E, s1, r, lit(tag))))
                    outs.append(Out(s1, (E.cat(lit(prefix + tag + b"_"), d),) + tail))
            rest = nxt
        return outs + [Out(s, (ANY,) * (1 + len(tail))) for s in rest]
    return f


for ty, pre in (("PublicKey", b"PUB_"), ("Signature", b"SIG_")):
    Contract("(*chain.%s).String" % ty, spec=key_text(pre, True), doc="prefix, tag and checked base58 of the data")
    Contract("(chain.%s).MarshalText" % ty, spec=key_text(pre, False, (NIL,)), doc="prefix, tag and checked base58 of the data")


def legacy(E, st, a):
    v = E.mat(st, E.load(st, a[0])[0][1])
    outs = []
    for s, k1 in E.split(st, tx.bcmp(E, "==", v.vals[0], 0)):
        if not k1:
            outs.append(Out(s, panics=True))
            continue
        r = seq_in(E, s, v.vals[1])
        outs.append(Out(s, (E.cat(a[1], b58enc(E, s, E.cat(r, sum4(E, s, r, Rope())))),)))
    return outs


Contract("(*chain.PublicKey).LegacyString", spec=legacy, doc="prefix and checked base58 of the data; panics for another type than K1")


def key_lemmas(P):
    """over the specifications: the text of a key or signature parses to the same type and data"""
    out = []
    for nm, parse, pre in (("public key", pub_parse, b"PUB_"), ("signature", sig_parse, b"SIG_")):
        for tag, t in TAGS.items():
            E = Engine(P, "bv", {})
            E.spec = spec.SPEC
            st = State()
            d = E.opq(st, P.byname["[]byte"] if "[]byte" in P.byname else P.byname["[]uint8"], "d")
            r = seq_in(E, st, d)
            text = E.cat(lit(pre + tag + b"_"), b58enc(E, st, E.cat(r, sum4(E, st, r, lit(tag)))))
            ok = True
            for o in parse(E, st, text, r_new):
                if E.pr.check(o.st, True) == z3.unsat:
                    continue
                if o.results[1] is not NIL:
                    ok = False
                    continue
                g = Goals(E)
                g.val_eq(o.st, o.results[0], StructV((t, r)), "")
                ok = ok and all(gl is True or (not isb(gl) and E.proves(s, gl)) for s, gl, _ in g.items)
            out.append(("the text of a %s of type %s parses to the same type and data" % (nm, tag.decode()), "proved" if ok else "refuted", "z3"))
    return out
