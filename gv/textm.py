"""Trusted models of text functions of the standard library (strconv, strings, fmt, encoding/hex, encoding/base64) and the
specification vocabulary they share: decimal digits, separators, hex digits.  A text is a rope; predicates over texts are
defined functions of (array, offset, length) whose definitions are added as facts where they are used."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from .models import model, err, T, DESC
from .engine import Univ


# ---------------------------------------------------------------- texts

def concrete(r):
    return r.is_lit() and all(isinstance(x, int) for x in r.lit())


def cbytes(r):
    return bytes(x & 255 for x in r.lit())


def key(E, st, r):
    """z3 terms identifying a text"""
    if len(r.segs) == 1 and isinstance(r.segs[0], View) and r.segs[0].src.kind == "arr":
        v = r.segs[0]
        return (v.src.arr, E.D.sz(v.off), E.D.sz(v.n))
    if r.is_lit():
        a = z3.K(E.D.szsort(), E.D.byte(0))
        for i, x in enumerate(r.lit()):
            a = z3.Store(a, E.D.sz(i), E.D.byte(x))
        return (a, E.D.sz(0), E.D.sz(len(r.lit())))
    raise Unsupported("text %r" % (r,))


def at(E, k, j):
    """j-th byte of the text with key k"""
    a, off, n = k
    return E.D.select(a, E.D.add(norm_sz(E, off), j))


def norm_sz(E, t):
    return E.D.fold(t)


def once(E, tag, t):
    kk = (tag, t.get_id())
    if kk in E.ufs:
        return False
    E.ufs[kk] = t
    return True


def bcmp(E, op, a, b):
    return E.D.cmp(op, a, b, E.P.BYTE)


def isdigit(E, c):
    return band(bcmp(E, ">=", c, 0x30), bcmp(E, "<=", c, 0x39))


# ---------------------------------------------------------------- decimal numbers

def alldigits(E, st, r):
    """(non-empty, all digits), value too large for 64 bits, value (64 bits, unsigned)"""
    D = E.D
    if concrete(r):
        b = cbytes(r)
        if not b or not all(48 <= x <= 57 for x in b):
            return False, False, 0
        v = int(b)
        return True, v >= 1 << 64, v if v < 1 << 64 else 0
    k = key(E, st, r)
    ok = E.uf("isdec", k, z3.BoolSort())
    big = E.uf("decbig", k, z3.BoolSort())
    val = E.uf("decval", k, D.sort(E.P.U64))
    if once(E, "isdec", ok):
        n = norm_sz(E, k[2])
        w = E.uf("decbad", k, D.szsort())
        D.facts.append(z3.Implies(ok, zb(D.lt(0, n))))
        bad = band(D.le(0, w), D.lt(w, n), bnot(isdigit(E, at(E, k, w))))
        D.facts.append(z3.Implies(z3.Not(ok), zb(bor(D.eq(n, 0), bad))))
        D.facts.append(z3.Implies(z3.And(ok, zb(D.le(n, 19))), z3.Not(big)))
        for i in (0, 1):
            D.facts.append(z3.Implies(z3.And(ok, zb(D.lt(i, n))), zb(isdigit(E, at(E, k, i)))))
        if D.name == "bv":
            z8 = lambda c: z3.ZeroExt(56, D.byte(c)) - 48
            c0, c1 = at(E, k, 0), at(E, k, 1)
            D.facts.append(z3.Implies(z3.And(ok, zb(D.eq(n, 1))), val == z8(c0)))
            D.facts.append(z3.Implies(z3.And(ok, zb(D.eq(n, 2))), val == z8(c0) * 10 + z8(c1)))
            D.facts.append(z3.Implies(z3.And(ok, zb(D.lt(2, n)), D.byte(c0) != 48), z3.UGE(val, z3.BitVecVal(100, 64))))
        else:
            D.facts += [val >= 0, val < 1 << 64]
            D.setr(val, 0, (1 << 64) - 1)
    return ok, big, val


def sub(E, st, r, lo, hi):
    """text[lo:hi], bounds known to hold"""
    if len(r.segs) == 1 and isinstance(r.segs[0], View) and r.segs[0].src.kind != "const":
        v = r.segs[0]
        return Rope((View(v.src, E.D.add(v.off, lo), E.D.sub(hi, lo)),))
    rs = E.rope_slice(st, r, lo, hi)
    if len(rs) != 1:
        raise Unsupported("text slice forks")
    return rs[0][1]


def parse_uint(E, st, r, bits):
    """[(st, 'ok'|'syntax'|'range', value)] of an unsigned decimal text"""
    D = E.D
    if bits == 0:
        bits = 64
    ok, big, val = alldigits(E, st, r)
    mx = (1 << bits) - 1
    fits = band(bnot(big), D.cmp("<=", val, mx, E.P.U64))
    out = []
    for s, o in E.split(st, ok):
        if not o:
            out.append((s, "syntax", 0))
            continue
        for s2, f in E.split(s, fits):
            out.append((s2, "ok" if f else "range", val if f else mx))
    return out


def signed_parts(E, st, r):
    """[(st, negative, digits text)] after an optional sign; None for the empty text"""
    D = E.D
    out = []
    n = E.rlen(r)
    for s, empty in E.split(st, D.eq(n, 0)):
        if empty:
            out.append((s, False, None))
            continue
        c = E.rope_at(s, r, 0, E.P.BYTE)[0][1]
        for s2, neg in E.split(s, bcmp(E, "==", c, ord("-"))):
            if neg:
                out.append((s2, True, sub(E, s2, r, 1, n)))
                continue
            for s3, pos in E.split(s2, bcmp(E, "==", c, ord("+"))):
                out.append((s3, False, sub(E, s3, r, 1, n) if pos else r))
    return out


def parse_int(E, st, r, bits):
    D = E.D
    if bits == 0:
        bits = 64
    out = []
    for s, neg, t in signed_parts(E, st, r):
        if t is None:
            out.append((s, "syntax", 0))
            continue
        ok, big, val = alldigits(E, s, t)
        lim = (1 << (bits - 1)) if neg else (1 << (bits - 1)) - 1
        fits = band(bnot(big), D.cmp("<=", val, lim, E.P.U64))
        for s1, o in E.split(s, ok):
            if not o:
                out.append((s1, "syntax", 0))
                continue
            for s2, f in E.split(s1, fits):
                if not f:
                    out.append((s2, "range", D.const(-lim if neg else lim, E.P.byname["int64"])))
                else:
                    v = D.convert(val, E.P.U64, E.P.byname["int64"])
                    if D.name == "int" and not isinstance(v, int):
                        v = val
                    out.append((s2, "ok", D.neg(v, E.P.byname["int64"]) if neg else v))
    return out


def _cint(x, what):
    if not isinstance(x, int):
        raise Unsupported(what + " not constant")
    return x


@model("strconv.ParseUint", desc="strconv.ParseUint per its documentation (base 10): all digits and in range, or an error")
def _parseuint(E, fr, ins, st, args):
    if _cint(args[1], "base") != 10:
        raise Unsupported("ParseUint base")
    return [(s, (v, NIL if k == "ok" else err(E))) for s, k, v in parse_uint(E, st, args[0], _cint(args[2], "bit size"))]


@model("strconv.ParseInt", desc="strconv.ParseInt per its documentation (base 10): optional sign, digits, in range, or an error")
def _parseint(E, fr, ins, st, args):
    if _cint(args[1], "base") != 10:
        raise Unsupported("ParseInt base")
    return [(s, (v, NIL if k == "ok" else err(E))) for s, k, v in parse_int(E, st, args[0], _cint(args[2], "bit size"))]


@model("strconv.Atoi", desc="strconv.Atoi per its documentation")
def _atoi(E, fr, ins, st, args):
    return [(s, (v, NIL if k == "ok" else err(E))) for s, k, v in parse_int(E, st, args[0], 64)]


def dec(E, v, ty):
    """decimal text of an integer of Go type ty"""
    D = E.D
    if isinstance(v, int):
        return lit(str(D.toint(v, ty.signed, ty.width)).encode())
    if D.name == "bv":
        w = v.size()
        t = z3.SignExt(65 - w, v) if ty.signed else z3.ZeroExt(65 - w, v)
        t = simp(t)
    else:
        t = v
    n = E.uf("declen", (t,), D.szsort())
    if once(E, "declen", n):
        D.facts += [zb(D.le(1, n)), zb(D.le(n, 20))]
        if D.name == "bv":
            neg = t < 0
            mag = z3.If(neg, -t, t)
            for i in range(1, 20):
                D.facts.append(z3.ULT(mag, z3.BitVecVal(10 ** i, 65)) == (z3.If(neg, n - 1, n) <= i))
        else:
            neg = t < 0
            mag = z3.If(neg, -t, t)
            for i in range(1, 20):
                D.facts.append((mag < 10 ** i) == (z3.If(neg, n - 1, n) <= i))
            D.setr(n, 1, 20)
    return Rope((App("dec", (t,), n),))


@model("strconv.FormatUint", "strconv.FormatInt", desc="decimal text of the value (base 10)")
def _formatuint(E, fr, ins, st, args):
    if _cint(args[1], "base") != 10:
        raise Unsupported("FormatUint base")
    return [(st, (dec(E, args[0], E.P.U64 if ins["fn"]["n"].endswith("Uint") else E.P.byname["int64"]),))]


@model("strconv.AppendUint", "strconv.AppendInt", desc="decimal text of the value (base 10), appended")
def _appenduint(E, fr, ins, st, args):
    if _cint(args[2], "base") != 10:
        raise Unsupported("AppendUint base")
    r = dec(E, args[1], E.P.U64 if ins["fn"]["n"].endswith("Uint") else E.P.byname["int64"])
    return [(s, (v,)) for s, v in E.append(fr, ins, st, args[0], r)]


@model("strconv.Itoa", desc="decimal text of the value")
def _itoa(E, fr, ins, st, args):
    return [(st, (dec(E, args[0], E.P.INT),))]


def operand_text(E, st, v, verb="v"):
    """text fmt prints for an operand without String/Error methods"""
    if isinstance(v, IfaceV) and not isinstance(v.ty, str):
        ms = E.P.methods.get(v.ty.s) or {}
        if verb in "vs" and ("String" in ms or "Error" in ms or "Format" in ms):
            raise Unsupported("fmt operand with methods")
        k = E.P.kind(v.ty)
        if k == "int" and verb in "vd":
            return dec(E, v.val, E.P.under(v.ty) if not v.ty.width else v.ty)
        if k == "string" and verb in "vs":
            return v.val
    raise Unsupported("fmt operand %r" % (v,))


def variadic(E, st, sl):
    rs = E.content(st, sl)
    if len(rs) != 1 or not rs[0][1].is_lit():
        raise Unsupported("variadic arguments")
    return list(rs[0][1].lit())


@model("fmt.Sprint", desc="fmt.Sprint of one integer or string operand: its plain text")
def _sprint(E, fr, ins, st, args):
    ops = variadic(E, st, args[0])
    if len(ops) != 1:
        raise Unsupported("fmt.Sprint with several operands")
    return [(st, (operand_text(E, st, ops[0]),))]


def sprintf(E, st, f, ops):
    if not concrete(f):
        raise Unsupported("format string")
    f = cbytes(f)
    r = Rope()
    i = 0
    ops = list(ops)
    while i < len(f):
        c = f[i:i + 1]
        if c != b"%":
            r = E.cat(r, lit(c))
            i += 1
            continue
        v = f[i + 1:i + 2].decode()
        i += 2
        if v == "%":
            r = E.cat(r, lit(b"%"))
        elif v in ("d", "s", "v"):
            if not ops:
                raise Unsupported("format operands")
            r = E.cat(r, operand_text(E, st, ops.pop(0), v))
        else:
            raise Unsupported("format verb %" + v)
    if ops:
        raise Unsupported("extra format operands")
    return r


@model("fmt.Sprintf", desc="fmt.Sprintf with a literal format and plain %d %s %v verbs")
def _sprintf(E, fr, ins, st, args):
    return [(st, (sprintf(E, st, args[0], variadic(E, st, args[1])),))]


# ---------------------------------------------------------------- separators

def seps(E, st, r, ch):
    """split a text at separator byte ch -> [(st, parts or None)]; None: at least two separators (parts unknown)"""
    D = E.D
    cur = [(st, [Rope()], 0)]
    for seg in r.segs:
        nxt = []
        for s, parts, _ in cur:
            if parts is None:
                nxt.append((s, None, 2))
                continue
            if isinstance(seg, Lit):
                p2 = list(parts)
                for x in seg.v:
                    if isinstance(x, int):
                        if x == ch:
                            p2.append(Rope())
                        else:
                            p2[-1] = E.cat(p2[-1], lit([x]))
                    else:
                        if E.proves(s, bnot(bcmp(E, "==", x, ch))):
                            p2[-1] = E.cat(p2[-1], lit([x]))
                        else:
                            raise Unsupported("separator in symbolic literal")
                nxt.append((s, p2 if len(p2) <= 2 else None, 0))
                continue
            if isinstance(seg, App) and seg.f == "dec" and ch not in b"-0123456789":
                nxt.append((s, parts[:-1] + [E.cat(parts[-1], Rope((seg,)))], 0))
                continue
            one = Rope((seg,))
            cnt, fst = sepinfo(E, s, one, ch)
            for s1, none in E.split(s, D.eq(cnt, 0)):
                if none:
                    no_sep(E, s1, one, ch)
                    nxt.append((s1, parts[:-1] + [E.cat(parts[-1], one)], 0))
                    continue
                if len(parts) == 2:
                    nxt.append((s1, None, 2))
                    continue
                for s2, single in E.split(s1, D.eq(cnt, 1)):
                    if not single:
                        nxt.append((s2, None, 2))
                        continue
                    a = sub(E, s2, one, 0, fst)
                    b = sub(E, s2, one, D.add(fst, 1), E.rlen(one))
                    no_sep(E, s2, a, ch)
                    no_sep(E, s2, b, ch)
                    nxt.append((s2, parts[:-1] + [E.cat(parts[-1], a), b], 0))
        cur = nxt
    return [(s, p) for s, p, _ in cur]


def no_sep(E, st, r, ch):
    """record that no byte of the text is ch"""
    if not r.segs or concrete(r):
        return
    k = key(E, st, r)
    n = norm_sz(E, k[2])
    D = E.D
    st.univ.append(Univ(lambda j: bimp(band(D.le(0, j), D.lt(j, n)), bnot(bcmp(E, "==", at(E, k, j), ch))), "no separator"))


def sepinfo(E, st, r, ch):
    """number of separators and position of the first"""
    D = E.D
    k = key(E, st, r)
    cnt = E.uf("seps:%d" % ch, k, D.szsort())
    fst = E.uf("sep1:%d" % ch, k, D.szsort())
    if once(E, "seps:%d" % ch, cnt):
        n = norm_sz(E, k[2])
        c = D.fold(cnt) if not isinstance(cnt, int) else cnt
        D.facts += [zb(D.le(0, cnt)), zb(D.le(cnt, n))]
        some = zb(D.lt(0, cnt))
        D.facts.append(z3.Implies(some, zb(band(D.le(0, fst), D.lt(fst, n), bcmp(E, "==", at(E, k, fst), ch)))))
        # the rest after the first separator holds the others
        a, off, _ = k
        rest = E.uf("seps:%d" % ch, (a, D.sz(D.add(D.add(norm_sz(E, off), fst), 1)), D.sz(D.sub(D.sub(n, fst), 1))), D.szsort())
        D.facts.append(z3.Implies(some, rest == cnt - 1))
        pre = E.uf("seps:%d" % ch, (a, off, D.sz(fst)), D.szsort())
        D.facts.append(z3.Implies(some, pre == 0))
    return cnt, fst


def mkstrs(E, st, parts):
    return E.mkslice(st, lit(parts))


def many(E, st, r):
    """a slice of at least three unknown strings"""
    ty = E.P.byname["string"]
    from .val import OpqSrc
    base = E.fresh_name("parts")
    n = E.fresh_sz(st, "nparts", 3)
    oid = E.new(st, "cell", None, Rope((View(OpqSrc(ty, base, ()), 0, n),)))
    return SliceV(PtrV(oid), 0, n, n)


def sepch(E, s):
    if not concrete(s) or len(cbytes(s)) != 1:
        raise Unsupported("separator")
    return cbytes(s)[0]


@model("strings.Split", desc="strings.Split at a one-byte separator")
def _split(E, fr, ins, st, args):
    ch = sepch(E, args[1])
    out = []
    for s, parts in seps(E, st, args[0], ch):
        out.append((s, (mkstrs(E, s, parts) if parts is not None else many(E, s, args[0]),)))
    return out


def first_sep(E, st, r, ch):
    """[(st, found, before, after)]"""
    D = E.D
    if not r.segs:
        return [(st, False, r, None)]
    seg, rest = r.segs[0], Rope(r.segs[1:])
    if isinstance(seg, Lit):
        for i, x in enumerate(seg.v):
            if not isinstance(x, int):
                if E.proves(st, bnot(bcmp(E, "==", x, ch))):
                    continue
                raise Unsupported("separator in symbolic literal")
            if x == ch:
                return [(st, True, lit(seg.v[:i]), E.cat(lit(seg.v[i + 1:]), rest))]
        return [(s, f, E.cat(Rope((seg,)), b), a) for s, f, b, a in first_sep(E, st, rest, ch)]
    one = Rope((seg,))
    cnt, fst = sepinfo(E, st, one, ch)
    out = []
    for s, none in E.split(st, D.eq(cnt, 0)):
        if none:
            no_sep(E, s, one, ch)
            out += [(s2, f, E.cat(one, b), a) for s2, f, b, a in first_sep(E, s, rest, ch)]
        else:
            a = sub(E, s, one, 0, fst)
            no_sep(E, s, a, ch)
            out.append((s, True, a, E.cat(sub(E, s, one, D.add(fst, 1), E.rlen(one)), rest)))
    return out


@model("strings.SplitN", desc="strings.SplitN at a one-byte separator, two or three parts")
def _splitn(E, fr, ins, st, args):
    ch = sepch(E, args[1])
    n = _cint(args[2], "part count")
    if n != 2:
        if n in (-1 & ((1 << 64) - 1), -1):
            return _split(E, fr, ins, st, args)
        raise Unsupported("SplitN count")
    return [(s, (mkstrs(E, s, [b, a] if f else [b]),)) for s, f, b, a in first_sep(E, st, args[0], ch)]


@model("strings.Cut", desc="strings.Cut at a one-byte separator")
def _cut(E, fr, ins, st, args):
    ch = sepch(E, args[1])
    return [(s, (b, a if f else Rope(), f)) for s, f, b, a in first_sep(E, st, args[0], ch)]


@model("strings.Index", "strings.IndexByte", "strings.IndexRune", desc="position of the first separator byte, or -1")
def _index(E, fr, ins, st, args):
    ch = sepch(E, args[1]) if isinstance(args[1], Rope) else _cint(args[1], "separator")
    return [(s, (E.rlen(b) if f else E.D.const(-1, E.P.INT),)) for s, f, b, a in first_sep(E, st, args[0], ch)]


@model("strings.Contains", "strings.ContainsRune", desc="whether the separator byte occurs")
def _contains(E, fr, ins, st, args):
    ch = sepch(E, args[1]) if isinstance(args[1], Rope) else _cint(args[1], "separator")
    return [(s, (f,)) for s, f, b, a in first_sep(E, st, args[0], ch)]


@model("strings.Count", desc="number of separator bytes")
def _count(E, fr, ins, st, args):
    ch = sepch(E, args[1])
    out = []
    for s, parts in seps(E, st, args[0], ch):
        out.append((s, (len(parts) - 1 if parts is not None else E.fresh_sz(s, "cnt", 2),)))
    return out


# ---------------------------------------------------------------- hex

def hexdigit(E, nib):
    D = E.D
    if isinstance(nib, int):
        return b"0123456789abcdef"[nib]
    if D.name == "bv":
        return D.fold(z3.If(z3.ULT(nib, 10), nib + 48, nib + 87))
    return D.setr(D.fold(z3.If(nib < 10, nib + 48, nib + 87)), 48, 102)


def ishex(E, c):
    r = lambda a, b: band(bcmp(E, ">=", c, ord(a)), bcmp(E, "<=", c, ord(b)))
    return bor(r("0", "9"), r("a", "f"), r("A", "F"))


def hexval(E, c):
    D = E.D
    c = D.byte(c)
    if D.name == "bv":
        return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def hexenc(E, st, r):
    """lower-case hex text of a byte sequence"""
    D = E.D
    if r.is_lit():
        out = []
        for x in r.lit():
            out += [hexdigit(E, D.binop(">>", x, 4, E.P.BYTE, E.P.BYTE)), hexdigit(E, D.binop("&", x, 15, E.P.BYTE))]
        return lit(out)
    if len(r.segs) == 1 and isinstance(r.segs[0], View) and r.segs[0].src.kind in ("arr", "fn"):
        v = r.segs[0]
        j = D.fresh(E.fresh_name("hj"), E.P.INT)
        if D.name == "bv":
            b = D.byte(E.src_at(st, v.src, D.add(v.off, z3.LShR(j, 1))))
            nib = z3.If(z3.Extract(0, 0, j) == 0, z3.LShR(b, 4), b & 15)
            body = hexdigit(E, nib)
        else:
            b = E.src_at(st, v.src, D.add(v.off, j / 2))
            body = hexdigit(E, z3.If(j % 2 == 0, b / 16, b % 16))
        return Rope((View(FnSrc(j, body), 0, D.mul(2, v.n)),))
    return Rope((App("hex", (r,), D.mul(2, E.rlen(r))),))


def hexok(E, st, r):
    """even length and only hex digits: condition with its definition"""
    D = E.D
    if concrete(r):
        b = cbytes(r)
        return len(b) % 2 == 0 and all(chr(x) in "0123456789abcdefABCDEF" for x in b)
    k = key(E, st, r)
    n = norm_sz(E, k[2])
    ok = E.uf("hexok", k, z3.BoolSort())
    if once(E, "hexok", ok):
        w = E.uf("hexbad", k, D.szsort())
        odd = (z3.Extract(0, 0, D.sz(n)) == 1) if D.name == "bv" else D.sz(n) % 2 == 1
        D.facts.append(z3.Implies(ok, z3.Not(odd)))
        D.facts.append(z3.Implies(z3.Not(ok), z3.Or(odd, zb(band(D.le(0, w), D.lt(w, n), bnot(ishex(E, at(E, k, w))))))))
    return ok


def hexok_univ(E, st, r):
    """consequence of hexok: every byte is a hex digit"""
    if not r.segs or concrete(r):
        return
    k = key(E, st, r)
    n = norm_sz(E, k[2])
    D = E.D
    st.univ.append(Univ(lambda j: bimp(band(D.le(0, j), D.lt(j, n)), ishex(E, at(E, k, j))), "hex digits"))


def half(E, n):
    return n // 2 if isinstance(n, int) else (E.D.fold(z3.LShR(n, 1)) if E.D.name == "bv" else E.D.fold(n / 2))


def hexdec(E, st, r):
    """the bytes a hex text denotes"""
    D = E.D
    if r.is_lit():
        v = r.lit()
        return lit([D.fold(hexval(E, v[i]) * 16 + hexval(E, v[i + 1])) for i in range(0, len(v) - 1, 2)])
    k = key(E, st, r)
    j = D.fresh(E.fresh_name("hj"), E.P.INT)
    body = hexval(E, at(E, k, D.mul(2, j))) * 16 + hexval(E, at(E, k, D.add(D.mul(2, j), 1)))
    return Rope((View(FnSrc(j, D.fold(body)), 0, half(E, norm_sz(E, k[2]))),))


@model("encoding/hex.EncodeToString", desc="lower-case hex of the bytes")
def _hexenc(E, fr, ins, st, args):
    return [(s, (hexenc(E, s, r),)) for s, r in E.content(st, args[0])]


@model("encoding/hex.Encode", desc="lower-case hex of the bytes into dst")
def _hexencode(E, fr, ins, st, args):
    out = []
    dst = E.mat(st, args[0])
    for s, r in E.content(st, args[1]):
        h = hexenc(E, s, r)
        n = E.rlen(h)
        if not E.require(s, E.D.le(n, dst.ln), "hex.Encode destination too short", fr, ins):
            continue
        from .models import fill
        for s2 in fill(E, s, dst, h, n):
            out.append((s2, (n,)))
    return out


@model("encoding/hex.DecodedLen", "encoding/hex.EncodedLen", desc="n/2, n*2")
def _hexlen(E, fr, ins, st, args):
    D = E.D
    if ins["fn"]["n"].endswith("EncodedLen"):
        return [(st, (D.mul(2, args[0]),))]
    if not E.proves(st, D.le(0, args[0])):
        raise Unsupported("negative length")
    return [(st, (half(E, args[0]),))]


@model("encoding/hex.DecodeString", desc="the bytes of an even number of hex digits, or an error")
def _hexdecs(E, fr, ins, st, args):
    out = []
    r = args[0]
    for s, ok in E.split(st, hexok(E, st, r)):
        if ok:
            hexok_univ(E, s, r)
            out.append((s, (E.mkslice(s, hexdec(E, s, r)), NIL)))
        else:
            out.append((s, (any_bytes(E, s, half(E, E.rlen(r))), err(E))))
    return out


def any_bytes(E, st, maxn):
    n = E.fresh_sz(st, "anyn", 0)
    st.assume(E.D.le(n, maxn))
    return E.mkslice(st, Rope((View(ArrSrc(E.fresh_arr("any")), 0, n),)))


@model("encoding/hex.Decode", desc="the bytes of an even number of hex digits into dst, or an error with dst partly written")
def _hexdecode(E, fr, ins, st, args):
    from .models import fill
    out = []
    D = E.D
    dst = E.mat(st, args[0])
    for s, r in E.content(st, args[1]):
        n = half(E, E.rlen(r))
        if not E.require(s, D.le(n, dst.ln), "hex.Decode destination too short", fr, ins):
            continue
        for s1, ok in E.split(s, hexok(E, s, r)):
            if ok:
                hexok_univ(E, s1, r)
                for s2 in fill(E, s1, dst, hexdec(E, s1, r), n):
                    out.append((s2, (n, NIL)))
            else:
                m = E.fresh_sz(s1, "hn", 0)
                s1.assume(D.le(m, n))
                for s2 in fill(E, s1, dst, Rope((View(ArrSrc(E.fresh_arr("part")), 0, n),)), n):
                    out.append((s2, (m, err(E))))
    return out


# ---------------------------------------------------------------- base64

def b64key(E, st, r):
    """text and the number of '=' appended to it"""
    segs = list(r.segs)
    pad = 0
    while segs and isinstance(segs[-1], Lit) and all(x == 61 for x in segs[-1].v) and len(segs) > 1:
        pad += len(segs[-1].v)
        segs.pop()
    return key(E, st, Rope(segs)) + (E.D.sz(pad),)


def b64(E, st, r, enc="std"):
    """(accepted, decoded bytes) of base64.StdEncoding"""
    k = b64key(E, st, r)
    ok = E.uf("b64ok:" + enc, k, z3.BoolSort())
    n = E.uf("b64len:" + enc, k, E.D.szsort())
    if once(E, "b64", n):
        E.D.facts += [zb(E.D.le(0, n)), zb(E.D.le(n, E.rlen(r)))]
    return ok, Rope((View(ArrSrc(E.uf("b64arr:" + enc, k, E.arrsort())), 0, n),))


@model("(*encoding/base64.Encoding).DecodeString", desc="base64 decoding as a function of the text (accepted or not, bytes)")
def _b64dec(E, fr, ins, st, args):
    enc = encname(E, st, args[0])
    ok, r = b64(E, st, args[1], enc)
    out = []
    for s, o in E.split(st, ok):
        out.append((s, (E.mkslice(s, r) if o else any_bytes(E, s, E.rlen(args[1])), NIL if o else err(E))))
    return out


@model("(*encoding/base64.Encoding).EncodeToString", desc="base64 encoding as a function of the bytes")
def _b64enc(E, fr, ins, st, args):
    enc = encname(E, st, args[0])
    return [(s, (b64enc(E, s, r, enc),)) for s, r in E.content(st, args[1])]


def b64enc(E, st, r, enc="std"):
    D = E.D
    n = E.rlen(r)
    if isinstance(n, int):
        ln = (n + 2) // 3 * 4
    else:
        ln = E.uf("b64enclen", (D.sz(n),), D.szsort())
    return Rope((App("base64:" + enc, (r,), ln),))


def encname(E, st, p):
    if isinstance(p, IfaceV):
        p = p.val
    if isinstance(p, Opq) and p.base.startswith("b64:"):
        return p.base[4:]
    raise Unsupported("base64 encoding %r" % (p,))


@model("strings.Join", desc="concatenation with separators (lists of known length)")
def _join(E, fr, ins, st, args):
    out = []
    for s, r in E.content(st, args[0]):
        if not r.is_lit():
            raise Unsupported("strings.Join of a list of unknown length")
        parts = []
        for i, x in enumerate(r.lit()):
            if not isinstance(x, Rope):
                raise Unsupported("strings.Join")
            parts += ([args[1]] if i else []) + [x]
        out.append((s, (E.cat(*parts),)))
    return out
