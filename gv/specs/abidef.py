"""Contracts: encoding and decoding by an ABI definition (pkg/chain/abi.go).
A resolved type is an immutable graph of unknown shape; encodings of (type, value) pairs are uninterpreted functions that the
contracts tie together layer by layer: presence byte, element count, fields in order, variant index, built-in types."""
from .gendec import *
from ..optr import *
from .. import optr

RTY = MOD + "chain.resolvedType"
AT = "at:" + RTY
MAXDEPTH = 128
ELEMS = "[]*" + RTY
FSTRUCT = "struct{name string; typ *%s}" % RTY
NONNIL = ("at:" + ELEMS + "[]", "at:[]*" + FSTRUCT + "[]", "allFields[]", "at:" + FSTRUCT + ".typ", "allFields[].typ")     # never nil in a resolved type


class Pair(Codec):
    """encoding of a value as a type, as an uninterpreted function"""
    atomic = True

    def wlen(self, E, st, v):
        return reflm.ranged(E, E.uf("wlen:" + self.name, v.vals, I), 0, 1 << 42)


Pair("abit")      # encodeType
Pair("abii")      # encodeInner


def okp(E, name, t, v, d):
    return E.uf("ok:" + name, (t, v, E.D.sz(d)), B)


def fld(E, st, t, name, path=()):
    """field of a resolved type"""
    ty = E.P.byname[RTY]
    for n, ft, _ in E.P.fields(ty):
        if n == name:
            return E.opq(st, ft, AT + "." + n, (t,))
    raise Unsupported("resolved types have no field " + name)


def params(E, fn, *want):
    """positions of the parameters with these types (each exactly once)"""
    out = []
    for w in want:
        ix = [i for i, (n, t) in enumerate(fn.params) if t.s == w or w == "any" and E.P.kind(t) == "iface" and not E.P.under(t).methods]
        if len(ix) != 1:
            raise Unsupported("parameters of %s" % fn.name)
        out.append(ix[0])
    return out


ENC = ("*" + MOD + "abi.Encoder", "*" + RTY, "any", "int")


def depth_ok(E, st, d, mine, callee):
    """recursion is bounded: the depth never decreases, grows from layer to layer, and is checked against the limit"""
    return [band(E.D.le(0, d), E.D.le(d, MAXDEPTH if callee.endswith("Inner") else MAXDEPTH + 1))]


def all_fields(E, st, t):
    fn = E.P.funcs.get("(*%s).allFields" % RTY)
    if fn is None:
        raise Unsupported("allFields")
    return E.opq(st, fn.results[0][1], "allFields", (t,))


def field_at(E, st, fs, j):
    """(name, type term) of field j"""
    et = E.P.elem(fs.ty)
    if E.P.kind(et) == "ptr":
        p = E.opq(st, et, fs.base + "[]", fs.args + (E.D.sz(j),))
        v = E.mat(st, E.load(st, p)[0][1])
        sty = E.P.elem(et)
    else:
        v = E.mat(st, E.opq(st, et, fs.base + "[]", fs.args + (E.D.sz(j),)))
        sty = et
    name = typ_ = None
    for (n, t, _), x in zip(E.P.fields(sty), v.vals):
        if E.P.kind(t) == "string":
            name = x
        elif t.s == "*" + RTY:
            typ_ = x.t
    if name is None or typ_ is None:
        raise Unsupported("shape of resolved fields")
    return name, typ_


BUILTIN = [("bool", "bool", "bool"), ("string", "string", "bytes")] + [(n, n, c) for n, c in PRIMS if n[:3] in ("uin", "int", "flo") and n not in ("int", "uint")] + [
    ("uint64", "chain.Uint64", "u64"), ("varuint32", "uint", "uvar"), ("varint32", "int", "svar"), ("bytes", "[]byte", "bytes"), ("bytes", "chain.Bytes", "bytes")] + [
    (n, "chain." + t, None) for n, t in (("uint128", "Uint128"), ("int128", "Int128"), ("float128", "Float128"), ("asset", "Asset"), ("block_timestamp_type", "BlockTimestamp"),
                                         ("checksum160", "Checksum160"), ("checksum256", "Checksum256"), ("checksum512", "Checksum512"), ("eosio::name", "Name"),
                                         ("extended_asset", "ExtendedAsset"), ("name", "Name"), ("public_key", "PublicKey"), ("signature", "Signature"),
                                         ("symbol_code", "SymbolCode"), ("symbol", "Symbol"), ("time_point_sec", "TimePointSec"), ("time_point", "TimePoint"))]


def gotype(E, n):
    if n.startswith("chain."):
        return E.P.byname.get(MOD + n)
    return basic(E, n)


def codec_of(E, ty, method="MarshalABI"):
    for pre in ("(", "(*"):
        c = CONTRACTS.get("%s%s).%s" % (pre, ty.s, method))
        if c is not None:
            return (c.writes or c.reads)[1]
    raise Unsupported("no codec of " + ty.s)


class EncContract(Contract):
    def __init__(self, name, term, define, **kw):
        super().__init__(name, spec=lambda E, st, a: [], define=define, mode="int", setup=self.mksetup, hooks=dict(optr=True, nonnil=NONNIL), **kw)
        self.term = term

    def mksetup(self, E, st, fn):
        e, t, v, d = params(E, fn, *ENC)
        args = []
        for i, (n, ty) in enumerate(fn.params):
            if i == e:
                args.append(mk_abi(E, st, "Encoder"))
            elif i == t:
                args.append(OptrV(z3.Int("t"), ty))
                st.assume(z3.Int("t") != 0)
            elif i == v:
                args.append(AnyV(z3.Int("v")))
            elif i == d:
                args.append(E.D.fresh("depth", ty))
                st.assume(z3.And(args[-1] >= 0, args[-1] <= (MAXDEPTH if self.term == "abii" else MAXDEPTH + 1)))
            else:
                args.append(Opq(ty, n, ()))
        E.ix = (e, t, v, d)
        E.depth0 = args[d]
        return args

    def apply(self, E, fr, ins, st, args):
        fn = E.P.funcs[self.name]
        e, t, v, d = params(E, fn, *ENC)
        tv, vv, dv = args[t], args[v], args[d]
        if tv is NIL or not isinstance(tv, OptrV):
            raise Unsupported("encoding as %r" % (tv,))
        x = reflm.any_term(E, st, vv)
        if not E.require(st, bnot(tv.isnil(E, st)), "encoding as a nil type", fr, ins):
            return []
        mine = getattr(E, "depth0", None)
        low = 0 if mine is None else mine if self.term == "abii" else E.D.add(mine, 1)
        if not E.require(st, band(E.D.le(low, dv), E.D.le(dv, MAXDEPTH if self.term == "abii" else MAXDEPTH + 1)), "bounded recursion in " + self.short, fr, ins):
            return []
        w = encoder_writer(E, st, args[e])
        out = []
        for s, good in E.split(st, okp(E, self.term, tv.t, x, dv)):
            if not good:
                models.emit_junk(E, s, w)
                out.append((s, (models.err(E),)))
                continue
            for s2, k in models.emit(E, s, w, CODECS[self.term].node(E, s, StructV((tv.t, x)))):
                out.append((s2, (NIL if k else models.err(E),)))
        return out


def enc_args(E, a):
    e, t, v, d = E.ix
    return e, a[t].t, a[v].t, a[d]


def casesplit(st):
    def case(c):
        s = st.fork()
        s.assume(c)
        st.assume(bnot(c))
        return s
    return case


def anyslice(E):
    t = E.P.byname.get("[]interface{}") or E.P.byname.get("[]any")
    if t is None:
        raise Unsupported("[]interface{}")
    return t


def anymap(E):
    t = E.P.byname.get("map[string]interface{}") or E.P.byname.get("map[string]any")
    if t is None:
        raise Unsupported("map[string]interface{}")
    return t


def elem_any(E, st, v, j):
    """element j of the slice v holds"""
    ty = anyslice(E)
    return E.opq(st, E.P.elem(ty), "as:" + ty.s + "[]", (v, E.D.sz(j)))


def some(E, st, good, piece, e):
    """outcomes: the piece when good, else an error"""
    s = st.fork()
    s.assume(good)
    st.assume(bnot(good))
    return [Out(s, (NIL,), emit={e: piece(s)}), Out(st, (ANYERR,), wany=(e,))]


def each_part(E, st, n, cases, okj, head, e):
    var = z3.Int(E.fresh_name("part"))
    s = st.fork()
    s.univ.append(forall_univ(E, ForAll(n, lambda j: [okj(s, j)])))
    ln = E.fresh_sz(s, "parts", 0)
    body = Rope((Gen(Generator(var, cases(s, var)), 0, n, ln),))
    outs = [Out(s, (NIL,), emit={e: E.cat(head, body)})]
    j = z3.Int(E.fresh_name("bad"))
    s2 = st.fork()
    s2.assume(band(0 <= j, j < E.D.sz(n)))
    s2.assume(bnot(okj(s2, j)))
    s2.idx = s2.idx + [j]
    return outs + [Out(s2, (ANYERR,), wany=(e,))]


def enc_type_def(E, st, a):
    e, t, v, d = enc_args(E, a)
    outs = []
    case = casesplit(st)
    err = lambda c: outs.append(Out(case(c), (ANYERR,), wany=(e,)))
    err(norm_bool(E.D.sz(d) > MAXDEPTH))
    nil = norm_bool(dyn(E, v) == 0)
    opt, arr, ext = (fld(E, st, t, n) for n in ("isOptional", "isArray", "isExtension"))
    ref = fld(E, st, t, "ref").t
    b1 = CODECS["bool"].node
    s = case(band(opt, nil))
    outs.append(Out(s, (NIL,), emit={e: b1(E, s, False)}))
    s = case(band(nil, ext))
    outs.append(Out(s, (NIL,)))
    err(band(nil, bor(norm_bool(ref == 0), arr)))
    ty = anyslice(E)
    for s, o in ((case(opt), True), (st, False)):
        head = b1(E, s, True) if o else Rope()
        c2 = casesplit(s)
        sa = c2(arr)
        c3 = casesplit(sa)
        bad = c3(dyn(E, v) != tyid(E, ty))
        outs.append(Out(bad, (ANYERR,), wany=(e,)))
        n = E.oplen("as:" + ty.s, (v,))
        el = lambda s, j: elem_any(E, s, v, j).t
        outs += each_part(E, sa, n, lambda s, j: [(True, CODECS["abii"].node(E, s, StructV((t, el(s, j)))))], lambda s, j: okp(E, "abii", t, el(s, j), d),
                          E.cat(head, CODECS["uvar"].node(E, sa, n)), e)
        outs += some(E, s, okp(E, "abii", t, v, d), lambda s: E.cat(head, CODECS["abii"].node(E, s, StructV((t, v)))), e)
    return outs


def enc_inner_def(E, st, a):
    e, t, v, d = enc_args(E, a)
    outs = []
    case = casesplit(st)
    err = lambda st_, c: outs.append(Out(casesplit(st_)(c), (ANYERR,), wany=(e,)))
    d1 = E.D.add(d, 1)
    ref = fld(E, st, t, "ref").t
    sub = lambda s, t, v: CODECS["abit"].node(E, s, StructV((t, v)))
    s = case(norm_bool(ref != 0))
    outs += some(E, s, okp(E, "abit", ref, v, d1), lambda s: sub(s, ref, v), e)
    # structs: fields in order, by name
    fs = all_fields(E, st, t)
    s = case(bnot(E.models.opq_isnil(E, st, fs)))
    err(s, norm_bool(dyn(E, v) != tyid(E, anymap(E))))

    def fv(s, j):
        name, ft = field_at(E, s, fs, j)
        return ft, E.uf("mapget", (v, strkey(E, name)), I)
    outs += each_part(E, s, E.oplen(fs.base, fs.args), lambda s, j: [(True, sub(s, *fv(s, j)))], lambda s, j: okp(E, "abit", *fv(s, j), d1), Rope(), e)
    # variants: [name, value]; the first alternative of that name
    vp = fld(E, st, t, "variant")
    s = case(norm_bool(vp.t != 0))
    ty = anyslice(E)
    err(s, norm_bool(dyn(E, v) != tyid(E, ty)))
    err(s, bnot(E.D.eq(E.oplen("as:" + ty.s, (v,)), 2)))
    v0, v1 = elem_any(E, s, v, 0).t, elem_any(E, s, v, 1).t
    err(s, norm_bool(dyn(E, v0) != tyid(E, E.P.byname["string"])))
    key = strkey(E, E.opq(s, E.P.byname["string"], "as:string", (v0,)))
    va = E.load(s, vp)[0][1]
    n = E.oplen(va.base, va.args)
    alt = lambda s, j: E.opq(s, E.P.elem(va.ty), va.base + "[]", va.args + (E.D.sz(j),)).t
    hit = lambda s, j: norm_bool(strkey(E, fld(E, s, alt(s, j), "name")) == key)
    s1 = s.fork()
    s1.univ.append(forall_univ(E, ForAll(n, lambda j: [bnot(hit(s1, j))])))
    outs.append(Out(s1, (ANYERR,), wany=(e,)))
    j = z3.Int(E.fresh_name("alt"))
    s.assume(band(0 <= j, j < E.D.sz(n)))
    s.assume(hit(s, j))
    s.univ.append(forall_univ(E, ForAll(j, lambda i: [bnot(hit(s, i))])))
    s.idx = s.idx + [j]
    E.D.setr(j, 0, 1 << 40)
    outs += some(E, s, okp(E, "abit", alt(s, j), v1, d1), lambda s: E.cat(CODECS["uvar"].node(E, s, j), sub(s, alt(s, j), v1)), e)
    # built-in types
    bk = strkey(E, fld(E, st, t, "baseName"))
    lits = E.ufs[("strlits",)]
    names = {}
    for n, gt, c in BUILTIN:
        names.setdefault(n, []).append((gotype(E, gt), c))
    for n, ts in names.items():
        s = case(norm_bool(bk == strkey(E, lit(n.encode()))))
        for ty, c in ts:
            if ty is None:
                continue
            s1 = casesplit(s)(norm_bool(dyn(E, v) == tyid(E, ty)))
            cd = CODECS[c] if c else codec(codec_of(E, ty), E, s1, ())
            outs.append(Out(s1, (NIL,), emit={e: cd.node(E, s1, norm_seq(E, s1, as_type(E, s1, v, ty)))}))
        outs.append(Out(s, (ANYERR,), wany=(e,)))
    outs.append(Out(st, (ANYERR,), wany=(e,)))
    return outs


EncContract("(chain.Abi).encodeType", "abit", enc_type_def, doc="presence byte of optionals; nothing for absent extensions; element count and elements; nesting is bounded")
EncContract("(chain.Abi).encodeInner", "abii", enc_inner_def, doc="alias target; fields in order by name; index and value of the named alternative; built-in types by their codecs; else an error")


# ---------------------------------------------------------------- decoding

DEC = ("*" + MOD + "abi.Decoder", "*" + RTY, "*interface{}", "int")


class AEff:
    """what decoding a type at a position does, as functions of type, position and depth"""

    def __init__(self, E, name, t, p, d):
        self.p = E.D.sz(p)
        a = (t, self.p, E.D.sz(d))
        self.ok = E.uf("aok:" + name, a, B)
        self.eof = E.uf("aeof:" + name, a, B)
        self.next = E.uf("anext:" + name, a, I)
        self.fpos = E.uf("afpos:" + name, a, I)
        self.val = E.uf("aval:" + name, a, I)
        N = z3.Int("N")
        for x in (self.next, self.fpos):
            reflm.ranged(E, x, 0, 1 << 32)
        reflm.once(E, ("aeff", self.ok.get_id()), [z3.Implies(z3.And(self.ok, self.p <= N), z3.And(self.next >= self.p, self.next <= N)),
                                                   z3.Implies(self.p <= N, z3.And(self.fpos >= self.p, self.fpos <= N))])
        E.keep += [self.ok, self.next]


def empty_cell(E, st, v):
    """is an interface value nil?"""
    if v is NIL:
        return True
    return v.isnil(E, st) if hasattr(v, "isnil") else False


class DecContract(Contract):
    def __init__(self, name, term, define, **kw):
        super().__init__(name, spec=lambda E, st, a: [], define=define, mode="int", setup=self.mksetup, hooks=dict(optr=True, nonnil=NONNIL), **kw)
        self.term = term

    def mksetup(self, E, st, fn):
        dc, t, v, d = params(E, fn, *DEC)
        args = []
        for i, (n, ty) in enumerate(fn.params):
            if i == dc:
                args.append(mk_abi(E, st, "Decoder"))
                st.ghost["READER"] = decoder_reader(E, st, args[-1])
            elif i == t:
                args.append(OptrV(z3.Int("t"), ty))
                st.assume(z3.Int("t") != 0)
            elif i == v:
                args.append(PtrV(E.new(st, "cell", E.P.elem(ty), NIL, pre=True, tag=n)))
            elif i == d:
                args.append(E.D.fresh("depth", ty))
                st.assume(z3.And(args[-1] >= 0, args[-1] <= (MAXDEPTH if self.term == "abii" else MAXDEPTH + 1)))
            else:
                args.append(Opq(ty, n, ()))
        E.ix = (dc, t, v, d)
        E.depth0 = args[d]
        return args

    def apply(self, E, fr, ins, st, args):
        fn = E.P.funcs[self.name]
        dc, t, v, d = params(E, fn, *DEC)
        tv, vv, dv = args[t], args[v], args[d]
        if tv is NIL or not isinstance(tv, OptrV) or not isinstance(vv, PtrV):
            raise Unsupported("decoding %r into %r" % (tv, vv))
        if not E.require(st, bnot(tv.isnil(E, st)), "decoding a nil type", fr, ins):
            return []
        mine = getattr(E, "depth0", None)
        low = 0 if mine is None else mine if self.term == "abii" else E.D.add(mine, 1)
        if not E.require(st, band(E.D.le(low, dv), E.D.le(dv, MAXDEPTH if self.term == "abii" else MAXDEPTH + 1)), "bounded recursion in " + self.short, fr, ins):
            return []
        out = []
        for s, cur in E.load(st, vv):
            if not E.require(s, empty_cell(E, s, cur), "precondition of %s: the destination holds nothing yet" % self.short, fr, ins):
                continue
            r = decoder_reader(E, s, args[dc])
            e = AEff(E, self.term, tv.t, models.rd(s, r)[0], dv)
            for s1, good in E.split(s, e.ok):
                models.rd_set(s1, r, e.next if good else e.fpos)
                for s2 in E.store(s1, vv, AnyV(e.val) if good else AnyV(z3.Int(E.fresh_name("junk")))):
                    out.append((s2, (NIL if good else ErrV("end", (e.eof,)),)))
        return out


def dec_args(E, a):
    dc, t, v, d = E.ix
    return dc, a[t].t, a[v], a[d]


def arecur(E, name, init, step):
    """a sequence defined by its first element and its successor function"""
    init = tuple(E.D.sz(x) for x in init)
    f = lambda j: E.uf(name, init + (E.D.sz(j),), I)

    def at(j):
        t = f(j)
        if ("recur", t.get_id()) not in E.ufs:
            E.ufs[("recur", t.get_id())] = t
            E.D.facts.append(f(0) == init[0])
            for i in ([j] if isinstance(j, int) else [j, E.D.sub(j, 1)]):
                if isinstance(i, int) and i < 0:
                    continue
                E.D.facts.append(z3.Implies(E.D.sz(i) >= 0, f(E.D.add(i, 1)) == step(E.D.sz(i), f(i))))
        return t
    return at


class Holds:
    """the destination holds a value described by check(g, st, got, label)"""

    def __init__(self, f):
        self.check = f


def nothing(E):
    def f(g, s, got, label):
        g.add(s, empty_cell(E, s, got), label + ": nothing")
    return Holds(f)


def anyval(E, t):
    def f(g, s, got, label):
        if not isinstance(got, AnyV):
            return g.add(s, False, label + ": %r instead of the decoded value" % (got,))
        g.add(s, norm_bool(got.t == t), label + ": the decoded value")
    return Holds(f)


def list_of(E, n, el):
    """a []interface{} of n elements, element j named by el(j)"""
    def f(g, s, got, label):
        if not isinstance(got, IfaceV) or got.ty is not anyslice(E):
            return g.add(s, False, label + ": a list")
        for s1, r in E.content(s, got.val):
            g.add(s1, E.D.eq(E.rlen(r), n), label + ": as many elements as announced")
            s1.assume(E.D.eq(E.rlen(r), n))
            j = E.fresh_sz(s1, "el", 0)
            s1.assume(E.D.lt(j, n))
            s1.idx = s1.idx + [j]
            for s2, x in E.rope_at(s1, r, j, None):
                anyval(E, el(j)).check(g, s2, x, label + ": element")
    return Holds(f)


def elements(E, t, p, d):
    """positions of the elements of a list that starts at p"""
    pos = arecur(E, "aelem", (p, t, d), lambda j, q: AEff(E, "abii", t, q, d).next)
    return pos, lambda j: AEff(E, "abii", t, pos(j), d)


def dec_type_def(E, st, a):
    dc, t, v, d = dec_args(E, a)
    r = st.ghost["READER"]
    V = E.ix[2]
    outs = []
    case = casesplit(st)
    cov = (r.val.oid,)

    def err(s):
        outs.append(Out(s, (ANYERR,), post={V: ANY}, covers=cov))

    def good(s, value, pos):
        outs.append(Out(s, (NIL,), post={V: value}, covers=cov, also=lambda g, s, res: g.add(s, E.D.eq(models.rd(s, r)[0], pos), "bytes consumed")))
    err(case(norm_bool(E.D.sz(d) > MAXDEPTH)))
    p = models.rd(st, r)[0]
    opt, arr, ext = (fld(E, st, t, n) for n in ("isOptional", "isArray", "isExtension"))
    for s, o in ((case(opt), True), (st, False)):
        q = p
        if o:
            b = CODECS["bool"].parse(E, s, p)[0]
            c2 = casesplit(s)
            sf = c2(bnot(band(*flat(b.ok))))
            c3 = casesplit(sf)
            good(c3(band(ext, at_end(E, sf, r, p))), nothing(E), p)
            err(sf)
            good(c2(bnot(b.val)), nothing(E), b.next)
            q = b.next
        c2 = casesplit(s)
        sa = c2(arr)
        n = CODECS["uvar"].parse(E, sa, q)[0]
        c3 = casesplit(sa)
        sf = c3(bnot(band(*flat(n.ok))))
        good(casesplit(sf)(band(ext, at_end(E, sf, r, q))), nothing(E), q)
        err(sf)
        pos, ef = elements(E, t, n.next, d)
        s1 = sa.fork()
        s1.univ.append(forall_univ(E, ForAll(n.val, lambda j, ef=ef: [ef(j).ok])))
        good(s1, list_of(E, n.val, lambda j, ef=ef: ef(j).val), pos(n.val))
        j = z3.Int(E.fresh_name("bad"))
        sa.assume(band(0 <= j, j < E.D.sz(n.val)))
        sa.assume(bnot(ef(j).ok))
        sa.idx = sa.idx + [j]
        err(sa)
        e = AEff(E, "abii", t, q, d)
        good(c2(e.ok), anyval(E, e.val), e.next)
        good(c2(band(e.eof, ext)), nothing(E), e.fpos)
        err(s)
    return outs


def dec_type_cands(E, S, a):
    dc, t, v, d = dec_args(E, a)
    p = models.rd(S.st, S.st.ghost["READER"])[0]
    pos, ef = elements(E, t, p, d)
    return Cand(int=[lambda k, ty: pos(k)], first=True)


DecContract("(chain.Abi).decodeType", "abit", dec_type_def, cands=dec_type_cands,
            doc="presence byte of optionals; missing extensions are left out; element count and elements; nesting is bounded")


def fields_of(E, st, fs, p, d1):
    """positions, maps and effects of decoding the fields of a struct that starts at p"""
    st = st.fork()
    ft = lambda j: field_at(E, st, fs, j)
    pos = arecur(E, "afield", (p, fs.args[0], d1), lambda j, q: AEff(E, "abit", ft(j)[1], q, d1).next)
    ef = lambda j: AEff(E, "abit", ft(j)[1], pos(j), d1)
    mm = arecur(E, "amap", (0, E.D.sz(p), fs.args[0], d1), lambda j, m: mapset(E, m, strkey(E, ft(j)[0]), ef(j).val))
    return pos, ef, mm


def map_is(E, term):
    def f(g, s, got, label):
        if not isinstance(got, IfaceV) or got.ty is not anymap(E):
            return g.add(s, False, label + ": a map")
        g.add(s, norm_bool(s.heap[got.val.oid].val.vals[0] == term), label + ": every field under its name")
    return Holds(f)


def pair_is(E, name, t):
    """[name, value]"""
    def f(g, s, got, label):
        if not isinstance(got, IfaceV) or got.ty is not anyslice(E):
            return g.add(s, False, label + ": a list")
        for s1, r in E.content(s, got.val):
            g.add(s1, E.D.eq(E.rlen(r), 2), label + ": two elements")
            if not (isinstance(E.rlen(r), int) and E.rlen(r) == 2):
                continue
            for s2, x in E.rope_at(s1, r, 0, None):
                if not isinstance(x, IfaceV) or x.ty.s != "string":
                    g.add(s2, False, label + ": the name of the alternative")
                    continue
                g.add(s2, norm_bool(strkey(E, x.val) == strkey(E, name)), label + ": the name of the alternative")
            for s2, x in E.rope_at(s1, r, 1, None):
                anyval(E, t).check(g, s2, x, label + ": value")
    return Holds(f)


DECODED = [("bool", "bool", "bool"), ("string", "string", "bytes")] + [(n, n, c) for n, c in PRIMS if n[:3] in ("uin", "int", "flo") and n not in ("int", "uint", "uint64")] + [
    ("uint64", "chain.Uint64", "u64"), ("varuint32", "uint", "uvar"), ("varint32", "int", "svar"), ("bytes", "chain.Bytes", None)] + [x for x in BUILTIN if x[2] is None]


def builtin_read(E, r, p, ty, c, V, a):
    """obligations on decoding a built-in type at p"""
    def f(g, s, res):
        iserr = res[0] is not NIL
        got = E.load(s, a[V])[0][1]
        cd = CODECS[c] if c else codec(codec_of(E, ty, "UnmarshalABI"), E, s, ())
        nm = short(ty.s)
        for alt in cd.parse(E, s, p):
            s3 = s.fork()
            if alt.guard is not True:
                s3.assume(alt.guard)
                if E.pr.check(s3, True) == z3.unsat:
                    continue
            if iserr:
                g.not_formula(s3, alt.ok, nm + ": error only for malformed or truncated input")
                continue
            g.formula(s3, alt.ok, nm + ": malformed or truncated input is an error")
            for x in flat(alt.ok):
                if isinstance(x, ForAll):
                    s3.univ.append(forall_univ(E, x))
            if not isinstance(got, IfaceV) or got.ty is not ty:
                g.add(s3, False, nm + ": type of the decoded value")
                continue
            g.val_eq(s3, got.val, alt.val, nm + ": decoded value")
            g.add(s3, E.D.eq(models.rd(s3, r)[0], alt.next), nm + ": bytes consumed")
    return f


def dec_inner_def(E, st, a):
    dc, t, v, d = dec_args(E, a)
    r = st.ghost["READER"]
    V = E.ix[2]
    outs = []
    case = casesplit(st)
    cov = (r.val.oid,)
    p = models.rd(st, r)[0]
    d1 = E.D.add(d, 1)

    def err(s):
        outs.append(Out(s, (ANYERR,), post={V: ANY}, covers=cov))

    def good(s, value, pos):
        outs.append(Out(s, (NIL,), post={V: value}, covers=cov, also=lambda g, s, res: g.add(s, E.D.eq(models.rd(s, r)[0], pos), "bytes consumed")))
    ref = fld(E, st, t, "ref").t
    s = case(norm_bool(ref != 0))
    e = AEff(E, "abit", ref, p, d1)
    good(casesplit(s)(e.ok), anyval(E, e.val), e.next)
    err(s)
    fs = all_fields(E, st, t)
    s = case(bnot(E.models.opq_isnil(E, st, fs)))
    n = E.oplen(fs.base, fs.args)
    pos, ef, mm = fields_of(E, s, fs, p, d1)
    s1 = s.fork()
    s1.univ.append(forall_univ(E, ForAll(n, lambda j: [ef(j).ok])))
    good(s1, map_is(E, mm(n)), pos(n))
    j = z3.Int(E.fresh_name("bad"))
    s.assume(band(0 <= j, j < E.D.sz(n)))
    s.assume(bnot(ef(j).ok))
    s.idx = s.idx + [j]
    err(s)
    vp = fld(E, st, t, "variant")
    s = case(norm_bool(vp.t != 0))
    ix = CODECS["uvar"].parse(E, s, p)[0]
    err(casesplit(s)(bnot(band(*flat(ix.ok)))))
    va = E.load(s, vp)[0][1]
    err(casesplit(s)(bnot(E.D.lt(ix.val, E.oplen(va.base, va.args)))))
    alt = E.opq(s, E.P.elem(va.ty), va.base + "[]", va.args + (E.D.sz(ix.val),)).t
    e = AEff(E, "abit", alt, ix.next, d1)
    name = fld(E, s, alt, "name")
    good(casesplit(s)(e.ok), pair_is(E, name, e.val), e.next)
    err(s)
    bk = strkey(E, fld(E, st, t, "baseName"))
    for n, gt, c in DECODED:
        ty = gotype(E, gt)
        if ty is None:
            continue
        s = case(norm_bool(bk == strkey(E, lit(n.encode()))))
        outs.append(Out(s, (ANY,), post={V: ANY}, covers=cov, also=builtin_read(E, r, p, ty, c, V, a)))
    err(st)
    return outs


def dec_inner_cands(E, S, a):
    dc, t, v, d = dec_args(E, a)
    p = models.rd(S.st, S.st.ghost["READER"])[0]
    pos, ef, mm = fields_of(E, S.st, all_fields(E, S.st, t), p, E.D.add(d, 1))
    return Cand(int=[lambda k, ty: pos(k), lambda k, ty: mm(k)], first=True)


DecContract("(chain.Abi).decodeInner", "abii", dec_inner_def, cands=dec_inner_cands,
            doc="alias target; fields in order, by name; name and value of the alternative the index selects; built-in types by their codecs; else an error")
