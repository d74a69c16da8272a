"""Contracts: generic decoding into values of any Go type (pkg/abi), by reflection."""
from .generic import *
from ..loops import Cand


def P0(E, st):
    r = st.ghost["READER"]
    return models.rd(st, r)[0]


class Eff:
    """what decoding by `name` into a location does, as functions of its type and the position"""

    def __init__(self, E, name, ty, p):
        self.E, self.name, self.ty, self.p = E, name, ty, E.D.sz(p)
        a = (ty, self.p)
        self.ok = E.uf("dok:" + name, a, B)
        self.eof = E.uf("deof:" + name, a, B)
        self.next = E.uf("dnext:" + name, a, I)
        self.fpos = E.uf("dfpos:" + name, a, I)
        self.val = E.uf("dval:" + name, a, I)
        N = z3.Int("N")
        for x in (self.next, self.fpos):
            reflm.ranged(E, x, 0, 1 << 32)
        reflm.once(E, ("eff", self.ok.get_id()), [z3.Implies(self.ok, z3.And(self.next >= self.p, self.next <= N)), z3.And(self.fpos >= self.p, self.fpos <= N)])
        E.keep += [self.ok, self.next]

    def mem(self, st, m, l):
        return self.E.uf("dec:" + self.name, (reflm.absorb(self.E, st, m, l), l, self.p), I)

    def fmem(self, st, m, l):
        return self.E.uf("decf:" + self.name, (reflm.absorb(self.E, st, m, l), l, self.p), I)


def target(E, st, a, fr=None, ins=None):
    """the location an interface value (a pointer) lets one decode into: for a pointer kept in a location, that location"""
    if not isinstance(a, AnyV):
        raise Unsupported("decoding into %r" % (a,))
    t = a.t
    if reflm.decl(t) == "iface":
        r = t.arg(0)
        if reflm.decl(r) == "addr":
            return r.arg(0)
        if reflm.decl(r).startswith("newptr"):
            return elem(E, r)
        if reflm.decl(r) in ("field", "index", "elem"):
            if not E.require(st, band(kind(E, r) == K["Ptr"], bnot(reflm.slot_nil(E, st, r))), "decoding into a pointer that is nil", fr or E.frame0, ins or {}):
                return None
            return r
    return elem(E, valueof(E, t))


def loctype(E, l):
    """the type of a location, by name"""
    typ(E, l)
    if decl(l) == "index" and getattr(E, "root_loc", None) is not None:
        return E.uf("telem", (typ(E, E.root_loc),), I)
    if reflm.fresh_of(l) is not None:
        return E.newtypes[reflm.fresh_of(l)]
    return typ(E, l)


def run_eff(E, st, name, l, r):
    """-> [(st, error)]"""
    ty = loctype(E, l)
    p = models.rd(st, r)[0]
    e = Eff(E, name, ty, p)
    out = []
    c = reflm.fresh_of(l)
    m = reflm.mem(st)[0]
    for s, good in E.split(st, e.ok):
        if good:
            models.rd_set(s, r, e.next)
            if c is not None:
                old = s.heap[c].val.vals[0]        # (what was decoded there before may still be in use elsewhere)
                s.heap[c] = s.heap[c].with_val(StructV((e.val if reflm.decl(old) == "zeroval" else E.uf("dval-over:" + name, (old, ty, e.p), I),)))
            else:
                reflm.mem_put(s, m=e.mem(s, m, l))
            out.append((s, NIL))
            continue
        models.rd_set(s, r, e.fpos)
        if c is None:
            reflm.mem_put(s, m=e.fmem(s, m, l))
        else:
            s.heap[c] = s.heap[c].with_val(StructV((z3.Int(E.fresh_name("junk")),)))
        for s2, eof in E.split(s, e.eof):
            out.append((s2, ErrV("EOF") if eof else models.err(E)))
    return out


def user_decode(E, fr, ins, st, args):
    """the decoder's function: decides by the value's type and the input; declining leaves everything as it was"""
    if not isinstance(args[1], AnyV):
        raise Unsupported("decode function on %r" % (args[1],))
    l = target(E, st, args[1], fr, ins)
    t = args[1].t
    out = []
    for s, bad in E.split(st, E.uf("fnerr", (t,), B)):
        if bad:
            models.rd_set(s, s.ghost["READER"], E.fresh_sz(s, "fpos", 0))
            reflm.mem_put(s, m=z3.Int(E.fresh_name("junkmem")))
            out.append((s, (E.fresh_bool("done"), models.err(E))))
            continue
        for s1, done in E.split(s, E.uf("fndone", (t,), B)):
            if not done:
                out.append((s1, (False, NIL)))
                continue
            for s2, e in run_eff(E, s1, "fn", l, s1.ghost["READER"]):
                out.append((s2, (True if e is NIL else E.fresh_bool("done"), e)))
    return out


def own_unmarshal(E, fr, ins, st, v, args):
    l = target(E, st, v, fr, ins)
    if l is None:
        return []
    return [(s, (e,)) for s, e in run_eff(E, st, "own", l, decoder_reader(E, st, args[0]))]


reflm.INVOKE["UnmarshalABI"] = own_unmarshal


class Decodes(Contract):
    """contract whose call sites see one effect on the location"""

    def __init__(self, name, eff, define, root, **kw):
        super().__init__(name, spec=lambda E, st, a: [Out(st, anything=True)], define=define, mode="int", setup=dec_setup(root), hooks={"abifn": user_decode, "text_is": reflm.tag_text}, **kw)
        self.eff, self.isroot = eff, root

    def apply(self, E, fr, ins, st, args):
        v = args[1]
        if reflm.MEM not in st.heap or not isinstance(v, (AnyV, RV)):
            return None
        l = target(E, st, v, fr, ins) if isinstance(v, AnyV) else v.t
        if l is None:
            return []
        if self.pre:
            for c in self.pre(E, st, l):
                if not E.require(st, c, "precondition of " + self.short, fr, ins):
                    return []
        if "decoder" in E.hooks:
            E.hooks["decoder"](E, fr, ins, st, args[0])
        return [(s, (e,)) for s, e in run_eff(E, st, self.eff, l, decoder_reader(E, st, args[0]))]

    pre = None


def dec_setup(root):
    def f(E, st, fn):
        d = mk_abi(E, st, "Decoder")
        st.ghost["READER"] = decoder_reader(E, st, d)
        v = z3.Int("v")
        reflm.mem_init(E, st, v if root else None)
        E.frame0 = Frame(fn, 1)
        if root:
            st.assume(band(kind(E, v) != 0, kind(E, v) != K["Ptr"], kind(E, v) != K["Interface"]))
            return [d, RV(v)]
        st.assume(dyn(E, v) != 0)
        return [d, AnyV(v)]
    return f


def recur(E, name, init, step):
    """a sequence defined by its first element and its successor function"""
    f = lambda j: E.uf(name, (E.D.sz(j),), I)

    def at(j):
        t = f(j)
        if ("recur", t.get_id()) not in E.ufs:
            E.ufs[("recur", t.get_id())] = t
            E.D.facts.append(f(0) == init)
            for i in ([j] if isinstance(j, int) else [j, E.D.sub(j, 1)]):
                if isinstance(i, int) and i < 0:
                    continue
                E.D.facts.append(z3.Implies(E.D.sz(i) >= 0, f(E.D.add(i, 1)) == step(E.D.sz(i), f(i))))
        return t
    return at


def final(E, pos=None, m=None, root=None):
    """obligations on the state after success"""
    def f(g, s, res):
        gm = reflm.mem(s)
        if pos is not None:
            g.add(s, E.D.eq(P0(E, s), pos), "bytes consumed")
        if m is not None:
            g.add(s, norm_bool(gm[0] == (m(s) if callable(m) else m)), "parts decoded")
        if root is not None:
            root(g, s, gm)
    return f


def unchanged_root(E, st):
    _, rid, n = reflm.mem(st)

    def f(g, s, gm):
        g.add(s, norm_bool(E.D.sz(gm[1]) == E.D.sz(rid)), "the value itself stays")
    return f


def dec_covers(E, st):
    return (reflm.MEM, st.ghost["READER"].val.oid)


class ErrIs:
    """an error that is io.EOF or one that is not"""

    def __init__(self, eof):
        self.eof = eof

    def check(self, g, st, got, label):
        g.add(st, got is not NIL, label + ": an error is returned")
        if isinstance(got, ErrV) and got.kind != "end":
            g.add(st, (got.kind == "EOF") == self.eof, label + ": io.EOF exactly when the part reported it")


def by_eff(E, st, name, l):
    """outcomes: exactly that effect"""
    cov = dec_covers(E, st)
    e = Eff(E, name, typ(E, l), P0(E, st))
    m = reflm.mem(st)[0]
    s1, s2, s3 = st.fork(), st.fork(), st
    s1.assume(e.ok)
    s2.assume(band(z3.Not(e.ok), e.eof))
    s3.assume(band(z3.Not(e.ok), z3.Not(e.eof)))
    return [Out(s1, (NIL,), covers=cov, also=final(E, e.next, e.mem(st, m, l))), Out(s2, (ErrIs(True),), covers=cov), Out(s3, (ErrIs(False),), covers=cov)]


def decode_def(E, st, a):
    t = a[1].t
    d = dyn(E, t)
    cov = dec_covers(E, st)
    fe, fd = E.uf("fnerr", (t,), B), E.uf("fndone", (t,), B)
    r = valueof(E, t)
    l = elem(E, r)
    s = st.fork()
    s.assume(fe)
    outs = [Out(s, (ANYERR,), covers=cov)]
    st.assume(z3.Not(fe))
    s = st.fork()
    s.assume(fd)
    outs += by_eff(E, s, "fn", l)
    st.assume(z3.Not(fd))
    p = P0(E, st)
    m0 = reflm.mem(st)[0]
    for n, c in PRIMS:
        ty = basic(E, n)
        pt = ty and (E.P.byname.get("*" + ty.s) or E.P.byname.get("*" + n))
        if pt is None:
            continue
        s = st.fork()
        s.assume(d == tyid(E, pt))
        alt = CODECS[c].parse(E, s, p)[0]
        okc = band(*flat(alt.ok))
        s1, s2 = s.fork(), s
        s1.assume(okc)
        s2.assume(bnot(okc))

        def cell(g, s, res, alt=alt, pt=pt):
            got = E.load(s, as_type(E, s, t, pt))[0][1]
            g.val_eq(s, got, alt.val, "decoded value")
            final(E, alt.next, m0)(g, s, res)
        outs += [Out(s1, (NIL,), covers=cov, also=cell), Out(s2, (ANYERR,), covers=cov)]
        st.assume(d != tyid(E, pt))
    s = st.fork()
    bad = norm_bool(z3.Or(kind(E, r) != K["Ptr"], isnil(E, r)))
    s.assume(bad)
    outs.append(Out(s, (ANYERR,), covers=cov))
    st.assume(bnot(bad))
    s = st.fork()
    s.assume(kind(E, l) == K["Ptr"])
    outs += by_eff(E, s, "gen", l)
    st.assume(kind(E, l) != K["Ptr"])
    s = st.fork()
    s.assume(kind(E, l) == K["Interface"])
    outs.append(Out(s, anything=True))
    st.assume(kind(E, l) != K["Interface"])
    outs += by_eff(E, st, "val", l)
    return outs


Decodes("(*abi.Decoder).Decode", "gen", decode_def, False,
        doc="the decoder's function decides first; pointers to built-in types by their codecs; pointers are allocated; everything else by reflection")


def seq_recur(E, st, kn, r, rid, p0, m0):
    """(positions, memories, ok) of decoding the parts of r in order"""
    st = st.fork()
    key = "%s:%s" % (kn, rid)
    ty = typ(E, r)
    If = z3.If
    if kn in ("Array", "Slice"):
        loc = lambda j: E.uf("index", (rid, E.D.sz(j)), I)
        eff = lambda j, p: Eff(E, "gen", E.uf("telem", (ty,), I), p)
        pos = recur(E, "pos:" + kn, p0, lambda j, p: eff(j, p).next)
        mm = recur(E, "mem:" + key, m0, lambda j, m: eff(j, pos(j)).mem(st, m, loc(j)))
        return pos, mm, lambda j: eff(j, pos(j)).ok
    if kn == "Map":
        k1 = lambda p: Eff(E, "gen", E.uf("tkey", (ty,), I), p)
        v1 = lambda p: Eff(E, "gen", E.uf("telem", (ty,), I), k1(p).next)
        pos = recur(E, "pos:" + kn, p0, lambda j, p: v1(p).next)
        mm = recur(E, "mem:" + key, m0, lambda j, m: reflm.mapset(E, m, rid, k1(pos(j)).val, v1(pos(j)).val))
        return pos, mm, lambda j: norm_bool(z3.And(k1(pos(j)).ok, v1(pos(j)).ok))
    loc = lambda j: E.uf("field", (rid, E.D.sz(j)), I)
    fty = lambda j: E.uf("type", (loc(j),), I)
    opt, var, ext = [lambda j, x=x: zb(reflm.tag_is(E, typ(E, r), j, x)) for x in (b"optional", b"variant", b"extension")]

    def parts(j, p):
        b = CODECS["bool"].parse(E, st, p)[0]
        return zb(band(*flat(b.ok))), zb(b.val), Eff(E, "gen", fty(j), E.D.add(p, 1)), Eff(E, "variant", fty(j), p), Eff(E, "gen", fty(j), p)

    def nextp(j, p):
        bok, b, eo, ev, e = parts(j, p)
        return If(opt(j), If(b, eo.next, E.D.add(p, 1)), If(var(j), ev.next, If(z3.And(ext(j), z3.Not(e.ok)), e.fpos, e.next)))
    pos = recur(E, "pos:" + key, p0, nextp)

    def nextm(j, m):
        bok, b, eo, ev, e = parts(j, pos(j))
        l = loc(j)
        z = reflm.rset(E, st, m, l, reflm.zeroval(E, fty(j)))
        return If(opt(j), If(b, eo.mem(st, m, l), z), If(var(j), ev.mem(st, m, l), If(z3.And(ext(j), z3.Not(e.ok)), z, e.mem(st, m, l))))

    def okj(j):
        bok, b, eo, ev, e = parts(j, pos(j))
        return If(opt(j), z3.And(bok, z3.Or(z3.Not(b), eo.ok)), If(var(j), ev.ok, If(ext(j), z3.Or(e.ok, e.eof), e.ok)))
    mm = recur(E, "mem:" + key, m0, nextm)
    return pos, mm, okj


def all_parts(E, st, kn, r, n, p0, root):
    """outcomes of decoding n parts: all of them, or an error when one fails"""
    cov = dec_covers(E, st)
    m0, rid0, n0 = reflm.mem(st)
    s = st.fork()
    pos, _, okj = seq_recur(E, s, kn, r, rid0, p0, m0)
    s.univ.append(forall_univ(E, ForAll(n, lambda j: [okj(j)])))

    def m(s):
        rid = reflm.mem(s)[1]
        return seq_recur(E, s, kn, r, rid, p0, m0)[1](n)
    outs = [Out(s, (NIL,), covers=cov, also=final(E, pos(n), m, root))]
    j = z3.Int(E.fresh_name("bad"))
    s2 = st.fork()
    s2.assume(band(0 <= j, j < E.D.sz(n)))
    s2.assume(bnot(okj(j)))
    s2.idx = s2.idx + [j]
    return outs + [Out(s2, (ANYERR,), covers=cov)]


def value_decode_def(E, st, a):
    r = a[1].t
    k = kind(E, r)
    ty = typ(E, r)
    outs = []
    cov = dec_covers(E, st)
    m0, x0, n0 = reflm.mem(st)
    p0 = P0(E, st)

    def case(c):
        s = st.fork()
        s.assume(c)
        st.assume(bnot(c))
        return s
    keep = unchanged_root(E, st)
    u = E.P.byname[AB + "Unmarshaler"]
    named = E.D.lt(0, E.oplen("tName", (ty,)))
    s = case(band(named, impl(E, iface(E, reflm.addr(E, r)), u)))
    outs += by_eff(E, s, "own", r)
    s = case(norm_bool(k == K["Array"]))
    outs += all_parts(E, s, "Array", r, n0, p0, keep)
    s = case(norm_bool(k == K["Struct"]))
    outs += all_parts(E, s, "Struct", r, tnf(E, ty), p0, keep)
    for kn in ("Slice", "Map"):
        s = case(norm_bool(k == K[kn]))
        alt = CODECS["uvar"].parse(E, s, p0)[0]
        okc = band(*flat(alt.ok))
        s2 = s.fork()
        s2.assume(bnot(okc))
        outs.append(Out(s2, (ANYERR,), covers=cov))
        s.assume(okc)

        def root(g, s, gm, kn=kn, n=alt.val):
            if kn == "Slice":
                g.add(s, E.D.eq(gm[2], n), "as many elements as announced")
                return
            rid = gm[1]
            if not reflm.decl(rid).startswith("mkmap"):
                g.add(s, norm_bool(z3.And(rid == x0, z3.Not(isnil(E, x0)), length(E, x0) == 0)), "the map held nothing else")
        outs += all_parts(E, s, kn, r, alt.val, alt.next, root)
    for kn, c in (("Uint64", "u64"), ("Uint32", "u32"), ("Int64", "i64"), ("Int32", "i32")):
        s = case(norm_bool(k == K[kn]))
        alt = CODECS[c].parse(E, s, p0)[0]
        okc = band(*flat(alt.ok))
        s2 = s.fork()
        s2.assume(bnot(okc))
        outs.append(Out(s2, (ANYERR,), covers=cov))
        s.assume(okc)
        v = reflm.numval(E, ty, alt.val, kn[0] == "I")
        outs.append(Out(s, (NIL,), covers=cov, also=final(E, alt.next, m0, lambda g, s, gm, v=v: g.add(s, norm_bool(E.D.sz(gm[1]) == v), "decoded value"))))
    outs.append(Out(st, (ANYERR,), covers=cov))
    return outs


def value_cands(E, S, a):
    """offered loop invariants: position and memory after K parts; the destination slice is as long as needed so far"""
    r = a[1].t
    st = S.st
    m, rid, n = reflm.mem(st)
    p = P0(E, st)
    for kn in ("Slice", "Map", "Array", "Struct"):
        if E.proves(st, norm_bool(kind(E, r) == K[kn])):
            break
    else:
        return Cand()
    pos, mm, okj = seq_recur(E, st, kn, r, rid, p, m)
    vals = [lambda k, ty: pos(k), lambda k, ty: mm(k)]
    if kn == "Slice":
        vals.append(lambda k, ty: z3.If(E.D.sz(k) <= E.D.sz(n), E.D.sz(n), E.D.sz(k)))
    return Cand(int=vals, first=True)


def kinds(p):
    """verify for values satisfying p"""
    def f(E, st, fn):
        args = dec_setup(True)(E, st, fn)
        st.assume(p(kind(E, args[1].t)))
        return args
    return f


def decode_value(cname, p):
    c = Decodes("(*abi.Decoder).DecodeValue", "val", value_decode_def, True, cands=value_cands, cname=cname,
                doc="own codec of named types; parts in order: elements, fields (optional ones behind a presence byte, trailing extensions may be missing), map entries; integers")
    c.setup = kinds(p)
    c.pre = lambda E, st, l: [band(kind(E, l) != 0, kind(E, l) != K["Ptr"], kind(E, l) != K["Interface"])]
    return c


PARTS = ("Array", "Slice", "Map", "Struct")
for n in PARTS:
    decode_value("(*abi.Decoder).DecodeValue@" + n, lambda k, n=n: k == K[n])
c = decode_value(None, lambda k: z3.And(*[k != K[n] for n in PARTS]))
c.parts = tuple(full("(*abi.Decoder).DecodeValue@" + n) for n in PARTS)


def nil_rset(E, st, m, l):
    """setting a pointer that is nil to nil changes nothing"""
    z = reflm.rset(E, st, m, l, reflm.zeroval(E, E.uf("type", (l,), I)))
    E.D.facts.append(z3.Implies(zb(reflm.nil_in(E, st, m, l)), z == m))
    return z


def variant_mem(E, st, l, idx):
    """memory after clearing the first k fields other than the chosen one"""
    fl = lambda j: E.uf("field", (l, E.D.sz(j)), I)
    return recur(E, "vmem:%s" % l, reflm.mem(st)[0], lambda j, m: z3.If(j == E.D.sz(idx), m, nil_rset(E, st, m, fl(j))))


def variant_setup(E, st, fn):
    args = dec_setup(False)(E, st, fn)
    t = args[1].t
    r = valueof(E, t)
    l = elem(E, r)
    st.assume(z3.Not(zb(impl(E, t, E.P.byname[AB + "Unmarshaler"]))))
    st.assume(z3.Implies(kind(E, r) == K["Ptr"], z3.And(kind(E, l) != K["Ptr"], kind(E, l) != K["Interface"])))
    st.univ.append(forall_univ(E, ForAll(tnf(E, typ(E, l)), lambda j: [kind(E, field(E, l, j)) == K["Ptr"]])))
    st.idx = st.idx + [CODECS["u8"].parse(E, st.fork(), P0(E, st))[0].val]
    return args


def variant_def(E, st, a):
    t = a[1].t
    r = valueof(E, t)
    l = elem(E, r)
    cov = dec_covers(E, st)
    p = P0(E, st)
    outs = []

    def case(c):
        s = st.fork()
        s.assume(c)
        st.assume(bnot(c))
        return s
    fails = lambda c: outs.append(Out(case(c), (ANYERR,), covers=cov))
    fails(norm_bool(z3.Or(kind(E, r) != K["Ptr"], isnil(E, r))))
    b = CODECS["u8"].parse(E, st, p)[0]
    fails(bnot(band(*flat(b.ok))))
    n = tnf(E, typ(E, l))
    fails(norm_bool(z3.Or(kind(E, l) != K["Struct"], E.D.sz(b.val) >= n)))
    f = field(E, l, b.val)
    e = Eff(E, "gen", E.uf("telem", (typ(E, f),), I), b.next)
    fails(z3.Not(e.ok))

    def m(s):
        return reflm.rset(E, s, variant_mem(E, st, l, b.val)(n), f, E.uf("ptrval", (e.val,), I))
    outs.append(Out(st, (NIL,), covers=cov, also=final(E, e.next, m)))
    return outs


def variant_cands(E, S, a):
    t = a[1].t
    l = elem(E, valueof(E, t))
    b = CODECS["u8"].parse(E, S.st, E.D.sub(P0(E, S.st), 1))[0]
    return Cand(int=[lambda k, ty: variant_mem(E, S.st, l, b.val)(k)])


Decodes("(*abi.Decoder).DecodeVariant", "variant", variant_def, False, cands=variant_cands,
        doc="one index byte chooses the field: it becomes a pointer to the decoded value, all others nil; indexes without a field are errors")
CONTRACTS[full("(*abi.Decoder).DecodeVariant")].setup = variant_setup


# ---------------------------------------------------------------- the chain package's decoders

class DecoderOf:
    """a decoder on that reader whose function asks fn (if any) first and then reads library types by their own codecs"""

    def __init__(self, r, fn):
        self.r, self.fn = r, fn

    def check(self, g, st, got, label):
        E = g.E
        v = E.load(st, got)[0][1]
        fn = None
        for (n, t, _), x in zip(E.P.fields(st.heap[got.oid].ty), v.vals):
            if t.s == "io.Reader":
                g.add(st, same(x, self.r), label + ": reads from the given reader")
            elif E.P.kind(t) == "func":
                fn = x
        if not isinstance(fn, FuncV):
            return g.add(st, False, label + ": has a decode function")
        t = z3.Int("v")
        d = dyn(E, t)
        lib = lib_types(E, "UnmarshalABI")
        st = st.fork()
        st.assume(d != 0)
        p = P0(E, st)
        l = elem(E, valueof(E, t))
        m0 = reflm.mem(st)[0]
        before = {}
        for ty in lib:
            pt = E.P.byname.get("*" + ty.s)
            if pt is not None:
                before[ty] = E.load(st, as_type(E, st, t, pt))[0][1]
        for s, (done, e) in E.dispatch(E.frame0, {"op": "Call", "line": 0}, st.fork(), fn, [got, AnyV(t)]):
            iserr = e is not NIL
            if self.fn:
                fe, fd = E.uf("fnerr", (t,), B), E.uf("fndone", (t,), B)
                ef = Eff(E, "fn", typ(E, l), p)
                s1 = s.fork()
                s1.assume(fe)
                if E.pr.check(s1, True) != z3.unsat:
                    g.add(s1, iserr, label + ": an error of the custom function is returned")
                s.assume(z3.Not(fe))
                s1 = s.fork()
                s1.assume(fd)
                if E.pr.check(s1, True) != z3.unsat:
                    g.add(s1, ef.ok if not iserr else z3.Not(ef.ok), label + ": an error exactly when the custom function fails")
                    if not iserr:
                        g.add(s1, done, label + ": the custom function takes precedence")
                        g.add(s1, E.D.eq(P0(E, s1), ef.next), label + ": custom bytes only")
                        g.add(s1, norm_bool(reflm.mem(s1)[0] == ef.mem(s1, m0, l)), label + ": custom value")
                s.assume(z3.Not(fd))
            g.add(s, norm_bool(reflm.mem(s)[0] == m0), label + ": nothing else changed")
            for ty, (c, ptr) in lib.items():
                pt = E.P.byname.get("*" + ty.s)
                if pt is None:
                    continue
                s1 = s.fork()
                s1.assume(d == tyid(E, pt))
                s.assume(d != tyid(E, pt))
                if E.pr.check(s1, True) == z3.unsat:
                    continue
                nm = label + ": " + short(ty.s)
                cell = E.load(s1, as_type(E, s1, t, pt))[0][1]
                for s2, dn in ([(s1, True)] if iserr else E.split(s1, done)):
                    if not dn:
                        g.add(s2, E.D.eq(P0(E, s2), p), nm + ": nothing read when left to the generic path")
                        g.val_eq(s2, cell, before[ty], nm + ": unchanged when left to the generic path")
                        continue
                    for alt in CODECS[c].parse(E, s2, p):
                        s3 = s2.fork()
                        if alt.guard is not True:
                            s3.assume(alt.guard)
                            if E.pr.check(s3, True) == z3.unsat:
                                continue
                        if iserr:
                            g.not_formula(s3, alt.ok, nm + ": error only for malformed or truncated input")
                            continue
                        g.formula(s3, alt.ok, nm + ": malformed or truncated input is an error")
                        for x in flat(alt.ok):
                            if isinstance(x, ForAll):
                                s3.univ.append(forall_univ(E, x))
                        g.val_eq(s3, cell, alt.val, nm + ": decoded value")
                        g.add(s3, E.D.eq(P0(E, s3), alt.next), nm + ": bytes consumed")
            if E.pr.check(s, True) != z3.unsat:
                g.add(s, band(not iserr, bnot(done)), label + ": other types are left to the generic path")
                g.add(s, E.D.eq(P0(E, s), p), label + ": nothing read for other types")


def decoder_setup(fn):
    def f(E, st, f_):
        r = mk_reader(E, st)
        st.ghost["READER"] = r
        reflm.mem_init(E, st)
        return [r] + ([FuncV("abstract:fn", (), user_decode)] if fn else [])
    return f


for n, fn in (("NewDecoder", False), ("NewCustomDecoder", True)):
    Contract("chain." + n, spec=lambda E, st, a, fn=fn: [Out(st, (DecoderOf(a[0], fn),))], mode="int", setup=decoder_setup(fn), noapply=True,
             hooks={"abifn": user_decode, "text_is": reflm.tag_text},
             doc="library types by their own codecs; other types by the generic path" + ("; the custom function is asked first" if fn else ""))
