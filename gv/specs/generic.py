"""Contracts: generic encoding of values of any Go type (pkg/abi), by reflection."""
from ..contract import *
from ..spec import *
from ..reflm import *
from .. import reflm

A = lambda i: (lambda E, st, args: args[i])
AB = MOD + "abi."


class Term(Codec):
    """encoding of the value a term names, as an uninterpreted function"""
    atomic = True

    def wlen(self, E, st, v):
        n = E.uf("wlen:" + self.name, (v,), I)
        return reflm.ranged(E, n, 0, 1 << 42)


Term("gen")       # Encode(v)
Term("genv")      # EncodeValue(r)
Term("own")       # v.MarshalABI
Term("fn")        # the encoder's function


def ok(E, name, t):
    return E.uf("ok:" + name, (t,), B)


def opaque_write(name):
    """call sites: either the whole encoding is written or an error is returned"""
    def f(E, st, a):
        if not isinstance(a[1], (AnyV, RV)):
            return [Out(st, anything=True)]
        t = a[1].t
        s2 = st.fork()
        st.assume(ok(E, name, t))
        s2.assume(bnot(ok(E, name, t)))
        return [Out(st, (NIL,), emit={0: CODECS[name].node(E, st, t)}), Out(s2, (ANYERR,), wany=(0,))]
    return f


def user_encode(E, fr, ins, st, args):
    """the encoder's function: what it does is a function of the value; it returns write errors"""
    if not isinstance(args[1], AnyV):
        raise Unsupported("encode function on %r" % (args[1],))
    t = args[1].t
    w = encoder_writer(E, st, args[0])
    out = []
    for s, bad in E.split(st, E.uf("fnerr", (t,), B)):
        if bad:
            models.emit_junk(E, s, w)
            out.append((s, (E.fresh_bool("done"), models.err(E))))
            continue
        for s1, done in E.split(s, E.uf("fndone", (t,), B)):
            if not done:
                out.append((s1, (False, NIL)))
                continue
            for s2, k in models.emit(E, s1, w, CODECS["fn"].node(E, s1, t)):
                out.append((s2, (True, NIL) if k else (E.fresh_bool("done"), models.err(E))))
    return out


def own_marshal(E, fr, ins, st, v, args):
    """v.MarshalABI(enc): the value's own codec"""
    out = []
    w = encoder_writer(E, st, args[0])
    for s, good in E.split(st, ok(E, "own", v.t)):
        if not good:
            models.emit_junk(E, s, w)
            out.append((s, (models.err(E),)))
            continue
        for s2, k in models.emit(E, s, w, CODECS["own"].node(E, s, v.t)):
            out.append((s2, (NIL if k else models.err(E),)))
    return out


reflm.INVOKE["MarshalABI"] = own_marshal

PRIMS = [("bool", "bool"), ("string", "bytes"), ("uint8", "u8"), ("uint16", "u16"), ("uint32", "u32"), ("uint64", "u64"), ("int8", "i8"), ("int16", "i16"),
         ("int32", "i32"), ("int64", "i64"), ("float32", "f32"), ("float64", "f64"), ("int", "svar"), ("uint", "uvar"), ("[]byte", "bytes")]


def basic(E, n):
    return E.P.byname.get(n) or E.P.byname.get({"uint8": "byte", "byte": "uint8", "[]byte": "[]uint8", "int32": "rune"}.get(n, n))


def encode_def(E, st, a):
    """the encoder's function first; then built-in types; then reflection"""
    t = a[1].t
    d = dyn(E, t)
    fe, fd = E.uf("fnerr", (t,), B), E.uf("fndone", (t,), B)
    s = st.fork()
    s.assume(fe)
    outs = [Out(s, (ANYERR,), wany=(0,))]
    st.assume(z3.Not(fe))
    s = st.fork()
    s.assume(fd)
    outs.append(Out(s, (NIL,), emit={0: CODECS["fn"].node(E, s, t)}))
    st.assume(z3.Not(fd))
    for n, c in PRIMS:
        ty = basic(E, n)
        if ty is None:
            continue
        s = st.fork()
        s.assume(d == tyid(E, ty))
        outs.append(Out(s, (NIL,), emit={0: CODECS[c].node(E, s, norm_seq(E, s, as_type(E, s, t, ty)))}))
        st.assume(d != tyid(E, ty))
    r = valueof(E, t)
    s = st.fork()
    s.assume(ok(E, "genv", r))
    st.assume(z3.Not(ok(E, "genv", r)))
    outs += [Out(s, (NIL,), emit={0: CODECS["genv"].node(E, s, r)}), Out(st, (ANYERR,), wany=(0,))]
    return outs


def any_setup(cls):
    def f(E, st, fn):
        return [mk_abi(E, st, "Encoder"), cls(z3.Int("v"))]
    return f


Contract("(*abi.Encoder).Encode", spec=opaque_write("gen"), define=encode_def, mode="int", setup=any_setup(AnyV), hooks={"abifn": user_encode, "text_is": reflm.tag_text},
         doc="the encoder's function decides first; built-in types by their codecs; everything else by reflection; errors are returned")


def each(E, st, n, cases, okj, head):
    """the outcomes of encoding n parts: all parts (as a generator), or an error when some part fails"""
    var = z3.Int(E.fresh_name("part"))
    s = st.fork()
    s.univ.append(forall_univ(E, ForAll(n, lambda j: [okj(j)])))
    ln = E.fresh_sz(s, "parts", 0)
    body = Rope((Gen(Generator(var, cases(s, var)), 0, n, ln),))
    outs = [Out(s, (NIL,), emit={0: E.cat(head, body)})]
    j = z3.Int(E.fresh_name("bad"))
    s2 = st.fork()
    s2.assume(band(0 <= j, j < E.D.sz(n)))
    s2.assume(bnot(okj(j)))
    s2.idx = s2.idx + [j]
    outs.append(Out(s2, (ANYERR,), wany=(0,)))
    return outs


def is_optional(E, st, r, j):
    return reflm.tag_is(E, typ(E, r), j, b"optional")


def value_def(E, st, a):
    r = a[1].t
    k = kind(E, r)
    outs = []

    def case(c):
        s = st.fork()
        s.assume(c)
        st.assume(bnot(c))
        return s
    gen = lambda s, t: CODECS["gen"].node(E, s, t)
    good = lambda t: ok(E, "gen", t)
    s = case(norm_bool(z3.Or(k == 0, z3.And(k == K["Ptr"], isnil(E, r)))))
    outs.append(Out(s, (ANYERR,), wany=(0,)))
    t = iface(E, r)
    m = E.P.byname[AB + "Marshaler"]
    s = case(band(dyn(E, t) != 0, impl(E, t, m)))
    s2 = s.fork()
    s.assume(ok(E, "own", t))
    s2.assume(z3.Not(ok(E, "own", t)))
    outs += [Out(s, (NIL,), emit={0: CODECS["own"].node(E, s, t)}), Out(s2, (ANYERR,), wany=(0,))]
    # pointers: what they point at
    s = case(norm_bool(k == K["Ptr"]))
    e = iface(E, elem(E, r))
    s2 = s.fork()
    s.assume(good(e))
    s2.assume(z3.Not(good(e)))
    outs += [Out(s, (NIL,), emit={0: gen(s, e)}), Out(s2, (ANYERR,), wany=(0,))]
    el = lambda j: iface(E, index(E, r, j))
    n = length(E, r)
    for kn in ("Slice", "Array"):
        s = case(norm_bool(k == K[kn]))
        head = CODECS["uvar"].node(E, s, n) if kn == "Slice" else Rope()
        outs += each(E, s, n, lambda s, j: [(True, gen(s, el(j)))], lambda j: good(el(j)), head)
    s = case(norm_bool(k == K["Struct"]))
    fd = lambda j: iface(E, field(E, r, j))
    opt = lambda s, j: is_optional(E, s, r, j)
    ex = lambda j: bnot(iszero(E, field(E, r, j)))
    b1 = CODECS["bool"].node

    def fcases(s, j):
        return [(bnot(opt(s, j)), gen(s, fd(j))), (band(opt(s, j), bnot(ex(j))), b1(E, s, False)), (band(opt(s, j), ex(j)), E.cat(b1(E, s, True), gen(s, fd(j))))]
    outs += each(E, s, tnf(E, typ(E, r)), fcases, lambda j: bor(band(opt(st, j), bnot(ex(j))), good(fd(j))), Rope())
    s = case(norm_bool(k == K["Map"]))
    mk = lambda j: mapkey(E, r, j)
    key = lambda j: iface(E, mk(j))
    val = lambda j: iface(E, mapindex(E, r, mk(j)))
    outs += each(E, s, n, lambda s, j: [(True, E.cat(gen(s, key(j)), gen(s, val(j))))], lambda j: band(good(key(j)), good(val(j))), CODECS["uvar"].node(E, s, n))
    for kn, c in (("Uint64", "u64"), ("Uint32", "u32"), ("Int64", "i64"), ("Int32", "i32")):
        s = case(norm_bool(k == K[kn]))
        outs.append(Out(s, (NIL,), emit={0: CODECS[c].node(E, s, number(E, r, kn[0] == "I"))}))
    outs.append(Out(st, (ANYERR,), wany=(0,)))
    return outs


Contract("(*abi.Encoder).EncodeValue", spec=opaque_write("genv"), define=value_def, mode="int", setup=any_setup(RV), hooks={"abifn": user_encode, "text_is": reflm.tag_text},
         doc="by kind: own codec, pointee, count and elements, fields in declaration order (optional ones with a presence byte), map entries; else an error")


# ---------------------------------------------------------------- the chain package's encoders

def lib_types(E, method):
    """named types of pkg/chain whose own codec is under contract: type -> (codec, pointer receiver?)"""
    out = {}
    for c in CONTRACTS.values():
        if c.name.endswith(")." + method) and c.name.startswith("("):
            rn = c.name[1:c.name.index(")")]
            ty = E.P.byname.get(rn.lstrip("*"))
            w = c.writes or c.reads
            if ty is not None and w:
                out[ty] = (w[1], rn.startswith("*"))
    for n, c in PRIMS:          # (built-in types: what the generic path does anyway)
        if basic(E, n) is not None:
            out.setdefault(basic(E, n), (c, False))
    return out


def layout(E, ty, byval):
    """what the generic path writes for a value of a Go type, as a flat list of codecs (None: not a fixed sequence)"""
    if ty in byval:
        return flat_codec(byval[ty])
    k = E.P.kind(ty)
    if k == "struct":
        out = []
        for n, t, tag in E.P.fields(ty):
            l = layout(E, t, byval)
            if l is None or "eosio" in (tag or ""):
                return None
            out += l
        return out
    if k == "array":
        l = layout(E, E.P.elem(ty), byval)
        return None if l is None else l * E.P.under(ty).n
    if ty.k == "basic":
        c = dict((basic(E, n), c) for n, c in PRIMS).get(ty)
        return [c] if c else None
    if k == "int":
        c = {"uint64": "u64", "uint32": "u32", "int64": "i64", "int32": "i32"}.get(E.P.under(ty).name)
        return [c] if c else None
    return None


def flat_codec(c):
    c = CODECS[c]
    if isinstance(c, Struct):
        return [x for _, p in c.parts for x in flat_codec(p)]
    if isinstance(c, Fixed):
        return ["u8"] * c.fixed
    return [c.name]


def generic_same(E, ty, codec, ptr, lib):
    """the generic path (no fast path) gives the same bytes: the type marshals itself, or its Go layout is its wire layout"""
    if not ptr:
        return True
    byval = {t: c for t, (c, p) in lib.items() if not p}
    return layout(E, ty, byval) == flat_codec(codec)


class EncoderOf:
    """an encoder on that writer whose function asks fn (if any) first and then writes library types by their own codecs"""

    def __init__(self, w, fn):
        self.w, self.fn = w, fn

    def check(self, g, st, got, label):
        E = g.E
        v = E.load(st, got)[0][1]
        fn = None
        for (n, t, _), x in zip(E.P.fields(st.heap[got.oid].ty), v.vals):
            if t.s == "io.Writer":
                g.add(st, same(x, self.w), label + ": writes to the given writer")
            elif E.P.kind(t) == "func":
                fn = x
        if not isinstance(fn, FuncV):
            return g.add(st, False, label + ": has an encode function")
        t = z3.Int("v")
        d = dyn(E, t)
        lib = lib_types(E, "MarshalABI")
        fr = E.frame0
        for s, (done, e) in E.dispatch(fr, {"op": "Call", "line": 0}, st.fork(), fn, [got, AnyV(t)]):
            o = s.heap[self.w.val.oid].val.vals
            iserr = e is not NIL
            if o[1] is True:
                g.add(s, iserr, label + ": write errors are returned by its function")
                continue
            wrote = o[0]
            nothing = not wrote.segs
            if self.fn:
                fe, fd = E.uf("fnerr", (t,), B), E.uf("fndone", (t,), B)
                s1 = s.fork()
                s1.assume(fe)
                if E.pr.check(s1, True) != z3.unsat:
                    g.add(s1, iserr, label + ": an error of the custom function is returned")
                s.assume(z3.Not(fe))
                s1 = s.fork()
                s1.assume(fd)
                if E.pr.check(s1, True) != z3.unsat:
                    g.add(s1, band(not iserr, done), label + ": the custom function takes precedence")
                    g.rope_eq(s1, wrote, CODECS["fn"].node(E, s1, t), label + ": custom bytes only")
                s.assume(z3.Not(fd))
            for ty, (c, ptr) in lib.items():
                s1 = s.fork()
                s1.assume(d == tyid(E, ty))
                s.assume(d != tyid(E, ty))
                if E.pr.check(s1, True) == z3.unsat:
                    continue
                nm = label + ": " + short(ty.s)
                g.add(s1, not iserr, nm + ": no error unless the writer fails")
                for s2, dn in E.split(s1, done):
                    if dn:
                        g.rope_eq(s2, wrote, CODECS[c].node(E, s2, norm_seq(E, s2, as_type(E, s2, t, ty))), nm + " by its own codec")
                    else:
                        g.rope_eq(s2, wrote, Rope(), nm + ": nothing written when left to the generic path")
                        g.add(s2, generic_same(E, ty, c, ptr, lib), nm + ": the generic path writes the same bytes")
            for ty, (c, ptr) in lib.items():
                pt = E.P.byname.get("*" + ty.s)
                if pt is None:
                    continue
                s1 = s.fork()
                s1.assume(d == tyid(E, pt))
                if E.pr.check(s1, True) == z3.unsat:
                    continue
                for s2, dn in E.split(s1, done):
                    if dn:          # (a pointer left to the generic path is written as what it points at)
                        s.assume(d != tyid(E, pt))
                        v = E.load(s2, as_type(E, s2, t, pt))[0][1]
                        g.add(s2, not iserr, label + ": pointer to " + short(ty.s) + ": no error unless the writer fails")
                        g.rope_eq(s2, wrote, CODECS[c].node(E, s2, norm_seq(E, s2, v)), label + ": pointer to " + short(ty.s) + " by its own codec")
            if E.pr.check(s, True) != z3.unsat:
                g.add(s, band(not iserr, bnot(done)), label + ": other types are left to the generic path")
                g.rope_eq(s, wrote, Rope(), label + ": nothing written for other types")


def enc_setup(fn):
    def f(E, st, f_):
        return [models.new_writer(E, st)] + ([FuncV("abstract:fn", (), user_encode)] if fn else [])
    return f


for n, fn in (("NewEncoder", False), ("NewCustomEncoder", True)):
    Contract("chain." + n, spec=lambda E, st, a, fn=fn: [Out(st, (EncoderOf(a[0], fn),))], mode="int", setup=enc_setup(fn), noapply=True, hooks={"abifn": user_encode, "text_is": reflm.tag_text},
             doc="library types by their own codecs; other types by the generic path" + ("; the custom function is asked first" if fn else ""))
