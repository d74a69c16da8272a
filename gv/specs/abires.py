"""Contracts: looking up parts of an ABI definition, resolving type names, and the entry points (pkg/chain/abi.go)."""
from .abidef import *
from . import gendec

HOOKS = dict(optr=True, nonnil=NONNIL)
LISTS = dict(Table=("Tables", "Name"), Action=("Actions", "Name"), Struct=("Structs", "Name"), Type=("Types", "NewTypeName"), Variant=("Variants", "Name"))


def abi_list(E, st, a, name):
    """a list of a definition: (element type, base, args)"""
    ty = E.P.byname[MOD + "chain.Abi"]
    v = E.mat(st, a)
    for (n, t, _), x in zip(E.P.fields(ty), v.vals):
        if n == name:
            if not isinstance(x, Opq):
                raise Unsupported("a definition that is not a parameter")
            return E.P.elem(t), x.base, x.args
    raise Unsupported("definitions have no " + name)


def elem_key(E, st, el, j, field):
    et, base, args = el
    for n, t, _ in E.P.fields(et):
        if n == field:
            v = E.opq(st, t, base + "[]." + n, args + (E.D.sz(j),))
            return v if E.P.kind(t) == "int" else strkey(E, v)
    raise Unsupported("no field " + field)


def arg_key(E, v):
    return strkey(E, v) if isinstance(v, Rope) else E.D.sz(v)


def first(E, el, key):
    """index of the first element of that name, -1: none"""
    et, base, args = el
    f = E.uf("first:" + base, args + (key,), I)
    n = E.oplen(base, args)
    reflm.once(E, ("first", f.get_id()), [f >= -1, f < E.D.sz(n)])
    E.keep.append(f)
    return f


class GetContract(Contract):
    def __init__(self, what):
        self.list, self.field = LISTS[what]
        super().__init__("(chain.Abi).Get" + what, spec=lambda E, st, a: [], define=self.definition, mode="int", hooks=HOOKS, doc="the first %s of that name, nil if there is none" % what.lower())

    def definition(self, E, st, a):
        el = abi_list(E, st, a[0], self.list)
        key = arg_key(E, a[1])
        f = first(E, el, key)
        n = E.oplen(el[1], el[2])
        hit = lambda j: norm_bool(elem_key(E, st, el, j, self.field) == key)
        s0, s1 = st, st.fork()
        s0.assume(f == -1)
        s0.univ.append(forall_univ(E, ForAll(n, lambda j: [bnot(hit(j))])))
        s1.assume(f >= 0)
        s1.assume(hit(f))
        s1.univ.append(forall_univ(E, ForAll(f, lambda j: [bnot(hit(j))])))
        s1.idx = s1.idx + [f]

        def found(g, s, res):
            if not isinstance(res[0], PtrV):
                return g.add(s, False, "result: the first element of that name")
            for s2, v in E.load(s, res[0]):
                g.val_eq(s2, v, E.opq(s2, el[0], el[1] + "[]", el[2] + (f,)), "result: the first element of that name")
        return [Out(s0, (NIL,)), Out(s1, (ANY,), also=found)]

    def apply(self, E, fr, ins, st, args):
        el = abi_list(E, st, args[0], self.list)
        f = first(E, el, arg_key(E, args[1]))
        out = []
        for s, none in E.split(st, norm_bool(f < 0)):
            if none:
                out.append((s, (NIL,)))
            else:
                oid = E.new(s, "cell", el[0], E.opq(s, el[0], el[1] + "[]", el[2] + (f,)))
                out.append((s, (PtrV(oid),)))
        return out


for n in LISTS:
    GetContract(n)


# ---------------------------------------------------------------- fields of a struct and its bases

class Chain:
    """a struct and its bases: node(k) is k bases up; names seen before k; the fields of the k topmost ... of node(0) to node(k-1), bases first"""

    def __init__(self, E, st, t):
        self.E, self.t = E, t
        self.st = st.fork()
        self.node = arecur(E, "base", (t,), lambda k, x: fld(E, self.st, x, "base").t)
        self.seen = arecur(E, "seen", (0, t), lambda k, m: mapset(E, m, self.name(k), z3.IntVal(1)))
        self.len = arecur(E, "nfields", (0, t), lambda k, n: n + E.D.sz(self.own_len(k)))
        fn = E.P.funcs["(*%s).allFields" % RTY]
        self.et = E.P.elem(fn.results[0][1])

    def name(self, k):
        return strkey(self.E, fld(self.E, self.st, self.node(k), "name"))

    def fields(self, k):
        """pointer to the own fields"""
        return fld(self.E, self.st, self.node(k), "fields")

    def own(self, k):
        return self.E.load(self.st, self.fields(k))[0][1]

    def own_len(self, k):
        o = self.own(k)
        return self.E.oplen(o.base, o.args)

    def bad(self, k):
        return bor(norm_bool(self.fields(k).t == 0), map_true(self.E, self.seen(k), self.name(k)))

    def end(self, k):
        return norm_bool(self.node(self.E.D.add(k, 1)) == 0)

    def content(self, k):
        n = self.len(k)
        self.E.D.facts.append(n >= 0)
        return Rope((View(DefSrc("fields", (self.t, self.E.D.sz(k)), self.at), 0, n),))

    def at(self, E, st, args, j):
        k = args[1]
        h = lambda k, j: (E.uf("hname#a", (self.t, k, j), E.arrsort()), E.uf("hname#n", (self.t, k, j), I), E.uf("htyp", (self.t, k, j), I))
        arr, n, ty = h(k, j)
        key = ("chainat", ty.get_id())
        if key not in E.ufs:
            E.ufs[key] = ty
            k1 = z3.simplify(k - 1)
            m = E.D.sz(self.own_len(k1))
            nm, ft = field_at(E, self.st, self.own(k1), j)
            v = nm.segs[0]
            a2, n2, ty2 = h(k1, z3.simplify(j - m))
            eq = lambda a, n_, t_: z3.And(arr == a, n == n_, ty == t_)
            E.D.facts.append(z3.Implies(k >= 1, z3.If(j < m, eq(v.src.arr, E.D.sz(v.n), ft), eq(a2, n2, ty2))))
            E.keep += [arr, n, ty]
        sty = E.P.elem(self.et) if E.P.kind(self.et) == "ptr" else self.et
        vals = [Rope((View(ArrSrc(arr), 0, n),)) if E.P.kind(t) == "string" else OptrV(ty, t) for _, t, _ in E.P.fields(sty)]
        return BoxV(StructV(vals), sty) if E.P.kind(self.et) == "ptr" else StructV(vals)


def af_setup(E, st, fn):
    st.assume(z3.Int("t") != 0)
    return [OptrV(z3.Int("t"), fn.params[0][1])]


def af_def(E, st, a):
    t = a[0].t
    case = casesplit(st)
    c = Chain(E, st, t)
    outs = [Out(case(norm_bool(c.fields(0).t == 0)), (is_nil(E, True),))]
    m = E.uf("bases", (t,), I)          # the chain ends here: no further base, not a struct, or a name seen before
    reflm.ranged(E, m, 0, 1 << 40)
    st.idx = st.idx + [m, E.D.add(m, 1)]
    st.univ.append(forall_univ(E, ForAll(m, lambda j: [bnot(c.bad(j)), bnot(c.end(j))])))
    st.assume(bor(c.bad(m), c.end(m)))
    outs.append(Out(case(c.bad(m)), (is_nil(E, True),)))
    outs.append(Out(st, (list_is(E, c, m),)))
    return outs


def is_nil(E, want):
    def f(g, s, got, label):
        if not isinstance(got, SliceV):
            raise Unsupported("list %r" % (got,))
        for s1, n in E._slice_nil(s, got):
            g.add(s1, n if want else bnot(n), label + (": nil" if want else ": not nil"))
    return Holds(f)


def list_is(E, c, m):
    def f(g, s, got, label):
        is_nil(E, False).check(g, s, got, label)
        for s1, r in E.content(s, got):
            g.rope_eq(s1, r, c.content(E.D.add(m, 1)), label + ": the fields of the bases and the struct, in order")
    return Holds(f)


def af_cands(E, S, a):
    c = Chain(E, S.st, a[0].t)
    return Cand(preds=[lambda k: norm_bool(c.node(k) != 0)], int=[lambda k, ty: c.seen(k)], big=[lambda k, ty: OptrV(c.node(k), a[0].ty)], slice=[lambda k, ty: c.content(k)], first=True)


def af_spec(E, st, a):
    return [Out(st, (all_fields(E, st, a[0].t),))]


Contract("(*chain.resolvedType).allFields", spec=af_spec, define=af_def, mode="int", setup=af_setup, cands=af_cands, hooks=HOOKS,
         doc="the fields of a struct after those of its bases, in order; nil for what is not a struct, has such a base, or is its own base")


# ---------------------------------------------------------------- resolving type names
# The node of a name is what the resolver's memo holds for it.  resolve returns the node of its name; if it had to make it, the
# node was registered before any nested name was resolved (so every name is resolved at most once: recursion is bounded by the
# number of names in the definition), and its parts are what the definition says.

NODE = "node:"


def node(E, abi, key):
    """the node of a name, under a definition (named by its opaque value)"""
    t = E.uf(NODE + abi.base, abi.args + (key,), I)
    reflm.once(E, ("node", t.get_id()), [t != 0])
    return OptrV(t, E.P.byname["*" + RTY])


def resolver_parts(E, st, p):
    """(definition, memo) of a resolver"""
    if not isinstance(p, PtrV):
        raise Unsupported("resolver %r" % (p,))
    v = E.mat(st, E.load(st, p)[0][1])
    ty = E.obj(st, p.oid).ty
    abi = memo = None
    for (n, t, _), x in zip(E.P.fields(ty), v.vals):
        if t.s == "*" + MOD + "chain.Abi":
            abi = E.load(st, x)[0][1]
        elif t.s == "map[string]*" + RTY:
            memo = x
    if not isinstance(abi, Opq) or not isinstance(memo, PtrV):
        raise Unsupported("shape of the resolver")
    return abi, memo


def memo_get(E, st, m, k, ok):
    abi, own, ptr = st.ghost["ABI"], st.ghost["OWNKEY"], st.ghost.get("OWN")
    key = strkey(E, k)
    ver = st.heap[m.oid].val.vals[0]
    out = []
    if ptr is not None:
        rest = []
        for s, mine in E.split(st, norm_bool(key == own)):
            if mine:
                out.append((s, (ptr, True) if ok else ptr))
            else:
                rest.append(s)
    else:
        rest = [st]
    for s0 in rest:
        for s, has in E.split(s0, E.uf("memohas", (ver, key), B)):
            v = node(E, abi, key) if has else NIL
            out.append((s, (v, has) if ok else v))
    return out


def memo_set(E, st, m, k, v):
    own = st.ghost["OWNKEY"]
    key = strkey(E, k)
    if not E.require(st, norm_bool(key == own), "the memo is written under the resolved name", None, None):
        return []
    if st.ghost.get("OWN") is not None and not same(st.ghost["OWN"], v) or type(v) is not PtrV or v.path:
        raise Unsupported("registering %r" % (v,))
    st.ghost["OWN"], st.ghost["OWNNODE"] = v, node(E, st.ghost["ABI"], own).t
    return [(st, None)]


def suffixes(E, name):
    """(length of the base name, array?, optional?, extension?)"""
    sg = name.segs[0]
    n = E.D.sz(sg.n)
    at = lambda i: sg.src.arr[i]
    ch = lambda n, c: z3.And(n >= 1, at(n - 1) == ord(c))
    ext = ch(n, "$")
    n1 = z3.If(ext, n - 1, n)
    opt = ch(n1, "?")
    n2 = z3.If(opt, n1 - 1, n1)
    arr = z3.And(n2 >= 2, at(n2 - 2) == ord("["), at(n2 - 1) == ord("]"))
    return z3.If(arr, n2 - 2, n2), arr, opt, ext


class ResolveContract(Contract):
    def __init__(self):
        super().__init__("(*chain.resolver).resolve", spec=lambda E, st, a: [], define=self.definition, mode="int", setup=self.mksetup,
                         hooks=dict(HOOKS, memo_get=memo_get, memo_set=memo_set), doc="the node of a type name: base name and modifiers; struct, variant or alias of that name, with its parts resolved")

    def mksetup(self, E, st, fn):
        (rn, rt), (nn, nt) = fn.params
        vals = []
        for n, t, _ in E.P.fields(E.P.elem(rt)):
            if t.s == "*" + MOD + "chain.Abi":
                abi = Opq(E.P.elem(t), "def", ())
                vals.append(PtrV(E.new(st, "cell", E.P.elem(t), abi, pre=True, tag="definition")))
            elif t.s == "map[string]*" + RTY:
                vals.append(PtrV(E.new(st, "cell", None, StructV((z3.Int("memo0"),)), pre=True, tag="memo")))
            else:
                raise Unsupported("shape of the resolver")
        name = E.opq(st, nt, nn)
        st.ghost["ABI"], st.ghost["OWNKEY"] = abi, strkey(E, name)
        return [PtrV(E.new(st, "cell", E.P.elem(rt), StructV(vals), pre=True, tag="resolver")), name]

    def apply(self, E, fr, ins, st, args):
        abi, memo = resolver_parts(E, st, args[0])
        o = st.heap[memo.oid]
        if o.tag == "memo":
            # nested: the own name has been registered
            if not E.require(st, st.ghost.get("OWN") is not None, "bounded recursion in " + self.short + ": a name is registered before its parts are resolved", fr, ins):
                return []
            if not same(abi, st.ghost["ABI"]):
                raise Unsupported("another definition")
            st.heap[memo.oid] = o.with_val(StructV((z3.Int(E.fresh_name("memo")),)))
        elif o.tag != "amap" or not same(o.val.vals[0], z3.IntVal(0)):
            raise Unsupported("a resolver whose memo is not empty")
        else:
            st.heap[memo.oid] = o.with_val(StructV((z3.Int(E.fresh_name("memo")),)))
        return [(st, (node(E, abi, strkey(E, args[1])),))]

    def definition(self, E, st, a):
        abi, memo = resolver_parts(E, st, a[0])
        name, key = a[1], st.ghost["OWNKEY"]
        ver = st.heap[memo.oid].val.vals[0]
        case = casesplit(st)
        s = case(E.uf("memohas", (ver, key), B))
        cov = (memo.oid,)
        outs = [Out(s, (Holds(lambda g, s, got, label: self.known(E, g, s, got, abi, key)),), covers=cov)]
        n, arr, opt, ext = suffixes(E, name)
        base = Rope((View(name.segs[0].src, 0, E.D.fold(n)),))
        bk = strkey(E, base)
        want = dict(name=name, baseName=base, isArray=arr, isOptional=opt, isExtension=ext, base=NIL, fields=NIL, variant=NIL, ref=NIL)
        for what in ("Struct", "Variant", "Type"):
            el = abi_list(E, st, abi, LISTS[what][0])
            i = first(E, el, bk)
            s = case(norm_bool(i >= 0))
            et, eb, ea = el
            fv = {f: E.opq(s, t, eb + "[]." + f, ea + (i,)) for f, t, _ in E.P.fields(et)}
            w = dict(want)
            if what == "Type":
                w["ref"] = node(E, abi, strkey(E, fv["Type"]))
            elif what == "Variant":
                w["variant"] = ("list", fv["Types"])
            else:
                w["fields"] = ("list", fv["Fields"])
                bkey = strkey(E, fv["Base"])
                c2 = casesplit(s)
                sb = c2(norm_bool(bkey != 0))
                outs.append(self.made(E, sb, dict(w, base=node(E, abi, bkey)), abi, cov))
            outs.append(self.made(E, s, w, abi, cov))
        outs.append(self.made(E, st, want, abi, cov))
        return outs

    def known(self, E, g, s, got, abi, key):
        if not isinstance(got, OptrV):
            return g.add(s, False, "the known node is returned")
        got.val_eq(g, s, node(E, abi, key), "the known node is returned")

    def made(self, E, s, want, abi, cov):
        def f(g, s, got, label):
            own = s.ghost.get("OWN")
            g.add(s, own is not None and type(got) is PtrV and got.oid == own.oid and not got.path, "the new node is registered and returned")
            if type(got) is not PtrV:
                return
            v = E.mat(s, E.load(s, got)[0][1])
            ty = E.P.byname[RTY]
            for (n, t, _), x in zip(E.P.fields(ty), v.vals):
                if n not in want:
                    raise Unsupported("unknown field %s of resolved types" % n)
                self.part(E, g, s, n, x, want[n], abi)
        return Out(s, (Holds(f),), covers=cov)

    def part(self, E, g, s, n, got, want, abi):
        label = "node: " + n
        if want is NIL:
            g.add(s, got is NIL or isinstance(got, OptrV) and got.isnil(E, s), label + " is nil")
        elif isinstance(want, OptrV):
            if isinstance(got, OptrV):
                got.val_eq(g, s, want, label)
            else:
                g.add(s, False, label + ": %r" % (got,))
        elif isinstance(want, Rope):
            g.add(s, norm_bool(strkey(E, got) == strkey(E, want)), label)
        elif isinstance(want, tuple):
            self.list(E, g, s, label, got, want[1], abi)
        else:
            g.add(s, norm_bool(zb(got) == zb(want)), label)

    def list(self, E, g, s, label, got, src, abi):
        """a pointer to the list of the resolved parts"""
        if not isinstance(got, PtrV) or isinstance(got, OptrV):
            return g.add(s, False, label + ": a list")
        sl = E.load(s, got)[0][1]
        if not isinstance(sl, SliceV):
            raise Unsupported("list %r" % (sl,))
        n = E.oplen(src.base, src.args)
        et = E.P.elem(src.ty)
        for s1, r in E.content(s, sl):
            g.add(s1, E.D.eq(E.rlen(r), n), label + ": as many as defined")
            s1.assume(E.D.eq(E.rlen(r), n))
            j = E.fresh_sz(s1, "part", 0)
            s1.assume(E.D.lt(j, n))
            s1.idx = s1.idx + [j]
            for s2, x in E.rope_at(s1, r, j, None):
                if E.P.kind(et) == "string":
                    self.part(E, g, s2, label[6:] + " element", x, node(E, abi, strkey(E, E.opq(s2, et, src.base + "[]", src.args + (E.D.sz(j),)))), abi)
                    continue
                fv = {f: E.opq(s2, t, src.base + "[]." + f, src.args + (E.D.sz(j),)) for f, t, _ in E.P.fields(et)}
                v = x.val if isinstance(x, BoxV) else E.mat(s2, E.load(s2, x)[0][1]) if isinstance(x, PtrV) else x
                sty = x.ty if isinstance(x, BoxV) else None
                if not isinstance(v, StructV) or len(v.vals) != 2:
                    raise Unsupported("element %r" % (x,))
                for y in v.vals:
                    if isinstance(y, Rope):
                        g.add(s2, norm_bool(strkey(E, y) == strkey(E, fv["Name"])), label + " element: name")
                    else:
                        self.part(E, g, s2, label[6:] + " element: type", y, node(E, abi, strkey(E, fv["Type"])), abi)


ResolveContract()


# ---------------------------------------------------------------- entry points

def find_param(E, fn, pred):
    ix = [i for i, (n, t) in enumerate(fn.params) if pred(t)]
    if len(ix) != 1:
        raise Unsupported("parameters of " + fn.name)
    return ix[0]


def type_of_action(E, st, a, name):
    """(found, key of the action's type)"""
    el = abi_list(E, st, a, "Actions")
    f = first(E, el, arg_key(E, name))
    return f, E.opq(st, E.P.byname["string"], el[1] + "[].Type", el[2] + (f,))


class EntryContract(Contract):
    """encode or decode as the type of that name, or as the type of the action of that name"""

    def __init__(self, name, enc, action, doc):
        super().__init__("(chain.Abi)." + name, spec=lambda E, st, a: [], define=self.definition, mode="int", setup=self.mksetup, hooks=HOOKS, doc=doc)
        self.enc, self.action = enc, action

    def ix(self, E):
        fn = E.P.funcs[self.name]
        io = find_param(E, fn, lambda t: t.s == ("io.Writer" if self.enc else "io.Reader"))
        nm = find_param(E, fn, lambda t: t.s == (MOD + "chain.Name" if self.action else "string"))
        v = find_param(E, fn, lambda t: E.P.kind(t) == "iface" and not E.P.under(t).methods) if self.enc else None
        return io, nm, v

    def mksetup(self, E, st, fn):
        io, nm, v = self.ix(E)
        args = []
        for i, (n, t) in enumerate(fn.params):
            if i == v:
                args.append(AnyV(z3.Int("v")))
            elif i in (io, nm):
                args.append(default_arg(E, st, n, t))
            else:
                args.append(Opq(t, "def", ()))
        if not self.enc:
            st.ghost["READER"] = args[io]
        return args

    def cases(self, E, st, a):
        """(state, node of the type, or None where the action is unknown)"""
        io, nm, v = self.ix(E)
        if not self.action:
            return [(st, node(E, a[0], strkey(E, a[nm])).t)]
        f, ty = type_of_action(E, st, a[0], a[nm])
        return [(s, None if none else node(E, a[0], strkey(E, ty)).t) for s, none in E.split(st, norm_bool(f < 0))]

    def definition(self, E, st, a):
        io, nm, v = self.ix(E)
        outs = []
        for s, t in self.cases(E, st, a):
            if self.enc:
                if t is None:
                    outs.append(Out(s, (ANYERR,), wany=(io,)))
                else:
                    x = a[v].t
                    outs += some(E, s, okp(E, "abit", t, x, 0), lambda s, t=t, x=x: CODECS["abit"].node(E, s, StructV((t, x))), io)
                continue
            r = a[io]
            cov = (r.val.oid,)
            if t is None:
                outs.append(Out(s, (ANY, ANYERR), covers=cov))
                continue
            e = AEff(E, "abit", t, models.rd(s, r)[0], 0)
            good = casesplit(s)(e.ok)
            outs.append(Out(good, (anyval(E, e.val), NIL), covers=cov, also=lambda g, s, res, e=e, r=r: g.add(s, E.D.eq(models.rd(s, r)[0], e.next), "bytes consumed")))
            outs.append(Out(s, (ANY, ANYERR), covers=cov))
        return outs

    def apply(self, E, fr, ins, st, args):
        io, nm, v = self.ix(E)
        if not isinstance(args[0], Opq):
            raise Unsupported("a definition that is not a parameter")
        out = []
        for s, t in self.cases(E, st, args):
            if t is None:
                if self.enc:
                    models.emit_junk(E, s, args[io])
                    out.append((s, (models.err(E),)))
                else:
                    out.append((s, (AnyV(z3.Int(E.fresh_name("junk"))), models.err(E))))
                continue
            if self.enc:
                x = reflm.any_term(E, s, args[v])
                for s1, good in E.split(s, okp(E, "abit", t, x, 0)):
                    if not good:
                        models.emit_junk(E, s1, args[io])
                        out.append((s1, (models.err(E),)))
                        continue
                    for s2, k in models.emit(E, s1, args[io], CODECS["abit"].node(E, s1, StructV((t, x)))):
                        out.append((s2, (NIL if k else models.err(E),)))
                continue
            e = AEff(E, "abit", t, models.rd(s, args[io])[0], 0)
            for s1, good in E.split(s, e.ok):
                models.rd_set(s1, args[io], e.next if good else e.fpos)
                out.append((s1, (AnyV(e.val) if good else AnyV(z3.Int(E.fresh_name("junk"))), NIL if good else ErrV("end", (e.eof,)))))
        return out


EntryContract("Encode", True, False, "the encoding of the value as the type of that name")
EntryContract("EncodeAction", True, True, "the encoding of the value as the type of the action; unknown actions are errors")
EntryContract("Decode", False, False, "the value of the type of that name")
EntryContract("DecodeAction", False, True, "the value of the type of the action; unknown actions are errors")


# ---------------------------------------------------------------- an action's data

def data_reader(E, st, arg):
    """a reader of the action's data, from its start: the stream the contract talks about"""
    out = []
    for s, r in E.content(st, arg):
        want = st.ghost["DATA"]
        for s1, w in E.content(s, want):
            if len(r.segs) != 1 or len(w.segs) != 1 or not same(r.segs[0].src, w.segs[0].src):
                raise Unsupported("reads other bytes than the action's data")
            if not E.require(s1, band(E.D.eq(r.segs[0].off, w.segs[0].off), E.D.eq(E.rlen(r), E.rlen(w))), "the whole of the action's data is decoded", None, None):
                continue
            rd = models.new_reader(E, s1, w, True)
            out.append((s1, (PtrV(rd.val.oid),)))
    return out


class ActionDecode(Contract):
    def __init__(self):
        super().__init__("(chain.Action).Decode", spec=lambda E, st, a: [], define=self.definition, mode="int", setup=self.mksetup, hooks=dict(HOOKS, newreader=data_reader),
                         doc="the data of the action as the type the definition gives the action; an error for unknown actions, data that does not decode, and data that is not a struct")

    def mksetup(self, E, st, fn):
        args = [default_arg(E, st, n, t) for n, t in fn.params]
        st.ghost["DATA"] = self.field(E, st, args[0], "Data")
        return args

    def field(self, E, st, a, name):
        for (n, t, _), x in zip(E.P.fields(E.P.byname[MOD + "chain.Action"]), E.mat(st, a).vals):
            if n == name:
                return x
        raise Unsupported("actions have no " + name)

    def definition(self, E, st, a):
        d = E.load(st, a[1])[0][1]
        f, ty = type_of_action(E, st, d, self.field(E, st, a[0], "Name"))
        outs = []
        for s, none in E.split(st, norm_bool(f < 0)):
            if none:
                outs.append(Out(s, (ANY, ANYERR)))
                continue
            e = AEff(E, "abit", node(E, d, strkey(E, ty)).t, 0, 0)
            good = casesplit(s)(band(e.ok, reflm.dyn(E, e.val) == reflm.tyid(E, anymap(E))))
            outs.append(Out(good, (Holds(lambda g, s, got, label, e=e: g.add(s, isinstance(got, MapV) and norm_bool(got.t == e.val), label + ": the decoded fields")), NIL)))
            outs.append(Out(s, (ANY, ANYERR)))
        return outs


ActionDecode()


# ---------------------------------------------------------------- an action's data into a Go value

def lib_decoder(E, fr, ins, st, d):
    """the decoder's function is the one NewDecoder gives"""
    def fn(s, p):
        return [x for (n, t, _), x in zip(E.P.fields(s.heap[p.oid].ty), E.load(s, p)[0][1].vals) if E.P.kind(t) == "func"][0]
    s = st.fork()
    (s, r), = E.dispatch(fr, ins, s, FuncV(full("chain.NewDecoder")), [models.new_reader(E, s, Rope(), True)])
    a, b = fn(st, d), fn(s, r[0])
    if not isinstance(a, FuncV) or a.name != b.name or a.bind or b.bind or a.py or b.py:
        raise Unsupported("another decoder than NewDecoder's")


class ActionDecodeInto(ActionDecode):
    def __init__(self):
        Contract.__init__(self, "(chain.Action).DecodeInto", spec=lambda E, st, a: [], define=self.definition, mode="int", setup=self.mksetup,
                          hooks={"text_is": reflm.tag_text, "newreader": data_reader, "decoder": lib_decoder}, doc="the data of the action decoded into the value by the library's decoder")

    def mksetup(self, E, st, fn):
        args = [default_arg(E, st, fn.params[0][0], fn.params[0][1]), AnyV(z3.Int("v"))]
        st.ghost["DATA"] = self.field(E, st, args[0], "Data")
        reflm.mem_init(E, st, None)
        E.frame0 = Frame(fn, 1)
        st.assume(reflm.dyn(E, args[1].t) != 0)
        return args

    def definition(self, E, st, a):
        l = reflm.elem(E, reflm.valueof(E, a[1].t))
        e = gendec.Eff(E, "gen", reflm.typ(E, l), 0)
        m = reflm.mem(st)[0]
        good = st.fork()
        good.assume(e.ok)
        st.assume(z3.Not(e.ok))
        return [Out(good, (NIL,), covers=(reflm.MEM,), also=gendec.final(E, None, e.mem(good, m, l))), Out(st, (ANYERR,), covers=(reflm.MEM,))]


ActionDecodeInto()
