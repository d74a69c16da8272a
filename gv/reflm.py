"""Trusted model of reflect (integer mode): values of unknown Go type.
An interface value of unknown dynamic type and a reflect.Value are named by integer terms; every reflect operation is a
function of them with its documented precondition (kind, bounds, validity) as an obligation.  Struct fields are exported."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from . import models
from .models import model, err

I = z3.IntSort()
B = z3.BoolSort()
KINDS = ("Invalid Bool Int Int8 Int16 Int32 Int64 Uint Uint8 Uint16 Uint32 Uint64 Uintptr Float32 Float64 Complex64 Complex128 "
         "Array Chan Func Interface Map Ptr Slice String Struct UnsafePointer").split()
K = {n: i for i, n in enumerate(KINDS)}
NILABLE = [K[x] for x in ("Chan", "Func", "Interface", "Map", "Ptr", "Slice", "UnsafePointer")]


def need(E):
    if E.D.name != "int":
        raise Unsupported("reflection in bit-vector mode")


def isin(k, ks):
    return norm_bool(z3.Or(*[k == x for x in ks]))


class Named:
    """a thing named by an integer term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.t)

    def vmap(self, f):
        return type(self)(f(self.t))

    def same(self, b):
        return same(self.t, b.t)

    def val_eq(self, G, st, b, label):
        if type(b) is not type(self):
            return G.add(st, False, label + ": %r vs %r" % (self, b))
        G.add(st, norm_bool(self.t == b.t), label)

    def merge(self, c, b):
        return type(self)(z3.If(c, self.t, b.t))


def dyn(E, t):
    return E.uf("dyn", (t,), I)


def tyid(E, ty):
    ids = E.ufs.setdefault(("tyids",), {})
    return ids.setdefault(ty.s, len(ids) + 1)


class AnyV(Named):
    """an interface value of unknown dynamic type (dyn 0: nil)"""
    __slots__ = ()

    def isnil(self, E, st):
        return norm_bool(dyn(E, self.t) == 0)

    def type_assert(self, E, st, at, isi):
        need(E)
        out = []
        if isi:
            c = band(dyn(E, self.t) != 0, impl(E, self.t, at))
        else:
            c = norm_bool(dyn(E, self.t) == tyid(E, at))
        for s, v in E.split(st, c):
            if not v:
                out.append((s, False, None))
            elif isi:
                out.append((s, True, self))
            else:
                out.append((s, True, as_type(E, s, self.t, at)))
        return out

    def invoke(self, E, fr, ins, st, meth, args):
        h = INVOKE.get(meth)
        if h is None:
            raise Unsupported("method %s of an unknown type" % meth)
        return h(E, fr, ins, st, self, args)


INVOKE = {}


def impl(E, t, iface):
    """does the dynamic type of t implement the interface?"""
    ms = E.P.under(iface).methods or []
    if not ms:
        return True
    b = E.uf("impl:" + ",".join(sorted(ms)), (t,), B)
    once(E, ("impl", b.get_id()), [z3.Implies(b, E.uf("tmethods", (typ(E, valueof(E, t)),), I) > 0)])
    return b


def as_type(E, st, t, at):
    if E.P.kind(at) == "ptr":           # a pointer that is not nil: what it points at is a cell of its own
        oid = ("anyptr", t.get_id(), at.s)
        if oid not in st.heap:
            from .engine import Obj
            E.keep.append(t)
            et = E.P.elem(at)
            st.heap[oid] = Obj("cell", et, E.opq(st, et, "pointee:" + at.s, (t,)), True, "pointee")
        return PtrV(oid)
    if E.P.kind(at) == "map" and E.hooks.get("optr"):
        from .optr import MapV
        return MapV(t)
    if E.P.kind(at) in ("map", "func", "chan"):
        raise Unsupported("value of unknown type as " + at.s)
    return E.opq(st, at, "as:" + at.s, (t,))


class RV(Named):
    """reflect.Value"""
    __slots__ = ()


class RT(Named):
    """reflect.Type"""
    __slots__ = ()

    def invoke(self, E, fr, ins, st, meth, args):
        t = self.t
        E.models_used.add("reflect.Type." + meth)
        if meth == "Kind":
            return [(st, (tkind(E, t),))]
        if meth == "NumField":
            if not E.require(st, norm_bool(tkind(E, t) == K["Struct"]), "NumField of a type that is not a struct", fr, ins):
                return []
            return [(st, (tnf(E, t),))]
        if meth == "Field":
            i = args[0]
            if not E.require(st, band(tkind(E, t) == K["Struct"], E.D.le(0, i), E.D.lt(i, tnf(E, t))), "Field of a type", fr, ins):
                return []
            return [(st, (structfield(E, st, t, i),))]
        if meth == "Elem":
            if not E.require(st, isin(tkind(E, t), [K[x] for x in ("Array", "Chan", "Map", "Ptr", "Slice")]), "Elem of a type", fr, ins):
                return []
            return [(st, (RT(E.uf("telem", (t,), I)),))]
        if meth == "Key":
            if not E.require(st, norm_bool(tkind(E, t) == K["Map"]), "Key of a type that is not a map", fr, ins):
                return []
            return [(st, (RT(E.uf("tkey", (t,), I)),))]
        if meth == "NumMethod":
            return [(st, (ranged(E, E.uf("tmethods", (t,), I), 0, 1 << 16),))]
        if meth in ("String", "Name", "PkgPath"):
            return [(st, (Rope((View(ArrSrc(E.uf("t%s#a" % meth, (t,), E.arrsort())), 0, E.oplen("t" + meth, (t,))),)),))]
        if meth == "Len":
            if not E.require(st, norm_bool(tkind(E, t) == K["Array"]), "Len of a type that is not an array", fr, ins):
                return []
            return [(st, (tlen(E, t),))]
        raise Unsupported("reflect.Type." + meth)

    def eq_fork(self, E, st, b):
        if isinstance(b, RT):
            return [(st, norm_bool(self.t == b.t))]
        raise Unsupported("comparison of types")

    def isnil(self, E, st):
        return False


def ranged(E, v, lo, hi):
    if v.get_id() not in E.D.rng:
        E.D.facts += [v >= lo, v <= hi]
        E.D.setr(v, lo, hi)
    return v


def once(E, key, fs):
    if key not in E.ufs:
        E.ufs[key] = True
        E.D.facts += fs


def kind(E, r):
    return ranged(E, E.uf("kind", (r,), I), 0, 26)


def typ(E, r):
    t = E.uf("type", (r,), I)
    once(E, ("typ", t.get_id()), [z3.Implies(kind(E, r) != 0, tkind(E, t) == kind(E, r))])
    return t


def tkind(E, t):
    return ranged(E, E.uf("tkind", (t,), I), 1, 26)


def tnf(E, t):
    return ranged(E, E.uf("tnf", (t,), I), 0, 1 << 16)


def tlen(E, t):
    return ranged(E, E.uf("tlen", (t,), I), 0, 1 << 40)


def length(E, r):
    n = ranged(E, E.uf("rlen", (r,), I), 0, 1 << 40)
    once(E, ("rlen", n.get_id()), [z3.Implies(kind(E, r) == K["Array"], n == tlen(E, typ(E, r)))])
    return n


def isnil(E, r):
    b = E.uf("rnil", (r,), B)
    once(E, ("rnil", b.get_id()), [z3.Implies(isin(kind(E, r), NILABLE), b == E.uf("rzero", (r,), B))])
    return b


def iszero(E, r):
    isnil(E, r)
    return E.uf("rzero", (r,), B)


def valueof(E, t):
    r = E.uf("valueof", (t,), I)
    once(E, ("vo", r.get_id()), [(kind(E, r) == 0) == (dyn(E, t) == 0), kind(E, r) != K["Interface"]])
    return r


def iface(E, r):
    """r.Interface()"""
    if z3.is_app(r) and r.decl().name() == "valueof":
        return r.arg(0)
    t = E.uf("iface", (r,), I)
    once(E, ("if", t.get_id()), [z3.Implies(z3.And(kind(E, r) != 0, kind(E, r) != K["Interface"]), z3.And(dyn(E, t) != 0, valueof(E, t) == r))])
    return t


def elem(E, r):
    e = E.uf("elem", (r,), I)
    once(E, ("el", e.get_id()), [(kind(E, e) == 0) == isnil(E, r), z3.Implies(kind(E, r) == K["Ptr"], typ(E, e) == E.uf("telem", (typ(E, r),), I))])
    return e


def child(E, f, r, *i):
    """an element or field: always valid"""
    c = E.uf(f, (r,) + i, I)
    once(E, ("ch", c.get_id()), [kind(E, c) != 0])
    return c


def index(E, r, i):
    return child(E, "index", r, E.D.sz(i))


def field(E, r, i):
    return child(E, "field", r, E.D.sz(i))


def mapkey(E, r, i):
    return child(E, "mapkey", r, E.D.sz(i))


def mapindex(E, r, k):
    """for a key of the map"""
    return child(E, "mapindex", r, k)


def structfield(E, st, t, i):
    ty = E.P.byname["reflect.StructField"]
    vs = []
    for n, ft, _ in E.P.fields(ty):
        if n == "Type":
            vs.append(RT(E.uf("tfield", (t, E.D.sz(i)), I)))
        elif n == "Tag":
            vs.append(Tag(t, E.D.sz(i)))
        elif n in ("Index",):
            vs.append(NIL)
        else:
            vs.append(E.opq(st, ft, "sf." + n, (t, E.D.sz(i))))
    return StructV(vs)


class Tag:
    """reflect.StructTag of field i of type t"""
    __slots__ = ("t", "i")

    def __init__(self, t, i):
        self.t, self.i = t, i

    def vmap(self, f):
        return Tag(f(self.t), f(self.i))

    def same(self, b):
        return same(self.t, b.t) and same(self.i, b.i)


def rv(E, v):
    need(E)
    if not isinstance(v, RV):
        raise Unsupported("reflect.Value %r" % (v,))
    if z3.is_app(v.t) and v.t.decl().name() in CHILD:       # (the term may come from a substitution)
        once(E, ("ch", v.t.get_id()), [kind(E, v.t) != 0])
        E.keep.append(v.t)
    return v.t


CHILD = ("index", "field", "mapkey", "mapindex")


def any_term(E, st, v):
    """term naming an interface value"""
    if isinstance(v, AnyV):
        return v.t
    if v is NIL:
        t = z3.Int("nil#any")
        once(E, ("nilany",), [dyn(E, t) == 0])
        return t
    raise Unsupported("reflection on %r" % (v,))


ZERO = RV(z3.Int("zero#rv"))


def zero_value(E):
    once(E, ("zerorv",), [kind(E, ZERO.t) == 0])
    return ZERO


def v(name, desc):
    def deco(f):
        def g(E, fr, ins, st, args):
            return f(E, fr, ins, st, rv(E, args[0]), *args[1:])
        models.T["(reflect.Value)." + name] = g
        models.DESC["(reflect.Value)." + name] = desc
        return f
    return deco


def pre(E, st, c, what, fr, ins):
    return E.require(st, c, "reflect: " + what, fr, ins)


@model("reflect.ValueOf", desc="the value an interface holds; invalid for nil")
def _valueof(E, fr, ins, st, args):
    need(E)
    return [(st, (RV(valueof(E, any_term(E, st, args[0]))),))]


@model("reflect.Indirect", desc="the pointee of a pointer, other values unchanged")
def _indirect(E, fr, ins, st, args):
    r = rv(E, args[0])
    return [(s, (RV(elem(E, r)) if p else args[0],)) for s, p in E.split(st, norm_bool(kind(E, r) == K["Ptr"]))]


@v("IsValid", "kind is not Invalid")
def _(E, fr, ins, st, r):
    return [(st, (norm_bool(kind(E, r) != 0),))]


@v("Kind", "the kind, 0 for invalid values")
def _(E, fr, ins, st, r):
    return [(st, (kind(E, r),))]


@v("IsNil", "needs a nilable kind")
def _(E, fr, ins, st, r):
    if not pre(E, st, isin(kind(E, r), NILABLE), "IsNil of a kind that cannot be nil", fr, ins):
        return []
    return [(st, (slot_nil(E, st, r) if stored(E, st, r) else isnil(E, r),))]


@v("IsZero", "needs a valid value")
def _(E, fr, ins, st, r):
    if not pre(E, st, norm_bool(kind(E, r) != 0), "IsZero of an invalid value", fr, ins):
        return []
    return [(st, (iszero(E, r),))]


@v("CanInterface", "needs a valid value; true (fields are exported)")
def _(E, fr, ins, st, r):
    if not pre(E, st, norm_bool(kind(E, r) != 0), "CanInterface of an invalid value", fr, ins):
        return []
    return [(st, (True,))]


@v("Interface", "needs a valid value")
def _(E, fr, ins, st, r):
    if not pre(E, st, norm_bool(kind(E, r) != 0), "Interface of an invalid value", fr, ins):
        return []
    return [(st, (AnyV(iface(E, r)),))]


@v("Elem", "needs a pointer or interface; invalid for nil")
def _(E, fr, ins, st, r):
    if not pre(E, st, isin(kind(E, r), [K["Ptr"], K["Interface"]]), "Elem of a kind without one", fr, ins):
        return []
    return [(st, (RV(elem(E, r)),))]


@v("Len", "needs a kind with a length")
def _(E, fr, ins, st, r):
    if not pre(E, st, isin(kind(E, r), [K[x] for x in ("Array", "Chan", "Map", "Slice", "String")]), "Len of a kind without one", fr, ins):
        return []
    if is_root(E, r) and MEM in st.heap:
        m, rid, n = mem(st)
        if decl(m) != "mem" and E.pr.feasible(st, norm_bool(kind(E, r) == K["Map"])):
            raise Unsupported("length of a map that is being filled")
        return [(st, (n,))]
    return [(st, (length(E, r),))]


@v("Index", "needs an array or slice and an index in range")
def _(E, fr, ins, st, r, i):
    if not pre(E, st, isin(kind(E, r), [K["Array"], K["Slice"]]), "Index of a kind without elements", fr, ins):
        return []
    if is_root(E, r) and MEM in st.heap:
        m, rid, n = mem(st)
        if not pre(E, st, band(E.D.le(0, i), E.D.lt(i, n)), "Index out of range", fr, ins):
            return []
        e = index(E, rid, i)
        once(E, ("elt", e.get_id()), [typ(E, e) == E.uf("telem", (typ(E, r),), I)])
        return [(st, (RV(e),))]
    if not pre(E, st, band(E.D.le(0, i), E.D.lt(i, length(E, r))), "Index out of range", fr, ins):
        return []
    return [(st, (RV(index(E, r, i)),))]


@v("NumField", "needs a struct")
def _(E, fr, ins, st, r):
    if not pre(E, st, norm_bool(kind(E, r) == K["Struct"]), "NumField of a kind without fields", fr, ins):
        return []
    return [(st, (tnf(E, typ(E, r)),))]


@v("Field", "needs a struct and an index in range")
def _(E, fr, ins, st, r, i):
    if not pre(E, st, band(kind(E, r) == K["Struct"], E.D.le(0, i), E.D.lt(i, tnf(E, typ(E, r)))), "Field out of range", fr, ins):
        return []
    return [(st, (RV(field(E, r, i)),))]


@v("Type", "needs a valid value")
def _(E, fr, ins, st, r):
    if not pre(E, st, norm_bool(kind(E, r) != 0), "Type of an invalid value", fr, ins):
        return []
    return [(st, (RT(typ(E, r)),))]


@v("MapKeys", "needs a map; the keys in some order")
def _(E, fr, ins, st, r):
    if not pre(E, st, norm_bool(kind(E, r) == K["Map"]), "MapKeys of a kind without keys", fr, ins):
        return []
    var = z3.Int(E.fresh_name("mk"))
    sl = E.mkslice(st, Rope((View(FnSrc(var, RV(mapkey(E, r, var)), ("mapkeys", r.get_id())), 0, length(E, r)),)))
    E.keep.append(r)
    return [(st, (sl,))]


@v("MapIndex", "needs a map (and a key of it)")
def _(E, fr, ins, st, r, k):
    if not pre(E, st, norm_bool(kind(E, r) == K["Map"]), "MapIndex of a kind without keys", fr, ins):
        return []
    if not iskey(r, k.t):
        raise Unsupported("MapIndex of another key")
    return [(st, (RV(mapindex(E, r, k.t)),))]


def iskey(r, k):
    return z3.is_app(k) and k.decl().name() == "mapkey" and k.arg(0).eq(r)


def _num(signed):
    names = [(x, 64 if x in ("Int", "Uint", "Uintptr") else int(x.lstrip("UIint"))) for x in KINDS if (x.startswith("Int") and x != "Interface" if signed else x.startswith("Uint"))]

    def f(E, fr, ins, st, r):
        if not pre(E, st, isin(kind(E, r), [K[n] for n, _ in names]), "integer of another kind", fr, ins):
            return []
        return [(st, (number(E, r, signed),))]

    def num(E, r):
        n = E.uf("rint" if signed else "ruint", (r,), I)
        ranged(E, n, -(1 << 63) if signed else 0, (1 << 63) - 1 if signed else (1 << 64) - 1)
        once(E, ("num", n.get_id()), [z3.Implies(kind(E, r) == K[k], z3.And(n >= (-(1 << (w - 1)) if signed else 0), n < (1 << (w - 1 if signed else w)))) for k, w in names])
        return n
    return f, num


_fi, _ni = _num(True)
_fu, _nu = _num(False)


def number(E, r, signed):
    return (_ni if signed else _nu)(E, r)


v("Int", "needs a signed integer kind")(_fi)
v("Uint", "needs an unsigned integer kind")(_fu)


# The eosio tag of a field is one of the texts the library documents, or none, or another one (a single text stands for all
# others).
TAGS = (b"", b"optional", b"variant", b"extension", b"\x00any other")


def tagcode(E, t, i):
    return ranged(E, E.uf("tag", (t, E.D.sz(i)), I), 0, len(TAGS) - 1)


def tag_is(E, t, i, text):
    return norm_bool(tagcode(E, t, i) == TAGS.index(text))


@model("(reflect.StructTag).Get", desc="the value of a key of a struct tag: a function of type and field")
def _tagget(E, fr, ins, st, args):
    return [(s, (v,)) for s, v in tag_of(E, st, args[0], args[1])]


def tag_of(E, st, tag, key):
    if not isinstance(tag, Tag) or not key.is_lit():
        raise Unsupported("struct tag")
    k = bytes(key.lit()).decode()
    v = E.opq(st, E.P.STRING, "tag:" + k, (tag.t, tag.i))
    if k == "eosio":
        n, c = E.rlen(v), tagcode(E, tag.t, tag.i)
        once(E, ("tagn", c.get_id()), [z3.Implies(c == j, n == len(x)) for j, x in enumerate(TAGS[:-1])] + [z3.Implies(c == len(TAGS) - 1, n > 0)])
    return [(st, v)]


def tag_text(E, v, text):
    """comparison of an eosio tag with a text"""
    if v.src.kind == "arr" and decl(v.src.arr) == "tag:eosio#a" and v.off == 0 and isinstance(v.off, int) and decl(v.n) == "tag:eosio#n":
        return tag_is(E, v.src.arr.arg(0), v.src.arr.arg(1), text) if text in TAGS[:-1] else False
    return None


@model("(reflect.StructTag).Lookup", desc="the value of a key of a struct tag: a function of type and field")
def _taglookup(E, fr, ins, st, args):
    out = []
    b = E.uf("tagok", (args[0].t, args[0].i), B)
    for s, v in tag_of(E, st, args[0], args[1]):
        for s, ok in E.split(s, b):
            if not ok:
                s.assume(E.D.eq(E.rlen(v), 0))
            out.append((s, (v, True) if ok else (Rope(), False)))
    return out


# ---------------------------------------------------------------- memory: settable values
# The values that can be set are locations (the same terms).  All of them share one memory term; its operations are
# uninterpreted functions: rset(m, location, value), and the effects of decoding into a location.  A decoded location no
# longer depends on what it held, so a later effect on the same location absorbs earlier ones.  One location (root, the
# destination of the function under verification) keeps its value apart: identity and length.  Fresh values are cells.

MEM = "rmem"


def mem_init(E, st, root=None):
    need(E)
    E.root_loc = root
    m = z3.Int("mem")
    if root is None:
        st.heap[MEM] = models_obj(StructV((m, 0, 0)))
    else:
        st.heap[MEM] = models_obj(StructV((m, root, length(E, root))))


def models_obj(v):
    from .engine import Obj
    return Obj("rmem", None, v, True, "memory")


def mem(st):
    if MEM not in st.heap:
        raise Unsupported("settable values here")
    return st.heap[MEM].val.vals


def mem_put(st, m=None, rid=None, n=None):
    o = st.heap[MEM]
    a, b, c = o.val.vals
    st.heap[MEM] = o.with_val(StructV((a if m is None else m, b if rid is None else rid, c if n is None else n)))


def stored(E, st, r):
    """a location whose contents may have changed"""
    return MEM in st.heap and (is_root(E, r) or decl(r) in ("field", "index", "elem") and fresh_of(r) is None)


def is_root(E, r):
    return getattr(E, "root_loc", None) is not None and r.eq(E.root_loc)


def decl(t):
    return t.decl().name() if z3.is_app(t) else ""


def absorb(E, st, m, l):
    """memory before earlier effects on l itself"""
    while (decl(m) == "rset" or decl(m).startswith(("dec:", "decf:"))) and same_loc(E, st, m.arg(1), l):
        m = m.arg(0)
    if z3.is_app_of(m, z3.Z3_OP_ITE):
        x, y = absorb(E, st, m.arg(1), l), absorb(E, st, m.arg(2), l)
        return x if x.eq(y) else z3.If(m.arg(0), x, y)
    return m


def same_loc(E, st, a, b):
    return a.eq(b) or decl(a) == decl(b) and decl(a) in ("index", "field") and a.arg(0).eq(b.arg(0)) and E.proves(st, norm_bool(a.arg(1) == b.arg(1)))


def rset(E, st, m, l, x):
    return E.uf("rset", (absorb(E, st, m, l), l, x), I)


def fresh_of(l):
    """the cell a location belongs to, when it is a fresh one"""
    if decl(l) == "elem" and decl(l.arg(0)).startswith("newptr"):
        return ("rnew", decl(l.arg(0)))
    return None


def addressable(E, r):
    d = decl(r)
    if d == "elem" or is_root(E, r):
        return True
    if d in ("field", "index"):
        return True
    if d in ("valueof", "zeroval", "addr") or d.startswith(("newptr", "mkslice", "mkmap")):
        return False
    raise Unsupported("settability of %s" % r)


def slot_nil(E, st, r):
    """is the pointer (map, slice) stored at location r nil?"""
    m, rid, n = mem(st)
    if is_root(E, r):
        return isnil(E, rid)
    return nil_in(E, st, m, r)


def nil_in(E, st, m, r):
    if z3.is_app_of(m, z3.Z3_OP_ITE):
        x, y = [zb(nil_in(E, st, m.arg(k), r)) for k in (1, 2)]
        return norm_bool(z3.If(m.arg(0), x, y))
    if decl(m) == "rset" and same_loc(E, st, m.arg(1), r):
        x = m.arg(2)
        if decl(x) == "ptrval":
            return False
        if decl(x) == "zeroval":
            return True
    return E.uf("rnil@", (r, m), B)


def valterm(E, st, x):
    """the value an RV denotes (when it is stored somewhere)"""
    if isinstance(x, RV):
        if decl(x.t).startswith("newptr"):
            return E.uf("ptrval", (st.heap[("rnew", decl(x.t))].val.vals[0],), I)
        if decl(x.t) == "addr":
            raise Unsupported("address stored")
        c = fresh_of(x.t)
        if c is not None:
            return st.heap[c].val.vals[0]
        return x.t
    raise Unsupported("value %r" % (x,))


class Grown:
    """result of reflect.Append: the same elements and further ones"""
    __slots__ = ("rid", "n")

    def __init__(self, rid, n):
        self.rid, self.n = rid, n


def assign(E, st, l, x):
    """location l := x"""
    if is_root(E, l):
        if isinstance(x, Grown):
            mem_put(st, rid=x.rid, n=x.n)
        else:
            t = valterm(E, st, x)
            mem_put(st, rid=t, n=length(E, t))
        return
    c = fresh_of(l)
    if c is not None:
        o = st.heap[c]
        st.heap[c] = o.with_val(StructV((valterm(E, st, x),)))
        return
    mem_put(st, m=rset(E, st, mem(st)[0], l, valterm(E, st, x)))


def typed(E, st, t, ty, k=None):
    """fact: the value named t has that type"""
    once(E, ("typed", t.get_id()), [E.uf("type", (t,), I) == ty, kind(E, t) == (k if k is not None else tkind(E, ty))])
    typ(E, t)
    return t


def ptrto(E, t):
    p = E.uf("ptrto", (t,), I)
    once(E, ("ptrto", p.get_id()), [tkind(E, p) == K["Ptr"], E.uf("telem", (p,), I) == t])
    return p


def rtype(v):
    if not isinstance(v, RT):
        raise Unsupported("type %r" % (v,))
    return v.t


@model("reflect.New", desc="a pointer to a fresh zero value of the type")
def _new(E, fr, ins, st, args):
    t = rtype(args[0])
    x = z3.Int(E.fresh_name("newptr"))
    typed(E, st, x, ptrto(E, t), K["Ptr"])
    E.D.facts += [z3.Not(isnil(E, x)), typ(E, elem(E, x)) == t]
    if not hasattr(E, "newtypes"):
        E.newtypes = {}
    E.newtypes[("rnew", decl(x))] = t
    st.heap[("rnew", decl(x))] = models_obj(StructV((zeroval(E, t),)))
    return [(st, (RV(x),))]


def zeroval(E, t):
    z = E.uf("zeroval", (t,), I)
    once(E, ("zeroval", z.get_id()), [E.uf("type", (z,), I) == t, kind(E, z) == tkind(E, t), iszero(E, z)])
    return z


@model("reflect.Zero", desc="the zero value of a type")
def _zero(E, fr, ins, st, args):
    return [(st, (RV(zeroval(E, rtype(args[0]))),))]


@model("reflect.MakeSlice", desc="a slice of zero values; needs 0 <= length <= capacity; the count is an allocation")
def _mkslice(E, fr, ins, st, args):
    t, n, c = rtype(args[0]), args[1], args[2]
    if not pre(E, st, band(tkind(E, t) == K["Slice"], E.D.le(0, n), E.D.le(n, c)), "MakeSlice arguments", fr, ins):
        return []
    if not E.alloc_ok(st, c, fr, ins):
        return []
    x = z3.Int(E.fresh_name("mkslice"))
    typed(E, st, x, t, K["Slice"])
    E.D.facts += [z3.Not(isnil(E, x)), length(E, x) == E.D.sz(n)]
    return [(st, (RV(x),))]


@model("reflect.MakeMap", "reflect.MakeMapWithSize", desc="an empty map")
def _mkmap(E, fr, ins, st, args):
    t = rtype(args[0])
    if not pre(E, st, norm_bool(tkind(E, t) == K["Map"]), "MakeMap of another type", fr, ins):
        return []
    if len(args) > 1 and not E.alloc_ok(st, args[1], fr, ins):
        return []
    x = z3.Int(E.fresh_name("mkmap"))
    typed(E, st, x, t, K["Map"])
    E.D.facts += [z3.Not(isnil(E, x)), length(E, x) == 0]
    return [(st, (RV(x),))]


@model("reflect.Append", desc="the slice's elements followed by the given ones")
def _append(E, fr, ins, st, args):
    r = rv(E, args[0])
    if not is_root(E, r):
        raise Unsupported("reflect.Append to another value")
    if not pre(E, st, norm_bool(kind(E, r) == K["Slice"]), "Append to a kind that is not a slice", fr, ins):
        return []
    out = []
    for s, xs in E.content(st, args[1]):
        n = E.rlen(xs)
        if n != 1:
            raise Unsupported("reflect.Append of several values")
        m, rid, ln = mem(s)
        x = E.rope_at(s, xs, 0)[0][1]
        if not pre(E, s, norm_bool(typ(E, rv(E, x)) == E.uf("telem", (typ(E, r),), I)), "Append of a value of another type", fr, ins):
            continue
        mem_put(s, m=rset(E, s, m, E.uf("index", (rid, E.D.sz(ln)), I), valterm(E, s, x)))
        out.append((s, (Grown(rid, E.D.add(ln, 1)),)))
    return out


def settable(E, st, r, fr, ins):
    return pre(E, st, bool(addressable(E, r)), "setting a value that is not settable", fr, ins)


@v("CanSet", "addressable (fields are exported)")
def _(E, fr, ins, st, r):
    return [(st, (addressable(E, r),))]


@v("CanAddr", "addressable")
def _(E, fr, ins, st, r):
    return [(st, (addressable(E, r),))]


@v("Addr", "needs an addressable value")
def _(E, fr, ins, st, r):
    if not settable(E, st, r, fr, ins):
        return []
    return [(st, (RV(addr(E, r)),))]


def addr(E, r):
    if decl(r) == "elem" and decl(r.arg(0)).startswith("newptr"):
        return r.arg(0)
    a = E.uf("addr", (r,), I)
    once(E, ("addr", a.get_id()), [E.uf("type", (a,), I) == ptrto(E, typ(E, r)), kind(E, a) == K["Ptr"], z3.Not(isnil(E, a)), E.uf("elem", (a,), I) == r])
    elem(E, a)
    return a


@v("Set", "needs a settable value and a value of its type")
def _(E, fr, ins, st, r, x):
    if not settable(E, st, r, fr, ins):
        return []
    if isinstance(x, RV):
        t = typ(E, r)
        once(E, ("ptrto-inv", t.get_id()), [z3.Implies(tkind(E, t) == K["Ptr"], ptrto(E, E.uf("telem", (t,), I)) == t)])
        if not pre(E, st, norm_bool(typ(E, x.t) == t), "Set with a value of another type", fr, ins):
            return []
    assign(E, st, r, x)
    return [(st, ())]


def _setnum(signed):
    def f(E, fr, ins, st, r, x):
        ks = [k for i, k in enumerate(KINDS) if (k.startswith("Int") and k != "Interface" if signed else k.startswith("Uint"))]
        if not settable(E, st, r, fr, ins) or not pre(E, st, isin(kind(E, r), [K[k] for k in ks]), "setting an integer of another kind", fr, ins):
            return []
        t = numval(E, typ(E, r), x, signed)
        if is_root(E, r):
            mem_put(st, rid=t)
        else:
            mem_put(st, m=rset(E, st, mem(st)[0], r, t))
        return [(st, ())]
    return f


def numval(E, ty, x, signed):
    """an integer value of a type (of 64 bits, or in range)"""
    return E.uf("intval" if signed else "uintval", (ty, E.D.sz(x)), I)


v("SetInt", "needs a settable signed integer")(_setnum(True))
v("SetUint", "needs a settable unsigned integer")(_setnum(False))


@v("SetMapIndex", "needs a map that is not nil")
def _(E, fr, ins, st, r, k, x):
    if not is_root(E, r):
        raise Unsupported("SetMapIndex of another value")
    m, rid, n = mem(st)
    t = typ(E, r)
    if not pre(E, st, band(kind(E, r) == K["Map"], bnot(isnil(E, rid))), "assignment to an entry of a nil map", fr, ins):
        return []
    if not pre(E, st, band(typ(E, k.t) == E.uf("tkey", (t,), I), typ(E, x.t) == E.uf("telem", (t,), I)), "SetMapIndex with values of other types", fr, ins):
        return []
    mem_put(st, m=mapset(E, m, rid, valterm(E, st, k), valterm(E, st, x)))
    return [(st, ())]


def mapset(E, m, rid, k, x):
    return E.uf("mapset", (m, rid, k, x), I)
