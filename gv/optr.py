"""Pointers into an immutable data structure of unknown shape (integer mode): a pointer is named by an integer term (0: nil),
what it points at is a function of that term; strings are compared by keys (a key names the contents of a string)."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from . import models, reflm
from .reflm import Named, AnyV, I, B

TERMS = {}          # term id -> term (kept alive)


class OptrV(PtrV):
    __slots__ = ("t", "ty", "opath")

    def __init__(self, t, ty, path=()):
        self.t, self.ty, self.opath = t, ty, path
        TERMS[t.get_id()] = t

    @property
    def oid(self):
        return ("optr", self.ty.s, self.t.get_id())

    @property
    def path(self):
        return self.opath

    def sub(self, step):
        return OptrV(self.t, self.ty, self.opath + (step,))

    def vmap(self, f):
        return OptrV(f(self.t), self.ty, tuple((p[0], vmap(p[1], f)) for p in self.opath))

    def same(self, b):
        return self.oid == b.oid and same(self.opath, b.opath)

    def __repr__(self):
        return "&?%s%s" % (self.t, "".join("." + str(p[1]) for p in self.opath))

    def isnil(self, E, st):
        if self.opath or nonnil(E, self.t):
            return False
        return norm_bool(self.t == 0)

    def val_eq(self, G, st, b, label):
        if isinstance(b, OptrV) and b.ty is self.ty and same(self.opath, b.opath):
            return G.add(st, norm_bool(self.t == b.t), label)
        G.add(st, False, label + ": %r vs %r" % (self, b))

    def eq_fork(self, E, st, b):
        if isinstance(b, OptrV):
            if not same(self.opath, b.opath):
                raise Unsupported("comparison of inner pointers")
            return [(st, norm_bool(self.t == b.t))]
        if isinstance(b, PtrV):
            own = st.ghost.get("OWN")
            if own is not None and not self.opath and not b.path and b.oid == own.oid:      # the object this name stands for
                return [(st, norm_bool(self.t == st.ghost["OWNNODE"]))]
            if st.heap[b.oid].pre:
                raise Unsupported("comparison of pointers that may alias")
        return [(st, False)]

    def eqv(self, E, b):
        if isinstance(b, OptrV) and b.ty is self.ty and same(self.opath, b.opath):
            return norm_bool(self.t == b.t)
        return False

    def with_nil(self, c):
        return None if self.opath else OptrV(z3.If(c, z3.IntVal(0), self.t), self.ty)

    def merge(self, c, b):
        if isinstance(b, OptrV) and b.ty is self.ty and same(self.opath, b.opath):
            return OptrV(z3.If(c, self.t, b.t), self.ty, self.opath)
        return None


def nonnil(E, t):
    """a pointer the data structure never leaves nil"""
    return z3.is_app(t) and t.decl().name() in E.hooks.get("nonnil", ())


def cell(E, st, oid):
    """the (immutable) object a named pointer points at"""
    from .engine import Obj
    ty = E.P.byname[oid[1]]
    et = E.P.elem(ty)
    t = TERMS[oid[2]]
    if st.ghost.get("OWNKEY") is not None and et.s.endswith("resolvedType"):
        raise Unsupported("reads a node that may be under construction")
    st.heap[oid] = Obj("cell", et, E.opq(st, et, "at:" + et.s, (t,)), True, "named")
    return st.heap[oid]


def keyable(r):
    if r.is_lit():
        return all(isinstance(x, int) for x in r.lit())
    return len(r.segs) == 1 and isinstance(r.segs[0], View) and r.segs[0].src.kind == "arr" and isinstance(r.segs[0].off, int) and r.segs[0].off == 0


def strkey(E, r):
    """term naming the contents of a string"""
    lits = E.ufs.setdefault(("strlits",), {b"": 0})
    if r.is_lit():
        v = r.lit()
        if not all(isinstance(x, int) for x in v):
            raise Unsupported("key of a computed string")
        return z3.IntVal(lits.setdefault(bytes(v), len(lits)))
    if keyable(r):
        s = r.segs[0]
        k = E.uf("strkey", (s.src.arr, E.D.sz(s.n)), I)
        reflm.once(E, ("strkey", k.get_id()), [(k == 0) == (E.D.sz(s.n) == 0)])
        E.keep.append(k)
        return k
    raise Unsupported("key of %r" % (r,))


class BoxV(PtrV):
    """pointer to an object made once and not written again: only what it holds matters"""
    __slots__ = ("val", "ty")

    def __init__(self, val, ty):
        self.val, self.ty = val, ty

    @property
    def oid(self):
        raise Unsupported("use of a pointer made in a loop")

    path = oid

    def vmap(self, f):
        return BoxV(vmap(self.val, f), self.ty)

    def same(self, b):
        return isinstance(b, BoxV) and same(self.val, b.val)

    def __repr__(self):
        return "&{%r}" % (self.val,)

    def isnil(self, E, st):
        return False

    def val_eq(self, G, st, b, label):
        if not isinstance(b, BoxV):
            return G.add(st, False, label + ": %r vs %r" % (self, b))
        for x, y in zip(self.val.vals, b.val.vals):
            if isinstance(x, Rope) and isinstance(y, Rope):
                G.add(st, norm_bool(strkey(G.E, x) == strkey(G.E, y)), label)
            else:
                G.val_eq(st, x, y, label)


class MapV(Named):
    """a map[string]interface{} held by an interface value of unknown type"""
    __slots__ = ()

    def isnil(self, E, st):
        return E.uf("mapnil", (self.t,), B)

    def lookup(self, E, st, k, et, ok):
        v = AnyV(E.uf("mapget", (self.t, strkey(E, k)), I))
        if ok:
            b = E.uf("maphas", (self.t, strkey(E, k)), B)
            return [(s, (v if h else NIL, h)) for s, h in E.split(st, b)]
        return [(st, v)]


def mapset(E, m, k, v):
    """a map (named by a term, 0: empty) after storing v under the key"""
    return E.uf("mapset", (m, k, v), I)


def map_set(E, st, m, k, v):
    o = st.heap[m.oid]
    t = z3.If(zb(v), z3.IntVal(1), z3.IntVal(0)) if isinstance(v, (bool, z3.BoolRef)) else reflm.any_term(E, st, v)
    st.heap[m.oid] = o.with_val(StructV((mapset(E, o.val.vals[0], strkey(E, k), simp(t)),)))
    return [(st, None)]


def map_true(E, m, k):
    """is the value stored under the key of a map of booleans true?"""
    b = E.uf("maptrue", (m, k), B)
    fs = [z3.Implies(m == 0, z3.Not(b))]
    if z3.is_app(m) and m.decl().name() == "mapset":
        fs.append(b == z3.If(m.arg(1) == k, m.arg(2) == 1, map_true(E, m.arg(0), k)))
    reflm.once(E, ("maptrue", b.get_id()), fs)
    E.keep.append(b)
    return b


def map_get(E, st, m, k, et, ok):
    if ok or E.P.kind(et) != "bool":
        raise Unsupported("map lookup")
    return [(st, map_true(E, st.heap[m.oid].val.vals[0], strkey(E, k)))]


@models.model("reflect.TypeOf", desc="the dynamic type, nil for nil")
def _typeof(E, fr, ins, st, args):
    if not isinstance(args[0], AnyV):
        raise Unsupported("type of %r" % (args[0],))
    t = args[0].t
    return [(s, (NIL if n else reflm.RT(reflm.typ(E, reflm.valueof(E, t))),)) for s, n in E.split(st, args[0].isnil(E, st))]
