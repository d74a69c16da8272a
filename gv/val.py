"""Symbolic values and ropes (sequences of symbolic length)."""
import z3
from .ssa import Unsupported
from .dom import conc, isb, norm_bool, band, bor, bnot, simp


class Nil:
    def __repr__(self):
        return "nil"


NIL = Nil()


class PtrV:
    __slots__ = ("oid", "path")

    def __init__(self, oid, path=()):
        self.oid, self.path = oid, path

    def __repr__(self):
        return "&%s%s" % (self.oid, "".join("." + str(p[1]) for p in self.path))


class SliceV:
    """loc: pointer to the array (a Rope value); nil slices have loc None"""
    __slots__ = ("loc", "off", "ln", "cap")

    def __init__(self, loc, off, ln, cap):
        self.loc, self.off, self.ln, self.cap = loc, off, ln, cap

    def __repr__(self):
        return "slice(%s,%s,%s,%s)" % (self.loc, self.off, self.ln, self.cap)


class StructV:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.vals))


class IfaceV:
    __slots__ = ("ty", "val")

    def __init__(self, ty, val):
        self.ty, self.val = ty, val

    def __repr__(self):
        return "iface(%s,%r)" % (self.ty if isinstance(self.ty, str) else self.ty.s, self.val)


class ErrV:
    """a non-nil error; kind 'EOF', 'UEOF', 'other'; 'end' = whatever the reader returns at its end"""
    __slots__ = ("kind", "id")

    def __init__(self, kind, id=None):
        self.kind, self.id = kind, id

    def __repr__(self):
        return "err(%s)" % self.kind


class FuncV:
    __slots__ = ("name", "bind", "py")

    def __init__(self, name, bind=(), py=None):
        self.name, self.bind, self.py = name, bind, py

    def __repr__(self):
        return "func(%s)" % self.name


class Opq:
    """opaque value of type ty identified by base name and argument terms"""
    __slots__ = ("ty", "base", "args")

    def __init__(self, ty, base, args=()):
        self.ty, self.base, self.args = ty, base, tuple(args)

    def __repr__(self):
        return "Opq<%s>%s%s" % (self.ty.s if hasattr(self.ty, "s") else self.ty, self.base, list(self.args))


class Float:
    """floating point value as an uninterpreted real expression (only sizes hints use it)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


# ---------------------------------------------------------------- ropes

class Lit:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "Lit%s" % (list(self.v),)


class ArrSrc:
    """bytes from a z3 array"""
    __slots__ = ("arr",)
    kind = "arr"

    def __init__(self, arr):
        self.arr = arr

    def key(self):
        return ("arr", self.arr.get_id())

    def __repr__(self):
        return "A:%s" % self.arr


class OpqSrc:
    """elements of an opaque sequence"""
    __slots__ = ("ty", "base", "args")
    kind = "opq"

    def __init__(self, ty, base, args=()):
        self.ty, self.base, self.args = ty, base, tuple(args)

    def key(self):
        return ("opq", self.base, tuple(akey(a) for a in self.args))

    def __repr__(self):
        return "O:%s%s" % (self.base, list(self.args))


class ConstSrc:
    __slots__ = ("v",)
    kind = "const"

    def __init__(self, v):
        self.v = v

    def key(self):
        return ("const", repr(self.v))

    def __repr__(self):
        return "C:%r" % (self.v,)


class FnSrc:
    """element i is body with the variable replaced by i (a comprehension)"""
    __slots__ = ("var", "body", "k")
    kind = "fn"
    _n = 0

    def __init__(self, var, body, k=None):
        self.var, self.body = var, body
        FnSrc._n += 1
        self.k = k or ("fn", FnSrc._n)

    def key(self):
        return self.k

    def __repr__(self):
        return "F:\\%s.%r" % (self.var, self.body)


class DefSrc:
    """elements given by a function of the index (and arguments) that also states facts about them"""
    __slots__ = ("f", "name", "args")
    kind = "def"

    def __init__(self, name, args, f):
        self.name, self.args, self.f = name, tuple(args), f

    def key(self):
        return ("def", self.name, tuple(akey(a) for a in self.args))

    def __repr__(self):
        return "D:%s%s" % (self.name, list(self.args))


class AppSrc:
    """bytes of a named specification function applied to values (hash of a message, base-58 text, ...)"""
    __slots__ = ("f", "args")
    kind = "app"

    def __init__(self, f, args):
        self.f, self.args = f, tuple(args)

    def key(self):
        from .spec import repr_key
        return ("app", self.f, repr_key(self.args))

    def __repr__(self):
        return "%s(%s)" % (self.f, ",".join(map(repr, self.args)))


def akey(a):
    return a.get_id() if isinstance(a, z3.ExprRef) else a


class View:
    __slots__ = ("src", "off", "n")

    def __init__(self, src, off, n):
        self.src, self.off, self.n = src, off, n

    def __repr__(self):
        return "%r[%s:+%s]" % (self.src, self.off, self.n)


class Generator:
    """what iteration `var` of a loop appends: guarded cases"""
    _n = 0

    def __init__(self, var, cases=None, name=None):
        Generator._n += 1
        self.id = Generator._n
        self.var = var
        self.cases = cases
        self.name = name or "g%d" % self.id

    def __repr__(self):
        return "%s(%s)" % (self.name, self.cases if self.cases is not None else "?")


class Gen:
    """concatenation of generator bodies for var in [a, a+n)"""
    __slots__ = ("g", "a", "n", "ln")

    def __init__(self, g, a, n, ln):
        self.g, self.a, self.n, self.ln = g, a, n, ln

    def __repr__(self):
        return "Gen(%s,%s,+%s)" % (self.g.name, self.a, self.n)


class Wire:
    """encoding of value v by codec c (a spec function application)"""
    __slots__ = ("c", "v", "ln")

    def __init__(self, c, v, ln):
        self.c, self.v, self.ln = c, v, ln

    def __repr__(self):
        return "Wire<%s>(%r)" % (self.c, self.v)


class App:
    """named spec function producing a sequence of known length, compared by key"""
    __slots__ = ("f", "args", "ln")

    def __init__(self, f, args, ln):
        self.f, self.args, self.ln = f, args, ln

    def __repr__(self):
        return "%s(%s)" % (self.f, ",".join(map(repr, self.args)))


class Rope:
    __slots__ = ("segs", "_ln")

    def __init__(self, segs=()):
        self.segs = tuple(segs)
        self._ln = None

    def __repr__(self):
        return "Rope[%s]" % " ++ ".join(map(repr, self.segs))

    def is_lit(self):
        return all(isinstance(s, Lit) for s in self.segs)

    def lit(self):
        if len(self.segs) == 1:
            return self.segs[0].v
        r = ()
        for s in self.segs:
            r += s.v
        return r


def lit(vals):
    vals = tuple(vals)
    return Rope((Lit(vals),)) if vals else Rope()


def free_consts(x, acc=None, seen=None):
    """uninterpreted constants of a z3 term"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [x]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t)
            st.extend(t.children())
        elif z3.is_quantifier(t):
            st.append(t.body())
    return acc


def vmap(v, f):
    """apply f to every z3 term inside a value"""
    if isinstance(v, z3.ExprRef):
        return f(v)
    if v is None or isinstance(v, (int, bool, str, Nil, ErrV)):
        return v
    if isinstance(v, StructV):
        return StructV([vmap(x, f) for x in v.vals])
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, list):
        return [vmap(x, f) for x in v]
    if isinstance(v, SliceV):
        return SliceV(vmap(v.loc, f) if v.loc is not None else None, vmap(v.off, f), vmap(v.ln, f), vmap(v.cap, f))
    if isinstance(v, PtrV):
        if hasattr(v, "vmap"):
            return v.vmap(f)
        return PtrV(v.oid, tuple((p[0], vmap(p[1], f)) for p in v.path))
    if isinstance(v, IfaceV):
        return IfaceV(v.ty, vmap(v.val, f))
    if isinstance(v, Opq):
        return Opq(v.ty, v.base, [vmap(a, f) for a in v.args])
    if isinstance(v, Rope):
        return Rope([vmap(s, f) for s in v.segs])
    if isinstance(v, Lit):
        return Lit([vmap(x, f) for x in v.v])
    if isinstance(v, View):
        return View(vmap(v.src, f), vmap(v.off, f), vmap(v.n, f))
    if isinstance(v, ArrSrc):
        return ArrSrc(f(v.arr))
    if isinstance(v, OpqSrc):
        return OpqSrc(v.ty, v.base, [vmap(a, f) for a in v.args])
    if isinstance(v, ConstSrc):
        return ConstSrc(vmap(v.v, f))
    if isinstance(v, AppSrc):
        return AppSrc(v.f, [vmap(a, f) for a in v.args])
    if isinstance(v, DefSrc):
        return DefSrc(v.name, [vmap(a, f) for a in v.args], v.f)
    if isinstance(v, FnSrc):
        b = vmap(v.body, f)
        return v if same(b, v.body) else FnSrc(v.var, b)
    if isinstance(v, Gen):
        g = v.g
        if g.cases is not None:
            nc = [(vmap(c, f), vmap(r, f)) for c, r in g.cases]
            if not all(same(a[0], b[0]) and same(a[1], b[1]) for a, b in zip(nc, g.cases)):
                g = Generator(g.var, nc, g.name + "'")
        return Gen(g, vmap(v.a, f), vmap(v.n, f), vmap(v.ln, f))
    if isinstance(v, Wire):
        return Wire(v.c, vmap(v.v, f), vmap(v.ln, f))
    if isinstance(v, App):
        return App(v.f, vmap(v.args, f), vmap(v.ln, f))
    if isinstance(v, (FuncV, Float)):
        return v
    if hasattr(v, "vmap"):
        return v.vmap(f)
    raise Unsupported("vmap %r" % (v,))


def same(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.get_id() == b.get_id()
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, bool, str)) or a is None:
        return a == b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, StructV):
        return same(a.vals, b.vals)
    if isinstance(a, SliceV):
        return same(a.loc, b.loc) and same(a.off, b.off) and same(a.ln, b.ln) and same(a.cap, b.cap)
    if isinstance(a, PtrV):
        if hasattr(a, "same"):
            return a.same(b)
        return a.oid == b.oid and same(a.path, b.path)
    if isinstance(a, IfaceV):
        return a.ty is b.ty and same(a.val, b.val)
    if isinstance(a, Opq):
        return a.base == b.base and same(a.args, b.args)
    if isinstance(a, Rope):
        return same(a.segs, b.segs)
    if isinstance(a, Lit):
        return same(a.v, b.v)
    if isinstance(a, View):
        return same(a.src, b.src) and same(a.off, b.off) and same(a.n, b.n)
    if isinstance(a, ArrSrc):
        return same(a.arr, b.arr)
    if isinstance(a, OpqSrc):
        return a.base == b.base and same(a.args, b.args)
    if isinstance(a, ConstSrc):
        return same(a.v, b.v)
    if isinstance(a, AppSrc):
        return a.f == b.f and same(a.args, b.args)
    if isinstance(a, FnSrc):
        return a.k == b.k or (same(a.var, b.var) and same(a.body, b.body))
    if isinstance(a, Gen):
        return a.g is b.g and same(a.a, b.a) and same(a.n, b.n)
    if isinstance(a, Wire):
        return a.c == b.c and same(a.v, b.v)
    if isinstance(a, App):
        return a.f == b.f and same(a.args, b.args)
    if isinstance(a, ErrV):
        return a.kind == b.kind and a.id == b.id
    if isinstance(a, FuncV):
        return a.name == b.name and same(a.bind, b.bind)
    if hasattr(a, "same"):
        return a.same(b)
    return False


def subst(v, pairs):
    pairs = [(a, b) for a, b in pairs]
    return vmap(v, lambda t: z3.substitute(t, *pairs))
