"""Trusted model of time.Time (integer mode): an instant, in nanoseconds since 1970, and whether it is expressed in UTC.
Format and Parse are functions of layout and instant (text); that parsing inverts formatting at the layout's resolution is assumed."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from . import textm
from .models import model, err

SEC = 10 ** 9
YEAR1 = -62135596800 * SEC              # the zero Time
MINP, MAXP = -62167219200 * SEC, 253402300800 * SEC     # years 0 to 9999, what a four-digit year can say
LIM = 1 << 92
RES = {b"2006-01-02T15:04:05.000": 10 ** 6, b"2006-01-02T15:04:05": SEC}


class TimeV:
    __slots__ = ("ns", "utc")

    def __init__(self, ns, utc=None):
        self.ns, self.utc = ns, utc

    def __repr__(self):
        return "time(%s)" % (self.ns,)

    def vmap(self, f):
        return TimeV(f(self.ns) if isinstance(self.ns, z3.ExprRef) else self.ns, self.utc)

    def same(self, b):
        return same(self.ns, b.ns) and self.utc == b.utc

    def val_eq(self, G, st, b, label):
        if not isinstance(b, TimeV):
            return G.add(st, False, label + ": not a time")
        G.add(st, G.E.D.eq(self.ns, b.ns), label + ": instant")


def need(E):
    if E.D.name != "int":
        raise Unsupported("time in bit-vector mode")


def tv(E, st, v):
    need(E)
    if not isinstance(v, TimeV):
        raise Unsupported("time value %r" % (v,))
    return v.ns


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def ext(E, f):
    return E.D.fold(f)


def fdiv(E, a, k):
    """floor division by a positive constant"""
    return E.D.fold(zi(a) / k)


def counter(E, ns, k):
    """int64 of floor(ns/k)"""
    return E.D.wrap(fdiv(E, ns, k), E.P.byname["int64"])


DESC = "time.Time as an instant in nanoseconds; Format/Parse as functions of layout and instant"


@model("time.Unix", desc=DESC)
def _unix(E, fr, ins, st, a):
    need(E)
    if not isinstance(a[0], int) and not E.proves(st, z3.And(zi(a[0]) < 1 << 62, zi(a[0]) > -(1 << 62))):
        raise Unsupported("time.Unix of an extreme value")
    return [(st, (TimeV(E.D.fold(zi(a[0]) * SEC + zi(a[1])), False),))]


@model("time.UnixMilli", desc=DESC)
def _unixmilli(E, fr, ins, st, a):
    need(E)
    return [(st, (TimeV(E.D.fold(zi(a[0]) * 10 ** 6), False),))]


@model("time.UnixMicro", desc=DESC)
def _unixmicro(E, fr, ins, st, a):
    need(E)
    return [(st, (TimeV(E.D.fold(zi(a[0]) * 1000), False),))]


for _n, _k in (("Unix", SEC), ("UnixMilli", 10 ** 6), ("UnixMicro", 1000), ("UnixNano", 1)):
    def _f(E, fr, ins, st, a, k=_k):
        return [(st, (counter(E, tv(E, st, a[0]), k),))]
    model("(time.Time)." + _n, desc=DESC)(_f)


@model("(time.Time).Nanosecond", desc=DESC)
def _nano(E, fr, ins, st, a):
    return [(st, (E.D.setr(E.D.fold(zi(tv(E, st, a[0])) % SEC), 0, SEC - 1),))]


@model("(time.Time).UTC", desc=DESC)
def _utc(E, fr, ins, st, a):
    return [(st, (TimeV(tv(E, st, a[0]), True),))]


@model("(time.Time).Local", "(time.Time).In", desc=DESC)
def _local(E, fr, ins, st, a):
    return [(st, (TimeV(tv(E, st, a[0]), False),))]


def since1(E, st, t, d):
    """(offset in the current period since year 1, period) or Unsupported"""
    if not isinstance(d, int) or d <= 0:
        raise Unsupported("rounding to a symbolic or non-positive duration")
    return zi(E.D.fold((zi(t) - YEAR1) % d))


@model("(time.Time).Truncate", desc=DESC)
def _trunc(E, fr, ins, st, a):
    t = tv(E, st, a[0])
    return [(st, (TimeV(E.D.fold(zi(t) - since1(E, st, t, a[1])), a[0].utc),))]


@model("(time.Time).Round", desc=DESC)
def _round(E, fr, ins, st, a):
    t = tv(E, st, a[0])
    r = since1(E, st, t, a[1])
    return [(st, (TimeV(E.D.fold(z3.If(r + r < a[1], zi(t) - r, zi(t) + (a[1] - r))), a[0].utc),))]


@model("(time.Time).Add", desc=DESC)
def _add(E, fr, ins, st, a):
    return [(st, (TimeV(E.D.fold(zi(tv(E, st, a[0])) + zi(a[1])), a[0].utc),))]


@model("(time.Time).Sub", desc=DESC)
def _sub(E, fr, ins, st, a):
    d = zi(tv(E, st, a[0])) - zi(tv(E, st, a[1]))
    lo, hi = -(1 << 63), (1 << 63) - 1
    return [(st, (E.D.setr(E.D.fold(z3.If(d < lo, zi(lo), z3.If(d > hi, zi(hi), d))), lo, hi),))]


for _n, _o in (("Before", "<"), ("After", ">"), ("Equal", "==")):
    def _f(E, fr, ins, st, a, o=_o):
        return [(st, (E.D.cmp(o, tv(E, st, a[0]), tv(E, st, a[1]), None),))]
    model("(time.Time)." + _n, desc=DESC)(_f)


@model("(time.Time).IsZero", desc=DESC)
def _isz(E, fr, ins, st, a):
    return [(st, (E.D.eq(tv(E, st, a[0]), YEAR1),))]


@model("time.Date", desc=DESC)
def _date(E, fr, ins, st, a):
    import calendar
    need(E)
    if not all(isinstance(x, int) for x in a[:7]) or not isglob(a[7], "utcLoc"):
        raise Unsupported("time.Date of symbolic values or another zone")
    y, mo, d, h, m, s, n = a[:7]
    if not (1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= d <= 28):
        raise Unsupported("time.Date")
    return [(st, (TimeV((calendar.timegm((y, mo, d, 0, 0, 0)) + h * 3600 + m * 60 + s) * SEC + n, True),))]


def isglob(v, name):
    return False


def layout(r):
    if not isinstance(r, Rope) or not textm.concrete(r):
        raise Unsupported("symbolic time layout")
    return textm.cbytes(r)


def fmt(E, lay, ns, utc):
    """text of an instant"""
    f = "time text" if utc else "time text in an unspecified zone"
    lay = Rope((Lit(lay),))
    from .spec import repr_key
    k = ("timelen", f, repr_key((lay, ns)))
    ln = E.ufs.get(k)
    if ln is None:
        ln = E.ufs[k] = E.D.fresh(E.fresh_name("tlen"), E.P.INT)
        E.keep.append(ns)
        E.D.facts += [ln >= 1, ln <= 64]
    return Rope((App(f, (lay, ns), ln),))


def parse(E, st, lay, r):
    """(ok, instant) of a text; an instant of years 0 to 9999"""
    if len(r.segs) == 1 and isinstance(r.segs[0], App) and r.segs[0].f == "time text":
        a = r.segs[0]
        if textm.cbytes(a.args[0]) == lay and lay in RES:
            ns = zi(a.args[1])
            ok = z3.And(ns >= MINP, ns < MAXP)
            if E.proves(st, ok):
                return True, E.D.fold(ns / RES[lay] * RES[lay])
    k = textm.key(E, st, r)
    tag = "time." + lay.decode("latin-1")
    ok = E.uf(tag + "#ok", k, z3.BoolSort())
    ns = E.uf(tag, k, z3.IntSort())
    if textm.once(E, tag, ns):
        E.D.facts += [ns >= MINP, ns < MAXP]
    return ok, ns


@model("(time.Time).Format", desc=DESC)
def _format(E, fr, ins, st, a):
    return [(st, (fmt(E, layout(a[1]), tv(E, st, a[0]), a[0].utc),))]


@model("(time.Time).AppendFormat", desc=DESC)
def _appendformat(E, fr, ins, st, a):
    out = []
    for s, r in E.content(st, a[1]):
        out.append((s, (E.mkslice(s, E.cat(r, fmt(E, layout(a[2]), tv(E, s, a[0]), a[0].utc))),)))
    return out


@model("time.Parse", desc=DESC)
def _parse(E, fr, ins, st, a):
    need(E)
    ok, ns = parse(E, st, layout(a[0]), a[1])
    out = []
    for s, o in E.split(st, ok):
        out.append((s, (TimeV(ns, True), NIL)) if o else (s, (TimeV(YEAR1, True), err(E))))
    return out
