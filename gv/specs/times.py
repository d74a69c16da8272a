"""Contracts: time types (C13)."""
from ..contract import *
from ..spec import *
from .names import seq_in
from .. import textm as tx, timem as tm

EPOCH = 946684800 * tm.SEC       # 2000-01-01
HALF = tm.SEC // 2
MS, S = b"2006-01-02T15:04:05.000", b"2006-01-02T15:04:05"

# type: (layout, counter range, instant of a counter, counter of an instant)
KINDS = {
    "TimePoint": (MS, (-(1 << 63), (1 << 63) - 1), lambda c: c * 1000, lambda t: t / 1000),
    "TimePointSec": (S, (0, (1 << 32) - 1), lambda c: c * tm.SEC, lambda t: t / tm.SEC),
    "BlockTimestamp": (MS, (0, (1 << 32) - 1), lambda c: c * HALF + EPOCH, lambda t: (t - EPOCH + HALF // 2) / HALF),
}


def of_time(k):
    lay, (lo, hi), inst, cnt = KINDS[k]

    def f(E, st, a):
        c = E.D.fold(cnt(tm.zi(a[0].ns)))
        return [Out(s, (c,)) if o else Out(s, anything=True) for s, o in E.split(st, band(E.D.le(lo, c), E.D.le(c, hi)))]
    return f


def in_reach(k):
    """requires: the instant is one the counter can hold"""
    return None


def to_time(k):
    return lambda E, st, a: [Out(st, (tm.TimeV(E.D.fold(KINDS[k][2](tm.zi(a[0])))),))]


def text(k, tail=()):
    return lambda E, st, a: [Out(st, (tm.fmt(E, KINDS[k][0], E.D.fold(KINDS[k][2](tm.zi(a[0]))), True),) + tail)]


def strip(E, st, r):
    """[(st, text without one trailing Z)]"""
    n = E.rlen(r)
    out = []
    for s, e in E.split(st, E.D.eq(n, 0)):
        if e:
            out.append((s, r))
            continue
        c = E.rope_at(s, r, E.D.sub(n, 1), E.P.BYTE)[0][1]
        for s2, z in E.split(s, tx.bcmp(E, "==", c, 0x5A)):
            out.append((s2, tx.sub(E, s2, r, 0, E.D.sub(n, 1)) if z else r))
    return out


def value(E, st, k, r):
    """[(st, counter or None)] of a text without Z"""
    lay, (lo, hi), inst, cnt = KINDS[k]
    ok, ns = tm.parse(E, st, lay, r)
    out = []
    for s, o in E.split(st, ok):
        if not o:
            out.append((s, None))
            continue
        c = E.D.fold(cnt(tm.zi(ns)))
        for s2, g in E.split(s, band(E.D.le(lo, c), E.D.le(c, hi))):
            out.append((s2, c if g else None))
    return out


def parse(k, i, res):
    return lambda E, st, a: [res(s2, c) for s, r in strip(E, st, seq_in(E, st, a[i])) for s2, c in value(E, s, k, r)]


for k in KINDS:
    Contract("chain.New" + k, spec=of_time(k), mode="int", doc="counter of an instant in range (block timestamps: nearest half second)")
    Contract("(chain.%s).Time" % k, spec=to_time(k), mode="int", doc="the instant the counter denotes")
    Contract("(chain.%s).String" % k, spec=text(k), mode="int", doc="UTC text of the instant the counter denotes")
    Contract("(chain.%s).MarshalText" % k, spec=text(k, (NIL,)), mode="int", doc="UTC text of the instant the counter denotes")
    Contract("chain.New%sFromString" % k, mode="int", spec=parse(k, 0, lambda s, c: Out(s, (c, NIL)) if c is not None else Out(s, (ANY, ANYERR))),
             doc="counter of the instant the text denotes, with or without Z; an error when malformed or out of range")
    Contract("(*chain.%s).UnmarshalText" % k, mode="int", spec=parse(k, 1, lambda s, c: Out(s, (NIL,), post={0: c}) if c is not None else Out(s, (ANYERR,))),
             doc="as New%sFromString; on error the destination is unchanged" % k)


def lemmas(P):
    """over the specifications: counter -> instant -> counter and counter -> text -> counter"""
    out = []
    for k, (lay, (lo, hi), inst, cnt) in KINDS.items():
        s = z3.Solver()
        c = z3.Int("c")
        s.add(c >= lo, c <= hi, cnt(inst(c)) != c)
        out.append(("%s: every counter converts to its instant and back" % k, "proved" if s.check() == z3.unsat else "refuted", "z3"))
        E = Engine(P, "int", {})
        E.spec = spec.SPEC
        st = State()
        st.assume(c >= lo)
        st.assume(c <= hi)
        ns = E.D.fold(inst(c))
        st.assume(ns >= tm.MINP)
        st.assume(ns < tm.MAXP)
        r = tm.fmt(E, lay, ns, True)
        res = tm.RES[lay] // 1000 if k == "TimePoint" else 1
        for t, nm in ((r, ""), (strip(E, st, E.cat(r, lit(b"Z")))[0][1], " with Z")):
            ok = True
            for s, v in value(E, st, k, t):
                if E.pr.check(s, True) == z3.unsat:
                    continue
                ok = ok and v is not None and E.proves(s, tm.zi(v) == c / res * res)
            out.append(("%s: text%s of a counter (years 0 to 9999) parses to the same counter at the text's resolution" % (k, nm), "proved" if ok else "refuted", "z3"))
    return out
