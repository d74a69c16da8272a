"""Contracts on /repo's functions: how they are verified against bodies and used at call sites."""
import time, z3, traceback
from .ssa import Unsupported
from .dom import *
from .val import *
from .engine import Engine, State, Obj, Univ, Budget, LoopLimit, Frame
from . import models, spec, textm, cryptom, bigm, timem, reflm
from .spec import CODECS, Goals, ForAll, Alt

MOD = "github.com/greymass/go-eosio/pkg/"
CONTRACTS = {}


def full(n):
    for p in ("abi", "chain", "base58", "ripemd160"):
        for pre in ("(*", "(", ""):
            if n.startswith(pre + p + "."):
                return pre + MOD + n[len(pre):]
    return n


class Out:
    """one outcome the specification allows, under the extra assumptions of st"""

    def __init__(self, st, results=None, post=None, emit=None, panics=False, mayerr=False, anything=False, wany=(), pick=None, also=None, covers=()):
        self.also = also            # (Goals, state, results): further obligations
        self.covers = covers        # objects that may change
        self.wany = wany            # encoder parameters: what has been written is not specified (errors)
        self.pick = pick            # (state, results) -> does this alternative apply to this outcome?
        self.anything = anything    # nothing is promised here
        self.st, self.results, self.post, self.emit, self.panics = st, results, post or {}, emit or {}, panics
        self.mayerr = mayerr        # an error (with nothing else changed) is acceptable as well


class AnyErr:
    """some non-nil error"""

    def __repr__(self):
        return "non-nil error"


ANYERR = AnyErr()
ANY = object()


class Contract:
    def __init__(self, name, spec=None, writes=None, reads=None, mode="bv", requires=None, setup=None, doc="",
                 modifies=(), inline=(), deadline=None, errpos="any", usable=None, hooks=None, unroll=None, noapply=False,
                 opaque=(), fresh=True, cname=None, extra=None, anymode=False, decided=None, cands=None, define=None, spare=()):
        self.spare = spare          # slice parameters whose spare capacity may be overwritten (append)
        self.define = define        # the specification to verify against where call sites use a more abstract one (spec)
        self.cands = cands          # (E, loop, args) -> loops.Cand: candidate loop invariants
        self.anymode = anymode
        self.decided = decided      # property that decides this contract: other properties assume it
        self.name = full(name)
        self.short = name
        self.spec = spec            # (E, st, args by name) -> [Out]
        self.writes = writes        # (encoder param, codec name, value getter)
        self.reads = reads          # (decoder param, codec name, target: result index | '*param')
        self.mode = mode
        self.requires = requires
        self.setup = setup
        self.doc = doc
        self.modifies = set(modifies)
        self.inline = set(full(x) for x in inline)
        self._usable = usable
        self.hooks = hooks or {}
        self.unroll = unroll
        self.noapply = noapply
        self.eofexact = False       # reads: the error is io.EOF exactly when nothing was left to read
        self.extra = extra          # reads: (E, st, args, alt) -> {result index: value} on success
        CONTRACTS[full(cname) if cname else self.name] = self
        self.parts = ()             # contracts that verify further cases of this one
        if cname:
            self.short, self.noapply = cname, True

    # ------------------------------------------------------------ call sites
    def usable(self, E):
        if self.noapply or E.D.name != self.mode and not (self.reads or self.writes or self.anymode):
            return False
        if E.root is not None and self.name in E.inline_here:
            return False
        return True

    def apply(self, E, fr, ins, st, args):
        fn = E.P.funcs[self.name]
        names = [n for n, _ in fn.params]
        a = argmap(names, args)
        rts = [t for _, t in fn.results]
        if self.requires:
            for c in self.requires(E, st, a):
                if not E.require(st, c, "precondition of " + self.short, fr, ins):
                    return []
        out = []
        if self.writes:
            ep, cname, get = self.writes
            w = encoder_writer(E, st, a[ep] if isinstance(ep, str) else args[ep])
            v = get(E, st, args)
            piece = codec(cname, E, st, args).node(E, st, spec.norm_seq(E, st, v))
            for s, ok in models.emit(E, st, w, piece):
                out.append((s, (NIL if ok else models.err(E),)))
            return out
        if self.reads:
            dp, cname, target = self.reads
            r = decoder_reader(E, st, args[dp])
            if st.ghost.get("IN") is None or models.rd(st, r)[1] is not st.ghost.get("INROPE"):
                raise Unsupported("contract of %s on a reader other than the input" % self.short)
            p = models.rd(st, r)[0]
            for alt in codec(cname, E, st, args).parse(E, st, p):
                if not E.pr.feasible(st, alt.guard):
                    continue
                s = st.fork()
                if alt.guard is not True:
                    s.assume(alt.guard)
                atoms = flat(alt.ok)
                okc = band(*[x for x in atoms if not isinstance(x, ForAll)])
                fas = [x for x in atoms if isinstance(x, ForAll)]
                # success
                if E.pr.feasible(s, okc):
                    s1 = s.fork()
                    s1.assume(okc)
                    for fa in fas:
                        s1.univ.append(forall_univ(E, fa))
                    models.rd_set(s1, r, alt.next)
                    out += self.deliver(E, s1, args, rts, target, alt)
                # failure
                for s2 in failures(E, s, atoms):
                    np = E.fresh_sz(s2, "fpos", 0)
                    s2.assume(E.D.le(np, E.rlen(models.rd(s2, r)[1])))
                    s2.assume(E.D.le(p, np))
                    models.rd_set(s2, r, np)
                    eof = E.fresh_bool("eof")
                    if self.eofexact:
                        g = self.eofexact(E, args) if callable(self.eofexact) else True
                        eof = at_end(E, s2, r, p) if g is True else norm_bool(z3.If(zb(g), zb(at_end(E, s2, r, p)), eof))
                    out += self.deliver(E, s2, args, rts, target, None, ErrV("end", (eof,)))
            return out
        outs = list(self.spec(E, st.fork(), a))
        if any(o.anything and E.pr.check(o.st, True) != z3.unsat for o in outs):
            return None         # called where the contract promises nothing: the body decides
        for o in outs:
            s = o.st
            if o.anything:
                continue
            if o.panics:
                if E.pr.feasible(s, True) and E.pr.check(s, True) != z3.unsat:
                    E.require(s, False, "panic in " + self.short, fr, ins)
                continue
            if o.mayerr:
                s2 = s.fork()
                b = E.fresh_bool("mayerr")
                s.assume(z3.Not(b))
                s2.assume(b)
                out.append((s2, tuple([self.inst(E, s2, ANY, t) for t in rts[:-1]] + [models.err(E)])))
            res = []
            for v, t in zip(o.results, rts):
                res.append(self.inst(E, s, v, t))
            ok = True
            sts = [s]
            for p, v in o.post.items():
                ns = []
                for s1 in sts:
                    pt = fn.params[p if isinstance(p, int) else names.index(p)][1]
                    ns += E.store(s1, a[p], self.inst(E, s1, v, E.P.elem(pt)))
                sts = ns
            for p in o.wany:
                for s1 in sts:
                    models.emit_junk(E, s1, encoder_writer(E, s1, a[p]))
            for p, piece in o.emit.items():
                ns = []
                for s1 in sts:
                    w = encoder_writer(E, s1, a[p])
                    for s2, k in models.emit(E, s1, w, piece):
                        if k:
                            ns.append(s2)
                        else:
                            out.append((s2, tuple([NIL] * (len(rts) - 1) + [models.err(E)])))
                sts = ns
            for s1 in sts:
                out.append((s1, tuple(res)))
        return out

    def inst(self, E, st, v, ty):
        """specification value -> program value of type ty"""
        if v is ANYERR:
            return models.err(E)
        if hasattr(v, "inst"):
            return v.inst(E, st)
        if v is ANY:
            return E.opq(st, ty, E.fresh_name("any"))
        k = E.P.kind(ty)
        if k == "slice" and isinstance(v, Rope):
            return E.mkslice(st, v)
        if k == "struct" and isinstance(v, StructV):
            return StructV([self.inst(E, st, x, f[1]) for x, f in zip(v.vals, E.P.fields(ty))])
        if k == "ptr" and isinstance(v, (StructV, Opq, bigm.BigV)):
            et = E.P.elem(ty)
            return PtrV(E.new(st, "cell", et, self.inst(E, st, v, et)))
        return v

    def deliver(self, E, st, args, rts, target, val, e=None):
        ex = self.extra(E, st, args, val) if self.extra and val is not None else {}
        val = val.val if val is not None else None
        if isinstance(target, int):
            res = []
            for i, t in enumerate(rts[:-1]):
                v = ANY if val is None else val if i == target else ex.get(i, ANY)
                res.append(self.inst(E, st, v, t))
            return [(st, tuple(res) + (NIL if e is None else e,))]
        p = args[int(target[1:])]
        et = E.P.elem(E.P.funcs[self.name].params[int(target[1:])][1])
        v = self.inst(E, st, ANY if val is None else val, et)
        return [(s, (NIL if e is None else e,)) for s in E.store(st, p, v)]


def at_end(E, st, r, p):
    """nothing left at p, and the reader ends with io.EOF"""
    v = models.rd(st, r)
    return band(E.D.eq(p, E.rlen(v[1])), v[2])


def argmap(names, args):
    """arguments by name and by position (contracts use positions: parameter names are free to change)"""
    a = dict(zip(names, args))
    a.update(enumerate(args))
    return a


def codec(c, E, st, args):
    return c(E, st, args) if callable(c) else CODECS[c]


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += flat(x)
        else:
            out.append(x)
    return out


def forall_univ(E, fa):
    D = E.D

    def f(j):
        return bimp(band(D.le(0, j), D.lt(j, fa.n)), band(*flat(fa.f(j))))
    return Univ(f, "each element")


def encoder_writer(E, st, p):
    return iface_field(E, st, p, "io.Writer")


def decoder_reader(E, st, p):
    return iface_field(E, st, p, "io.Reader")


def iface_field(E, st, p, tyname):
    if isinstance(p, IfaceV):
        return p
    v = E.load(st, p)[0][1]
    o = st.heap[p.oid]
    for i, (n, t, _) in enumerate(E.P.fields(o.ty)):
        if t.s == tyname:
            return v.vals[i]
    raise Unsupported("no %s field" % tyname)


# ---------------------------------------------------------------- verification of one contract

class Ob:
    """one obligation"""
    __slots__ = ("name", "status", "backend", "detail", "model", "st")

    def __init__(self, name, status, backend=None, detail=None, model=None, st=None):
        self.name, self.status, self.backend, self.detail, self.model, self.st = name, status, backend, detail, model, st


class Result:
    def __init__(self, c):
        self.c = c
        self.obs = []
        self.unsupported = None
        self.used, self.inlined, self.models = {}, set(), set()
        self.time = 0
        self.solver = 0
        self.loops = {}
        self.loops_term = {}
        self.paths = 0
        self.args = None
        self.by = {}


def failures(E, st, atoms):
    """states in which some atom fails (one with a witness for every quantified one)"""
    atoms = flat(atoms)
    okc = band(*[x for x in atoms if not isinstance(x, ForAll)])
    if E.pr.feasible(st, bnot(okc)):
        s = st.fork()
        s.assume(bnot(okc))
        yield s
    for x in atoms:
        if isinstance(x, ForAll):
            s = st.fork()
            s.assume(okc)
            j = E.fresh_sz(s, "bad", 0)
            s.assume(E.D.lt(j, x.n))
            s.idx = s.idx + [j]
            yield from failures(E, s, x.f(j))


def mk_abi(E, st, kind, fr=None):
    """an encoder or decoder with abstract writer/reader and abstract dispatch function"""
    ty = E.P.byname[MOD + "abi." + kind]
    vals = []
    for n, t, _ in E.P.fields(ty):
        if t.s == "io.Writer":
            vals.append(models.new_writer(E, st))
        elif t.s == "io.Reader":
            vals.append(mk_reader(E, st))
        elif E.P.kind(t) == "func":
            vals.append(FuncV("abstract:fn", (), E.hooks.get("abifn", _nofn)))
        else:
            vals.append(E.opq(st, t, "%s.%s" % (kind, n)))
    oid = E.new(st, "cell", ty, StructV(vals), pre=True, tag=kind)
    return PtrV(oid)


def _nofn(E, fr, ins, st, args):
    raise Unsupported("call of the user's encode/decode function")


def mk_reader(E, st):
    D = E.D
    arr = z3.Const("IN", E.arrsort())
    N = D.fresh("N", E.P.INT)
    st.assume(D.le(0, N))
    st.assume(D.le(N, (1 << 32) - 1))
    if D.name == "int":
        D.setr(N, 0, (1 << 32) - 1)
    r = Rope((View(ArrSrc(arr), 0, N),))
    rd = models.new_reader(E, st, r, z3.Bool("endEOF"))
    pos = D.fresh("pos0", E.P.INT)
    st.assume(D.le(0, pos))
    st.assume(D.le(pos, N))
    models.rd_set(st, rd, pos)
    st.ghost["IN"], st.ghost["N"], st.ghost["INROPE"] = arr, N, r
    st.ghost["alloclim"] = D.add(N, 1 << 20)
    return rd


def default_arg(E, st, n, t):
    if t.s == "*" + MOD + "abi.Encoder":
        return mk_abi(E, st, "Encoder")
    if t.s == "*" + MOD + "abi.Decoder":
        return mk_abi(E, st, "Decoder")
    if t.s == "io.Writer":
        return models.new_writer(E, st)
    if t.s == "io.Reader":
        return mk_reader(E, st)
    if t.s == "time.Time" and E.D.name == "int":
        v = z3.Int(n)
        st.assume(v > -timem.LIM)
        st.assume(v < timem.LIM)
        return timem.TimeV(v)
    if t.s == "*math/big.Int":
        v = z3.BitVec(n, bigm.W) if E.D.name == "bv" else z3.Int(n)
        if E.D.name == "bv":
            lim = z3.BitVecVal(1 << bigm.HB, bigm.W)
            st.assume(v < lim)
            st.assume(v > -lim)
        b = bigm.BigV(v, bigm.HB, z3.Bool(n + "#huge") if E.D.name == "bv" else False)
        return PtrV(E.new(st, "cell", E.P.elem(t), b, pre=True, tag=n))
    if E.P.kind(t) == "ptr":
        et = E.P.elem(t)
        oid = E.new(st, "cell", et, E.opq(st, et, n), pre=True, tag=n)
        return PtrV(oid)
    return E.opq(st, t, n)


def verify(P, c, contracts=None, deadline=None, dom=None):
    t0 = time.time()
    R = Result(c)
    E = None
    try:
        fn = P.funcs.get(c.name)
        if fn is None or not fn.blocks:
            raise Unsupported("function %s not found" % c.short)
        E = Engine(P, c.mode, contracts if contracts is not None else CONTRACTS, deadline=deadline)
        E.spec = spec.SPEC
        E.root = c.name
        E.inline_here = c.inline
        E.hooks = dict(c.hooks)
        E.D.raw = c.hooks.get("raw", 0)
        if c.unroll:
            E.unroll = c.unroll
        st = State()
        if c.setup:
            args = c.setup(E, st, fn)
        else:
            args = [default_arg(E, st, n, t) for n, t in fn.params]
        names = [n for n, _ in fn.params]
        a = argmap(names, args)
        R.args = a
        if c.cands:
            E.cands = lambda S: c.cands(E, S, a)
        if c.requires:
            for x in c.requires(E, st, a):
                st.assume(x)
        # vacuity guard: the precondition is satisfiable
        if E.pr.check(st, True) == z3.unsat:
            R.obs.append(Ob("precondition satisfiable", "refuted", detail="vacuous precondition"))
            return R
        st0 = st.fork()
        outs = E.call_func(fn, args, st.fork(), 0)
        R.E, R.st0 = E, st0
        chk = Checker(E, c, R, st0, a, fn)
        for p in E.panics:
            chk.panic(p)
        R.sites = E.sites
        np = len(E.panics)
        E.frame0 = Frame(fn, 1)
        for s, res in outs:
            chk.outcome(s, res)
        for p in E.panics[np:]:         # of functions the specification called
            chk.panic(p)
        if not outs and not E.panics:
            R.obs.append(Ob("some path returns", "unknown", detail="no outcome"))
        # panic sites proved absent
        for i in range(max(0, E.sites - len(E.panics))):
            R.obs.append(Ob("no panic", "proved", "z3"))
    except Unsupported as e:
        R.unsupported = str(e)
    except Budget:
        R.unsupported = "time budget exhausted"
    except LoopLimit as e:
        R.unsupported = "loop limit"
    except RecursionError:
        R.unsupported = "recursion limit of the verifier"
    except z3.Z3Exception as e:
        R.unsupported = "solver error: " + str(e)[:200]
    except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        R.unsupported = "verifier error: %s: %s" % (type(e).__name__, e)
        R.trace = traceback.format_exc()
    finally:
        R.time = time.time() - t0
        if E is not None:
            if R.unsupported and E.refuted:
                R.obs.append(Ob("loop invariant offered by the contract: " + E.refuted[0], "refuted"))
            R.used, R.inlined, R.models, R.loops = dict(E.used), set(E.inlined), set(E.models_used), dict(E.loops_done)
            R.loops_term = dict(E.loops_term)
            R.solver, R.by, R.paths = E.pr.time, dict(E.pr.by), E.paths
            R.assumed = set(E.assumed)
    return R


class Checker:
    def __init__(self, E, c, R, st0, a, fn):
        self.E, self.c, self.R, self.st0, self.a, self.fn = E, c, R, st0, a, fn
        self.base = len(st0.pc)
        self._souts = None

    def ob(self, st, goal, name):
        if goal is True:
            self.E.pr.by["syntactic"] += 1
            self.R.obs.append(Ob(name, "proved", "syntactic"))
            return True
        status, m, be = self.E.pr.decide(st, goal)
        self.R.obs.append(Ob(name, status, be, None if status == "proved" else str(goal)[:2000], m, st))
        return status == "proved"

    def goals(self, g, name=""):
        for s, gl, label in g.items:
            self.ob(s, gl, (name + label))

    def panic(self, p):
        E = self.E
        st = p.st
        if self.c.spec:
            # allowed when the specification panics here
            conds = []
            for o in self.souts():
                if o.panics or o.anything:
                    conds.append(band(*o.st.pc[self.base:]))
            if conds:
                self.ob(st, bor(*conds), "panics only when documented: %s (%s line %s)" % (p.msg, short(p.fn), p.line))
                return
        self.ob(st, False, "no panic: %s (%s line %s)" % (p.msg, short(p.fn), p.line))

    def souts(self):
        if self._souts is None:
            self._souts = (self.c.define or self.c.spec)(self.E, self.st0.fork(), dict(self.a))
        return self._souts

    def pname(self, p):
        return self.fn.params[p][0] if isinstance(p, int) else p

    def writers(self, st):
        return [(k, o) for k, o in st.heap.items() if o.kind == "writer"]

    def outcome(self, st, res):
        E, c = self.E, self.c
        rts = [t for _, t in self.fn.results]
        e = res[-1] if rts and rts[-1].s == "error" else None
        iserr = e is not None and e is not NIL
        if e is not None and isinstance(e, (Opq, z3.ExprRef)):
            raise Unsupported("symbolic error result")
        failed = False
        for k, o in self.writers(st):
            f = o.val.vals[1]
            if f is True:
                failed = True
            elif f is not False:
                raise Unsupported("merged writer failure")
        if failed:
            self.ob(st, bool(iserr), "write error is returned")
            return
        covered = set()
        if c.writes:
            ep, cname, get = c.writes
            args = [self.a[n] for n, _ in self.fn.params]
            w = encoder_writer(E, self.st0, args[ep])
            covered.add(w.val.oid)
            if iserr:
                self.ob(st, False, "succeeds when the writer does")
                return
            s = st.fork()
            want = codec(cname, E, self.st0, args).node(E, s, spec.norm_seq(E, s, get(E, self.st0, args)))
            got = models.writer_out(E, st, w)
            g = Goals(E)
            g.rope_eq(s, got, want, "written bytes")
            self.goals(g)
        elif c.reads:
            dp, cname, target = c.reads
            args = [self.a[n] for n, _ in self.fn.params]
            r = decoder_reader(E, self.st0, args[dp])
            covered.add(r.val.oid)
            p0 = models.rd(self.st0, r)[0]
            deep = True
            for alt in codec(cname, E, self.st0, args).parse(E, st, p0, deep=True):
                s = st.fork()
                if alt.guard is not True:
                    s.assume(alt.guard)
                    if E.pr.check(s, True) == z3.unsat:
                        continue
                g = Goals(E)
                if iserr:
                    g.not_formula(s, alt.ok, "error only for malformed or truncated input")
                    if c.eofexact:
                        end = at_end(E, s, r, p0)
                        if callable(c.eofexact):
                            s = s.fork()
                            s.assume(c.eofexact(E, args))
                        is_ = e.id[0] if e.kind == "end" else e.kind == "EOF"
                        g.add(s, norm_bool(zb(is_) == zb(end)), "the error is io.EOF exactly at the end of the input")
                else:
                    g.formula(s, alt.ok, "malformed or truncated input is an error")
                    for x in flat(alt.ok):
                        if isinstance(x, ForAll):
                            s.univ.append(forall_univ(E, x))
                    if isinstance(target, int):
                        got = res[target]
                    else:
                        pt = args[int(target[1:])]
                        covered.add(pt.oid)
                        got = E.load(s, pt)[0][1]
                    for s2 in self.assume_ok(s, alt):
                        g.val_eq(s2, got, alt.val, "decoded value")
                        for i, v in (c.extra(E, s2, args, alt) if c.extra else {}).items():
                            g.val_eq(s2, res[i], v, "result %d" % i)
                        g.add(s2, E.D.eq(models.rd(s2, r)[0], alt.next), "bytes consumed")
                self.goals(g)
            if not isinstance(target, int):
                covered.add(args[int(target[1:])].oid)
        if c.spec:
            anyf = False
            for o in self.souts():
                s = st.fork()
                s.pc += o.st.pc[self.base:]
                s.univ += [u for u in o.st.univ if u not in s.univ]
                s.idx += [t for t in o.st.idx if not any(same(t, u) for u in s.idx)]
                for k, ob in o.st.heap.items():
                    if k not in s.heap:
                        s.heap[k] = ob
                if E.pr.check(s, True) == z3.unsat:
                    continue
                anyf = True
                if o.anything:
                    continue
                if o.pick is not None and not o.pick(s, res):
                    continue
                covered.update(o.covers)
                if o.also:
                    g = Goals(E)
                    o.also(g, s, res)
                    self.goals(g)
                for pn in o.wany:
                    covered.add(encoder_writer(E, self.st0, self.a[pn]).val.oid)
                if o.panics:
                    self.ob(s, False, "panics when documented")
                    continue
                if o.mayerr and iserr:
                    continue
                g = Goals(E)
                for i, (got, want) in enumerate(zip(res, o.results)):
                    self.result(g, s, got, want, "result %d" % i if len(res) > 1 else "result")
                for pn, want in o.post.items():
                    pt = self.a[pn]
                    covered.add(pt.oid)
                    if want is ANY:
                        continue
                    got = E.load(s, pt)[0][1]
                    if hasattr(want, "check"):
                        want.check(g, s, got, "*%s" % self.pname(pn))
                        continue
                    g.val_eq(s, got, want, "*%s" % self.pname(pn))
                for pn, piece in o.emit.items():
                    w = encoder_writer(E, self.st0, self.a[pn])
                    covered.add(w.val.oid)
                    g.rope_eq(s, models.writer_out(E, s, w), piece, "written bytes")
                self.goals(g)
            if not anyf:
                st = st.fork()
                for o in self.souts():
                    st.idx = st.idx + [t for t in o.st.idx if not any(same(t, u) for u in st.idx)]
                self.ob(st, False, "outcome allowed by the specification")
        for pn in c.modifies:
            v = self.a[pn]
            if isinstance(v, PtrV):
                covered.add(v.oid)
        self.frame(st, covered)

    def assume_ok(self, s, alt):
        return [s]

    def result(self, g, st, got, want, label):
        if want is ANY:
            return
        if hasattr(want, "check"):
            want.check(g, st, got, label)
            return
        if want is ANYERR:
            g.add(st, got is not NIL, label + ": an error is returned")
            return
        if want is NIL or got is NIL:
            g.add(st, want is got, label + (": no error" if want is NIL else ": value"))
            return
        if isinstance(got, PtrV) and isinstance(want, (StructV, Opq, bigm.BigV)):
            got = self.E.load(st, got)[0][1]
        g.val_eq(st, got, want, label)

    def frame(self, st, covered):
        """objects that existed before the call are unchanged unless covered"""
        E = self.E
        for oid, o in st.heap.items():
            o0 = self.st0.heap.get(oid)
            if o0 is None:
                if o.pre and isinstance(oid, tuple) and oid[0] == "opq":
                    src = Rope((View(E.slice_src(E.P.elem(o.tag[1].ty), o.tag[1].base, o.tag[1].args), 0, E.opcap(o.tag[1].base, o.tag[1].args)),))
                    if same(o.val, src):
                        continue
                    g = Goals(E)
                    sp = [self.a[i] for i in self.c.spare if isinstance(self.a[i], Opq) and self.a[i].base == o.tag[1].base]
                    if sp:
                        n = E.mat(st, sp[0]).ln
                        for s1, r1 in E.rope_slice(st.fork(), o.val, 0, n):
                            for s2, r2 in E.rope_slice(s1, src, 0, n):
                                g.rope_eq(s2, r1, r2, "input data is not modified")
                        self.goals(g)
                        continue
                    g.rope_eq(st, o.val, src, "input data is not modified")
                    self.goals(g)
                elif isinstance(oid, tuple) and oid[0] == "optr":
                    from . import optr
                    if not same(o.val, optr.cell(E, State(), oid).val):
                        self.ob(st, False, "data reached through pointers is not modified")
                elif isinstance(oid, tuple) and oid[0] == "glob":
                    if not same(o.val, E.globals_val(oid[1])):
                        self.ob(st, False, "global %s is not modified" % short(oid[1]))
                elif o.tag == "global" and isinstance(oid, int):
                    if not same(o.val, E.globals_heap[oid].val):
                        self.ob(st, False, "package data is not modified")
                continue
            if oid in covered or o is o0 or same(o.val, o0.val):
                continue
            if o0.kind in ("reader", "writer"):
                if o0.kind == "reader":
                    self.ob(st, E.D.eq(o.val.vals[0], o0.val.vals[0]), "frame: reader not consumed")
                else:
                    g = Goals(E)
                    g.rope_eq(st, o.val.vals[0], o0.val.vals[0], "frame: nothing written")
                    self.goals(g)
                continue
            if not o0.pre:
                continue
            g = Goals(E)
            g.val_eq(st, o.val, o0.val, "frame: %s unchanged" % (o0.tag,))
            self.goals(g)


def short(n):
    return n.replace(MOD, "")
