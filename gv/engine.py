"""Symbolic execution of Go SSA with contracts, loop summaries and obligations."""
import z3, time, os, sys
from .ssa import Unsupported, Prog, WIDTHS
from .dom import *
from .val import *

sys.setrecursionlimit(20000)
CAPLEN = 1 << 40         # no slice or string is longer (address space)


class LoopLimit(Exception):
    def __init__(self, key):
        self.key = key


class Budget(Exception):
    pass


class State:
    __slots__ = ("heap", "pc", "univ", "idx", "ghost", "lp")

    def __init__(self):
        self.heap, self.pc, self.univ, self.idx, self.ghost, self.lp = {}, [], [], [], {}, {}

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.univ = list(self.univ)
        s.idx = list(self.idx)
        s.ghost = dict(self.ghost)
        s.lp = dict(self.lp)
        return s

    def assume(self, c):
        if isb(c):
            if not c:
                self.pc.append(z3.BoolVal(False))
        else:
            self.pc.append(c)
        return self


class Obj:
    __slots__ = ("kind", "ty", "val", "pre", "tag")

    def __init__(self, kind, ty, val, pre=False, tag=None):
        self.kind, self.ty, self.val, self.pre, self.tag = kind, ty, val, pre, tag

    def with_val(self, v):
        return Obj(self.kind, self.ty, v, self.pre, self.tag)


class Univ:
    """forall j: body(j); instantiated at the state's index terms"""
    __slots__ = ("f", "name", "memo")

    def __init__(self, f, name=""):
        self.f, self.name, self.memo = f, name, {}

    def at(self, t):
        k = akey(t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (t, self.f(t))
        return r[1]


class Panic:
    def __init__(self, st, msg, fn, line):
        self.st, self.msg, self.fn, self.line = st, msg, fn, line


class Frame:
    _n = 0

    def __init__(self, fn, depth):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.depth = depth
        self.summ = None     # headers being summarised


def no_text(E, v, text):
    return None


SLOW = float(os.environ.get("GVSLOW", "0"))


class Prover:
    def __init__(self, eng):
        self.E = eng
        self.s = z3.Solver()
        self.s.set("timeout", 4000)
        self.stack = []
        self.amemo = {}
        self.nfacts = 0
        self.calls = 0
        self.time = 0.0
        self.cache = {}
        self.by = {"syntactic": 0, "z3": 0, "z3-fresh": 0, "cvc5": 0}

    def _sync(self, asm):
        ids = [a.get_id() for a in asm]
        n = 0
        while n < len(ids) and n < len(self.stack) and self.stack[n][0] == ids[n]:
            n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        for a, i in zip(asm[n:], ids[n:]):
            self.s.push()
            self.s.add(a)
            self.stack.append((i, a))

    def atoms(self, t):
        """(leading atoms, all atoms) of a formula: uninterpreted constants, applications, array reads"""
        r = self.amemo.get(t.get_id())
        if r is not None:
            return r[1], r[2]
        lead, deep, seen = set(), set(), set()
        todo = [(t, True)]
        while todo:
            x, top = todo.pop()
            i = x.get_id()
            if (i, top) in seen:
                continue
            seen.add((i, top))
            if not z3.is_app(x):
                if z3.is_quantifier(x):
                    todo.append((x.body(), top))
                continue
            k = x.decl().kind()
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                deep.add(i)
                if top:
                    lead.add(i)
                top = False
            todo += [(c, top) for c in x.children()]
        self.amemo[t.get_id()] = (t, lead, deep)
        return lead, deep

    def relevant(self, facts, rest):
        """facts connected to the query (dropping others only weakens the assumptions)"""
        cur = set()
        for a in rest:
            if not isb(a):
                cur |= self.atoms(a)[1]
        todo, keep = list(enumerate(facts)), []
        while True:
            nxt, add = [], False
            for i, f in todo:
                lead, deep = self.atoms(f)
                if not lead or lead & cur:
                    keep.append(i)
                    if not deep <= cur:
                        cur |= deep
                        add = True
                else:
                    nxt.append((i, f))
            todo = nxt
            if not add:
                return [facts[i] for i in sorted(keep)]

    def assumptions(self, st, extra_idx=(), goal=None):
        asm = list(st.pc)
        terms = []
        seen = set()
        for t in list(st.idx) + list(extra_idx):
            k = akey(t)
            if k not in seen:
                seen.add(k)
                terms.append(t)
        for u in st.univ:
            for t in terms:
                c = u.at(t)
                if not isb(c):
                    asm.append(c)
        return self.relevant(self.E.D.facts, asm + ([goal] if goal is not None else [])) + asm

    def check(self, st, cond, timeout=None, extra_idx=()):
        """sat/unsat/unknown of assumptions(st) and cond"""
        if isb(cond):
            if not cond:
                return z3.unsat
            c = None
        else:
            c = cond
        asm = self.assumptions(st, extra_idx, c)
        key = (tuple(a.get_id() for a in asm), c.get_id() if c is not None else None)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        t0 = time.time()
        self.calls += 1
        self._sync(asm)
        if timeout:
            self.s.set("timeout", timeout)
        if c is not None:
            self.s.push()
            self.s.add(c)
        r = self.s.check()
        if SLOW and time.time() - t0 > SLOW:
            import traceback
            fs = [f.name for f in traceback.extract_stack()[-12:-1]]
            if os.environ.get("GVDUMP"):
                open(os.environ["GVDUMP"], "w").write(self.s.to_smt2())
                os._exit(0)
            print("SLOW %.1fs %s n=%d idx=%d univ=%d %s\n   goal %s" % (time.time() - t0, r, len(asm), len(st.idx), len(st.univ), ">".join(fs), str(c)[:300].replace("\n", " ")), flush=True)
        if c is not None:
            self.s.pop()
        if timeout:
            self.s.set("timeout", 4000)
        self.time += time.time() - t0
        self.cache[key] = (r, asm, c)
        if self.E.deadline and time.time() > self.E.deadline:
            raise Budget()
        return r

    def feasible(self, st, cond):
        if isb(cond):
            return cond
        return self.check(st, cond) != z3.unsat

    def valid(self, st, goal, extra_idx=()):
        """True iff proved (quick)"""
        if isb(goal):
            return goal or self.check(st, True, extra_idx=extra_idx) == z3.unsat
        w = self.swept(goal)
        if w is not None:
            return w
        g = simp(goal)
        if z3.is_true(g):
            return True
        return self.check(st, z3.Not(goal), extra_idx=extra_idx) == z3.unsat

    def swept(self, goal):
        """equality of large bit-vector terms, by sweeping (contracts that ask for it): True, False (not shown), None (not for this)"""
        if not self.E.hooks.get("sweep") or isb(goal) or not z3.is_eq(goal) or not z3.is_bv(goal.arg(0)):
            return None
        k = ("sweep", goal.get_id())
        if k not in self.cache:
            from . import sweep
            if len(sweep.topo(goal.children())) < 500:
                return None
            t0 = time.time()
            r, n = sweep.equal(*[canon_selects(x) for x in goal.children()])
            self.time += time.time() - t0
            if os.environ.get("GVDEBUG"):
                print("sweep", r, n, "%.1fs" % (time.time() - t0))
            self.by["z3-sweep"] = self.by.get("z3-sweep", 0) + n
            self.cache[k] = (r == "proved", goal)
            if r == "refuted" and sweep.inputs(goal.arg(0)) == sweep.inputs(goal.arg(1)):
                self.E.refuted.append("a computed value differs from the specified one")
        return self.cache[k][0]

    def decide(self, st, goal, extra_idx=(), timeout=20000):
        """thorough: returns ('proved'|'refuted'|'unknown', model, backend)"""
        w = self.swept(goal)
        if w is not None:
            self.by["z3"] += 1
            return ("proved" if w else "unknown"), None, "z3"
        if isb(goal) and goal:
            self.by["syntactic"] += 1
            return "proved", None, "syntactic"
        if not isb(goal):
            g = simp(goal)
            if z3.is_true(g):
                self.by["syntactic"] += 1
                return "proved", None, "syntactic"
        ng = True if (isb(goal) and not goal) else z3.Not(goal)
        r = self.check(st, ng, extra_idx=extra_idx)
        if r == z3.unsat:
            self.by["z3"] += 1
            return "proved", None, "z3"
        asm = self.assumptions(st, extra_idx, None if isb(ng) else ng)
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*asm)
        if not isb(ng):
            s.add(ng)
        t0 = time.time()
        r = s.check()
        self.time += time.time() - t0
        if r == z3.unsat:
            self.by["z3-fresh"] += 1
            return "proved", None, "z3-fresh"
        if r == z3.sat:
            return "refuted", s.model(), "z3"
        r2 = cvc5_check(s, timeout)
        if r2 == "unsat":
            self.by["cvc5"] += 1
            return "proved", None, "cvc5"
        return "unknown", None, None


def canon_selects(t):
    """array reads with their index in one normal form"""
    sub, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_select(x):
            y = z3.Select(x.arg(0), z3.simplify(x.arg(1), som=True))
            if not y.eq(x):
                sub.append((x, y))
            continue
        todo += x.children()
    return z3.substitute(t, *sub) if sub else t


def cvc5_check(solver, timeout):
    import subprocess, tempfile
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True, errors="replace", timeout=timeout / 1000 + 10)
        os.unlink(f.name)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"


class Engine:
    def __init__(self, P, dom="bv", contracts=None, deadline=None):
        self.P = P
        self.D = BV(P) if dom == "bv" else INTD(P)
        self.contracts = contracts or {}
        self.deadline = deadline
        self.pr = Prover(self)
        self.nf = 0
        self.noid = 0
        self.panics = []
        self.root = None
        self.used = {}          # contract name -> uses
        self.inlined = set()
        self.models_used = set()
        self.assumed = set()
        self.loops_done = {}
        self.sites = 0          # panic obligations generated
        self.force_summ = set()
        self.ufs = {}
        self.keep = []
        self.unroll = 14
        self.loops_term = {}      # summarised loop -> proved to end
        self.rejected = set()     # loops whose offered invariants were refused
        self.maxdepth = 60
        self.spec = None
        self.hooks = {}
        self.refuted = []           # equalities shown false by evaluation
        self.globals_init = None
        self.globals_heap = {}
        self.allowed_global_store = False
        self.paths = 0
        if dom != "bv":
            self.D.prove = self._dprove
        self._cur = None
        from . import models
        self.models = models.MODELS

    def _dprove(self, g):
        return self._cur is not None and self.pr.valid(self._cur, g)

    # ------------------------------------------------------------ fresh things
    def fresh_name(self, base):
        self.nf += 1
        return "%s!%d" % (base, self.nf)

    def fresh_int(self, base, ty):
        return self.D.fresh(self.fresh_name(base), ty)

    def fresh_sz(self, st, base, lo=0, hi=CAPLEN):
        v = self.D.fresh(self.fresh_name(base), self.P.INT)
        if lo is not None:
            st.assume(self.D.le(lo, v))
        if hi is not None:
            st.assume(self.D.le(v, hi))
        return v

    def fresh_bool(self, base):
        return z3.Bool(self.fresh_name(base))

    def arrsort(self):
        return z3.ArraySort(self.D.szsort(), z3.BitVecSort(8) if self.D.name == "bv" else z3.IntSort())

    def fresh_arr(self, base):
        return z3.Const(self.fresh_name(base), self.arrsort())

    def uf(self, name, args, rsort):
        args = [self.D.sz(a) if isinstance(a, int) and not isb(a) else a for a in args]
        if not args:
            return z3.Const(name, rsort)
        k = (name, tuple(a.sort().name() for a in args), str(rsort))
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function(name, *([a.sort() for a in args] + [rsort]))
            self.ufs[k] = f
        return f(*args)

    def iter_term(self, F, init, k):
        """k-fold application of x -> F(x) to init: a defined function, its definition is a fact"""
        P, body = F
        D = self.D
        box = z3.Const("#x", P.sort())
        name = "iter:" + z3.simplify(z3.substitute(body, (P, box))).sexpr().replace("\n", " ")
        I = z3.BitVecVal(init, P.sort().size()) if isinstance(init, int) and D.name == "bv" else D.sz(init)
        def at(j):
            return self.uf(name, (I, D.sz(j)), P.sort())
        t = at(k)
        key = ("iterfact", t.get_id())
        if key not in self.ufs:
            self.ufs[key] = t
            kk = D.sz(k)
            for j in (k, D.sub(k, 1)):
                if isinstance(j, int) and D.toint(j, True, 64) < 0:
                    continue
                a, b = at(j), at(D.add(j, 1))
                D.facts.append(z3.Implies(zb(D.le(0, j)), b == z3.substitute(body, (P, a))))
            D.facts.append(at(0) == I)
            if D.name == "int":
                lo, hi = D.lim(self.P.INT)
                D.setr(t, lo, hi)
        return t

    def new(self, st, kind, ty, val, pre=False, tag=None):
        self.noid += 1
        oid = self.noid
        st.heap[oid] = Obj(kind, ty, val, pre, tag)
        return oid

    # ------------------------------------------------------------ values by type
    def zero(self, ty):
        k = self.P.kind(ty)
        if k == "int":
            return 0
        if k == "bool":
            return False
        if k == "string":
            return Rope()
        if k == "float":
            return Float(z3.RealVal(0)) if self.D.name == "int" else 0
        if k == "slice":
            return SliceV(None, 0, 0, 0)
        if k == "struct":
            z = self.models.zero_named(self, ty)
            if z is not None:
                return z
            return StructV([self.zero(t) for _, t, _ in self.P.fields(ty)])
        if k == "array":
            n = self.P.under(ty).n
            z = self.zero(self.P.elem(ty))
            return lit([z] * n) if n <= 4096 else Rope((View(ConstSrc(z), 0, n),))
        if k in ("ptr", "iface", "map", "func", "chan", "nil"):
            return NIL
        if k == "tuple":
            return tuple(self.zero(self.P.T[t]) for t in self.P.under(ty).tup)
        if ty.s in ("unsafe.Pointer",):
            return NIL
        raise Unsupported("zero value of " + ty.s)

    def opq(self, st, ty, base, args=(), pre=True):
        """a symbolic value of type ty; scalars become terms, composites stay opaque"""
        k = self.P.kind(ty)
        if k == "int":
            if args:
                v = self.uf(base, args, self.D.sort(ty))
                if self.D.name == "int":
                    lo, hi = self.D.lim(ty)
                    if v.get_id() not in self.D.rng:
                        self.D.facts += [v >= lo, v <= hi]
                    self.D.setr(v, lo, hi)
                return v
            return self.D.fresh(base, ty)
        if k == "bool":
            return self.uf(base, args, z3.BoolSort())
        if k == "float":
            w = 64 if self.P.under(ty).name == "float64" else 32
            return self.uf(base, args, z3.BitVecSort(w)) if self.D.name == "bv" else Float(self.uf(base, args, z3.RealSort()))
        if k == "string":
            return Rope((View(ArrSrc(self.uf(base + "#a", args, self.arrsort())), 0, self.oplen(base, args)),))
        if k == "array":
            et = self.P.elem(ty)
            n = self.P.under(ty).n
            if et.width == 8:
                return Rope((View(ArrSrc(self.uf(base + "#a", args, self.arrsort())), 0, n),))
            if n <= 64:
                return lit([self.opq(st, et, base + "[%d]" % i, args) for i in range(n)])
            return Rope((View(OpqSrc(et, base + "[]", args), 0, n),))
        if self.hooks.get("optr"):
            from .optr import OptrV
            if k == "ptr":
                return OptrV(self.uf(base, args, z3.IntSort()), ty)
            if k == "iface" and not self.P.under(ty).methods:
                from .reflm import AnyV
                return AnyV(self.uf(base, args, z3.IntSort()))
        return Opq(ty, base, args)

    def oplen(self, base, args):
        n = self.uf(base + "#n", args, self.D.szsort())
        if ("len", n.get_id()) not in self.ufs:
            self.ufs[("len", n.get_id())] = n
            self.D.facts.append(zb(self.D.le(0, n)))
            self.D.facts.append(zb(self.D.le(n, CAPLEN)))
            if self.D.name == "int":
                self.D.setr(n, 0, CAPLEN)
        return n

    def mat(self, st, v):
        """one level of materialisation"""
        if not isinstance(v, Opq):
            return v
        if isinstance(v.ty, str):
            return v
        k = self.P.kind(v.ty)
        if k == "struct":
            return StructV([self.opq(st, t, v.base + "." + n, v.args) for n, t, _ in self.P.fields(v.ty)])
        if k == "slice":
            et = self.P.elem(v.ty)
            n = self.oplen(v.base, v.args)
            oid = ("opq", v.base, tuple(akey(a) for a in v.args))
            cap = self.opcap(v.base, v.args)
            if oid not in st.heap:
                r = Rope((View(self.slice_src(et, v.base, v.args), 0, cap),))
                st.heap[oid] = Obj("cell", None, r, True, ("opq", v))
            return SliceV(PtrV(oid), 0, n, cap)
        return v

    def opcap(self, base, args):
        """capacity of an input slice: any value from its length on (the spare part belongs to the caller)"""
        n = self.oplen(base, args)
        c = self.uf(base + "#cap", args, self.D.szsort())
        if ("cap", c.get_id()) not in self.ufs:
            self.ufs[("cap", c.get_id())] = c
            self.D.facts.append(zb(self.D.le(n, c)))
            self.D.facts.append(zb(self.D.le(c, CAPLEN)))
            if self.D.name == "int":
                self.D.setr(c, 0, CAPLEN)
        return c

    def slice_src(self, et, base, args):
        if et.width == 8:
            return ArrSrc(self.uf(base + "#a", args, self.arrsort()))
        return OpqSrc(et, base + "[]", args)

    def src_at(self, st, src, i):
        if src.kind == "arr":
            return self.D.select(src.arr, i)
        if src.kind == "const":
            return src.v
        if src.kind == "opq":
            return self.opq(st, src.ty, src.base, src.args + (self.D.sz(i),))
        if src.kind == "fn":
            return subst(src.body, [(src.var, self.D.sz(i))])
        if src.kind == "app":
            return self.D.select(self.app_arr(src), i)
        if src.kind == "def":
            return src.f(self, st, src.args, self.D.sz(i))
        raise Unsupported("src_at")

    def app_arr(self, src):
        """array of the bytes of an application: one constant per (syntactic) application"""
        k = src.key()
        a = self.ufs.get(k)
        if a is None:
            a = self.ufs[k] = self.fresh_arr("app:" + src.f)
            self.keep.append(src)
            prev = self.ufs.setdefault(("apps", src.f), [])
            for s2, a2 in prev:
                c = self.app_cong(src.args, s2.args)
                if c is not None:
                    self.D.facts.append(z3.Implies(c, a == a2))
            prev.append((src, a))
        return a

    def app_cong(self, xs, ys):
        """a condition (or None) under which two argument lists of the same shape are equal"""
        from .spec import repr_key
        if len(xs) != len(ys):
            return None
        cs = []
        for x, y in zip(xs, ys):
            if same(repr_key(x), repr_key(y)):
                continue
            if not (isinstance(x, Rope) and isinstance(y, Rope)):
                return None
            c = self.segs_cong(x.segs, y.segs)
            if c is None:
                return None
            cs += c
        return z3.And(*cs) if cs else None

    def segs_cong(self, xs, ys):
        """conditions (or None) under which two byte strings are equal piece by piece; a piece of one that the other lacks is empty"""
        from .spec import repr_key
        if not xs and not ys:
            return []
        if xs and ys:
            s, t = xs[0], ys[0]
            cs = None
            if same(repr_key(s), repr_key(t)):
                cs = []
            elif isinstance(s, Lit) and isinstance(t, Lit) and len(s.v) == len(t.v):
                cs = [zb(self.D.eqterm(u, v, self.P.BYTE)) for u, v in zip(s.v, t.v) if not same(u, v)]
            elif isinstance(s, View) and isinstance(t, View) and same(s.src.key(), t.src.key()):
                cs = [zb(self.D.eq(s.n, t.n))] + ([] if s.src.kind == "const" else [zb(self.D.eq(s.off, t.off))])
            if cs is not None:
                r = self.segs_cong(xs[1:], ys[1:])
                if r is not None:
                    return cs + r
        for a, b, u, v in ((xs, ys, xs[1:], ys), (ys, xs, xs, ys[1:])):
            if a and len(a) > len(b) and not isinstance(a[0], Lit) and not isinstance(self.seglen(a[0]), int):
                r = self.segs_cong(u, v)
                if r is not None:
                    return [zb(self.D.eq(self.seglen(a[0]), 0))] + r
        return None

    # ------------------------------------------------------------ ropes
    def seglen(self, s):
        if isinstance(s, Lit):
            return len(s.v)
        if isinstance(s, View):
            return s.n
        return s.ln

    def rlen(self, r):
        if r._ln is None:
            n = 0
            for s in r.segs:
                n = self.D.add(n, self.seglen(s))
            r._ln = n
        return r._ln

    def cat(self, *rs):
        segs = []
        for r in rs:
            for s in r.segs:
                if isinstance(s, Lit):
                    if not s.v:
                        continue
                    if segs and isinstance(segs[-1], Lit):
                        segs[-1] = Lit(segs[-1].v + s.v)
                        continue
                elif isinstance(self.seglen(s), int) and self.seglen(s) == 0:
                    continue
                elif isinstance(s, View) and segs and isinstance(segs[-1], View) and same(segs[-1].src.key(), s.src.key()):
                    p = segs[-1]
                    if s.src.kind == "const" or same(self.D.add(p.off, p.n), s.off):
                        segs[-1] = View(p.src, p.off, self.D.add(p.n, s.n))
                        continue
                segs.append(s)
        return Rope(segs)

    def proves(self, st, c):
        if isb(c):
            return c
        return self.pr.valid(st, c)

    def split(self, st, c):
        """fork on condition: list of (st, bool)"""
        if isb(c):
            return [(st, c)]
        a = self.pr.feasible(st, c)
        b = self.pr.feasible(st, bnot(c))
        if a and not b:
            return [(st.assume(c), True)]
        if b and not a:
            return [(st.assume(bnot(c)), False)]
        if not a and not b:
            return []
        s2 = st.fork()
        return [(st.assume(c), True), (s2.assume(bnot(c)), False)]

    def concretize(self, st, t, lim=300, within=None):
        if isinstance(t, int):
            return [(st, t)]
        out = []
        if within is not None and within <= 32:
            # the index is known to be in range: one case per value that is not excluded
            for v in range(within):
                s2 = st.fork()
                s2.assume(norm_bool(self.D.sz(t) == v))
                if self.pr.feasible(s2, True):
                    out.append((s2, v))
            return out
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self.pr.assumptions(st))
        while True:
            r = s.check()
            if r == z3.unsat:
                return out
            if r != z3.sat:
                raise Unsupported("cannot enumerate values of a size")
            v = s.model().eval(t, model_completion=True).as_long()
            s2 = st.fork()
            s2.assume(t == v)
            out.append((s2, v))
            s.add(t != v)
            if len(out) > lim:
                raise Unsupported("too many values for a size that must be concrete")

    def rope_split(self, st, r, off):
        """-> [(st, left, right)]"""
        if isinstance(off, int) and off == 0:
            return [(st, Rope(), r)]
        if same(off, self.rlen(r)):
            return [(st, r, Rope())]
        return self._rsplit(st, r.segs, (), off)

    def _rsplit(self, st, segs, left, off):
        D = self.D
        left = list(left)
        segs = list(segs)
        while segs:
            if isinstance(off, int) and off == 0:
                return [(st, self.cat(Rope(left)), self.cat(Rope(segs)))]
            s = segs[0]
            n = self.seglen(s)
            c = D.le(n, off)
            if not isb(c):
                if self.proves(st, c):
                    c = True
                elif self.proves(st, bnot(c)):
                    c = False
            if c is True:
                left.append(s)
                segs.pop(0)
                off = D.sub(off, n)
                continue
            if isb(c) and c is False:
                if isinstance(off, int) and off == 0 or self.proves(st, D.eq(off, 0)):
                    return [(st, self.cat(Rope(left)), self.cat(Rope(segs)))]
                if isinstance(s, View):
                    a = View(s.src, s.off, off)
                    b = View(s.src, s.off if s.src.kind == "const" else D.add(s.off, off), D.sub(s.n, off))
                    return [(st, self.cat(Rope(left + [a])), self.cat(Rope([b] + segs[1:])))]
                if isinstance(s, Lit):
                    out = []
                    for st2, o in self.concretize(st, off):
                        out.append((st2, self.cat(Rope(left + [Lit(s.v[:o])])), self.cat(Rope([Lit(s.v[o:])] + segs[1:]))))
                    return out
                if isinstance(s, Wire):
                    u = self.spec.unfold_wire(self, st, s.c, s.v)
                    if u is not None:
                        return self._rsplit(st, list(u.segs) + segs[1:], left, off)
                if isinstance(s, App):
                    return self._rsplit(st, [View(AppSrc(s.f, s.args), 0, s.ln)] + segs[1:], left, off)
                raise Unsupported("split inside %r at %s" % (s, off))
            if len(segs) == 1 and isinstance(s, View) and self.proves(st, D.le(off, n)) and self.proves(st, D.le(0, off)):
                a = View(s.src, s.off, off)
                b = View(s.src, s.off if s.src.kind == "const" else D.add(s.off, off), D.sub(s.n, off))
                return [(st, self.cat(Rope(left + [a])), self.cat(Rope([b])))]
            out = []
            for st2, b in self.split(st, c):
                out += self._rsplit(st2, segs, left, off)
            return out
        if self.proves(st, D.eq(off, 0)):
            return [(st, self.cat(Rope(left)), Rope())]
        return []     # infeasible: offset past the end

    def rope_slice(self, st, r, lo, hi):
        out = []
        for s1, _, b in self.rope_split(st, r, lo):
            for s2, m, _ in self.rope_split(s1, b, self.D.sub(hi, lo)):
                out.append((s2, m))
        return out

    def rope_at(self, st, r, i, ety=None):
        D = self.D
        if r.is_lit():
            v = r.lit()
            if isinstance(i, int):
                if i >= len(v):
                    return []
                return [(st, v[i])]
            t = self.table(v, i, ety)
            if t is not None:
                return [(st, t)]
            return [(s, v[j]) for s, j in self.concretize(st, i, within=len(v)) if j < len(v)]
        segs = list(r.segs)
        return self._rat(st, segs, i, ety)

    def _rat(self, st, segs, i, ety):
        D = self.D
        while segs:
            s = segs[0]
            n = self.seglen(s)
            c = D.lt(i, n)
            if not isb(c):
                if self.proves(st, c):
                    c = True
                elif self.proves(st, bnot(c)):
                    c = False
            if c is True:
                if isinstance(s, Lit):
                    return self.rope_at(st, Rope((s,)), i, ety)
                if isinstance(s, View):
                    return [(st, self.src_at(st, s.src, D.add(s.off, i) if s.src.kind != "const" else i))]
                if isinstance(s, Wire):
                    u = self.spec.unfold_wire(self, st, s.c, s.v)
                    if u is not None:
                        return self._rat(st, list(u.segs) + segs[1:], i, ety)
                if isinstance(s, App):
                    u = self.spec.app_at(self, st, s, i)
                    if u is not None:
                        return [(st, u)]
                raise Unsupported("index into %r" % (s,))
            if isb(c):
                i = D.sub(i, n)
                segs = segs[1:]
                continue
            out = []
            for st2, b in self.split(st, c):
                out += self._rat(st2, segs, i, ety)
            return out
        return []

    def table(self, v, i, ety):
        """lookup of a symbolic index in a literal table as piecewise affine ite"""
        if ety is None or not v or not all(isinstance(x, (int, z3.ExprRef)) and not isb(x) for x in v):
            return None
        D = self.D
        w = ety.width
        h = self.hooks.get("table")
        if h:
            r = h(self, v, i)
            if r is not None:
                return r
        runs = []
        for j, x in enumerate(v):
            if runs:
                a, l, x0, d = runs[-1]
                if isinstance(x, int) and isinstance(x0, int):
                    if l == 1 and d is None and abs(x - x0) <= 1:
                        runs[-1] = (a, 2, x0, x - x0)
                        continue
                    if d is not None and x == x0 + d * l:
                        runs[-1] = (a, l + 1, x0, d)
                        continue
                elif same(x, x0) and (d == 0 or d is None):
                    runs[-1] = (a, l + 1, x0, 0)
                    continue
            runs.append((j, 1, x, None))
        if len(runs) > 200:
            return None
        I = D.sz(i)
        res = None
        for a, l, x0, d in reversed(runs):
            if d in (None, 0):
                t = D.term(x0, ety)
            else:
                off = D.sub(i, a)
                low = (D.convert(off, self.P.INT, ety) if not isinstance(off, int) else off) if D.name == "bv" else None
                t = D.term(D.binop("+", x0, D.binop("*", D.const(d, ety), low, ety), ety), ety) if D.name == "bv" else z3.IntVal(x0) + d * D.sz(off)
            res = t if res is None else z3.If(z3.ULT(I, z3.BitVecVal(a + l, 64)) if D.name == "bv" else I < a + l, t, res)
        r = D.fold(res)
        if D.name == "int" and all(isinstance(x, int) for x in v):
            D.setr(r, min(v), max(v))
        return r

    def rope_set(self, st, r, i, val):
        D = self.D
        if r.is_lit():
            v = r.lit()
            if isinstance(i, int):
                return [(st, lit(v[:i] + (val,) + v[i + 1:]))]
            if len(v) <= 64 and all(isinstance(x, (int, z3.ExprRef)) and not isb(x) for x in v + (val,)):
                w = [x for x in v + (val,) if not isinstance(x, int)]
                if w or True:
                    ety = self._ety_of(v + (val,))
                    if ety is not None:
                        nv = []
                        for j, x in enumerate(v):
                            c = norm_bool(D.sz(i) == j)
                            nv.append(x if c is False else val if c is True else D.ite(c, val, x, ety))
                        return [(st, lit(nv))]
            out = []
            for s, j in self.concretize(st, i):
                out += self.rope_set(s, r, j, val)
            return out
        if len(r.segs) == 1 and isinstance(r.segs[0], View) and r.segs[0].src.kind == "arr":
            s = r.segs[0]
            arr = z3.Store(s.src.arr, D.sz(D.add(s.off, i)), D.byte(val))
            return [(st, Rope((View(ArrSrc(arr), s.off, s.n),)))]
        out = []
        for s1, a, b in self.rope_split(st, r, i):
            for s2, m, c in self.rope_split(s1, b, 1):
                out.append((s2, self.cat(a, lit([val]), c)))
        return out

    def _ety_of(self, vs):
        for x in vs:
            if isinstance(x, z3.BitVecRef):
                w = x.size()
                return {8: self.P.BYTE, 32: self.P.byname["uint32"], 64: self.P.U64, 16: self.P.byname.get("uint16")}.get(w)
            if isinstance(x, z3.ArithRef):
                return self.P.INT
        return None

    # ------------------------------------------------------------ memory
    def get_path(self, st, v, path, ty=None):
        """-> [(st, value)]"""
        cur = [(st, v)]
        for kind, i in path:
            nxt = []
            for s, x in cur:
                if isinstance(x, Opq):
                    x = self.mat(s, x)
                if kind == "f":
                    if isinstance(x, StructV):
                        nxt.append((s, x.vals[i]))
                    elif hasattr(x, "get_field"):
                        nxt.append((s, x.get_field(self, s, i)))
                    else:
                        raise Unsupported("field of %r" % (x,))
                else:
                    if not isinstance(x, Rope):
                        raise Unsupported("index of %r" % (x,))
                    nxt += self.rope_at(s, x, i, self._elemty(x))
            cur = nxt
        return cur

    def _elemty(self, r):
        for s in r.segs:
            if isinstance(s, Lit):
                t = self._ety_of(s.v)
                if t is not None:
                    return t
                if s.v and all(isinstance(x, int) and not isb(x) for x in s.v):
                    return self.P.U64 if max(s.v) > 255 else self.P.BYTE
        return None

    def set_path(self, st, v, path, val):
        if not path:
            return [(st, val)]
        (kind, i), rest = path[0], path[1:]
        if isinstance(v, Opq):
            v = self.mat(st, v)
        if kind == "f":
            if not isinstance(v, StructV):
                raise Unsupported("store into field of %r" % (v,))
            out = []
            for s, nv in self.set_path(st, v.vals[i], rest, val):
                out.append((s, StructV(v.vals[:i] + (nv,) + v.vals[i + 1:])))
            return out
        if not isinstance(v, Rope):
            raise Unsupported("store into element of %r" % (v,))
        if not rest:
            return self.rope_set(st, v, i, val)
        out = []
        for s, old in self.rope_at(st, v, i, None):
            for s2, nv in self.set_path(s, old, rest, val):
                out += self.rope_set(s2, v, i, nv)
        return out

    def obj(self, st, oid):
        if isinstance(oid, tuple) and oid[0] == "glob" and oid not in st.heap:
            self.init_global(st, oid)
        o = st.heap.get(oid)
        if o is None and isinstance(oid, tuple) and oid[0] == "optr":
            from .optr import cell
            o = cell(self, st, oid)
        if o is None:
            raise Unsupported("no object %r" % (oid,))
        return o

    def init_global(self, st, oid):
        v = self.globals_val(oid[1])
        st.heap[oid] = Obj("cell", None, v, True, "global")
        for k, o in self.globals_heap.items():
            if isinstance(k, int) and k not in st.heap:
                st.heap[k] = Obj(o.kind, o.ty, o.val, True, "global")

    def globals_val(self, name):
        if self.globals_init is None:
            from . import globs
            self.globals_init = globs.compute(self)
        if name not in self.globals_init:
            raise Unsupported("global " + name)
        return self.globals_init[name]

    def load(self, st, p, ety=None):
        o = self.obj(st, p.oid)
        if o.kind != "cell":
            raise Unsupported("load of " + o.kind)
        if o.tag == "moved":
            raise Unsupported("use of a slice after append may have reused its memory")
        r = self.get_path(st, o.val, p.path)
        if ety is not None and ety.width and o.val.__class__ is Rope and len(r) == 1:
            pass
        return r

    def store(self, st, p, val):
        o = self.obj(st, p.oid)
        if o.kind != "cell":
            raise Unsupported("store to " + o.kind)
        if o.tag == "named":
            raise Unsupported("store through a pointer of the input data")
        if o.tag == "moved":
            raise Unsupported("use of a slice after append may have reused its memory")
        out = []
        for s, nv in self.set_path(st, o.val, p.path, val):
            s.heap[p.oid] = s.heap[p.oid].with_val(nv)
            out.append(s)
        return out

    def content(self, st, sl):
        """rope held by a slice: [(st, rope)]"""
        sl = self.mat(st, sl)
        if sl.loc is None:
            return [(st, Rope())]
        out = []
        for s, r in self.load(st, sl.loc):
            if isinstance(r, Opq):
                r = self.mat(s, r)
            out += self.rope_slice(s, r, sl.off, self.D.add(sl.off, sl.ln))
        return out

    def mkslice(self, st, rope, cap=None, tag=None):
        n = self.rlen(rope)
        oid = self.new(st, "cell", None, rope, tag=tag or ("grown" if cap is None else None))
        return SliceV(PtrV(oid), 0, n, n if cap is None else cap)

    # ------------------------------------------------------------ panics
    def require(self, st, cond, msg, fr, ins):
        """panic obligation: cond must hold; assumes it afterwards"""
        self.sites += 1
        if isb(cond):
            if cond:
                return True
            self.panics.append(Panic(st.fork(), msg, fr.fn.name if fr else "?", (ins or {}).get("line")))
            return False
        if self.pr.feasible(st, bnot(cond)):
            s = st.fork()
            s.assume(bnot(cond))
            self.panics.append(Panic(s, msg, fr.fn.name if fr else "?", (ins or {}).get("line")))
            if not self.pr.feasible(st, cond):
                return False
            st.assume(cond)
        return True

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, ty=None):
        if same(a, b):
            return a
        if isb(a) or isb(b) or isinstance(a, z3.BoolRef):
            if isinstance(b, (bool, z3.BoolRef)) and isinstance(a, (bool, z3.BoolRef)):
                return norm_bool(z3.If(c, zb(a), zb(b)))
            return None
        if isinstance(a, (int, z3.BitVecRef, z3.ArithRef)) and isinstance(b, (int, z3.BitVecRef, z3.ArithRef)):
            if isinstance(a, int) and isinstance(b, int):
                if ty is None or ty.width == 64 or ty.width == 0:
                    return None
            t = ty
            if t is None or not t.width:
                t = self._ety_of((a, b))
            if t is None:
                return None
            if self.D.name == "bv":
                for x in (a, b):
                    if isinstance(x, z3.BitVecRef) and x.size() != t.width:
                        return None
            return self.D.ite(c, a, b, t)
        if isinstance(a, Opq):
            a = self.mat(self._cur or State(), a) if self.P.kind(a.ty) == "struct" else a
        if isinstance(b, Opq):
            b = self.mat(self._cur or State(), b) if self.P.kind(b.ty) == "struct" else b
        if isinstance(a, StructV) and isinstance(b, StructV):
            fs = self.P.fields(ty) if ty is not None and self.P.kind(ty) == "struct" else [(None, None, None)] * len(a.vals)
            r = []
            for x, y, f in zip(a.vals, b.vals, fs):
                m = self.merge_val(c, x, y, f[1])
                if m is None:
                    return None
                r.append(m)
            return StructV(r)
        if isinstance(a, Rope) and isinstance(b, Rope) and a.is_lit() and b.is_lit():
            la, lb = a.lit(), b.lit()
            if len(la) != len(lb):
                return None
            et = None
            if ty is not None and self.P.kind(ty) == "array":
                et = self.P.elem(ty)
            elif ty is not None and self.P.kind(ty) == "string":
                et = self.P.BYTE
            et = et or self._ety_of(la + lb) or self.P.BYTE
            r = []
            for x, y in zip(la, lb):
                m = self.merge_val(c, x, y, et)
                if m is None:
                    return None
                r.append(m)
            return lit(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = []
            for x, y in zip(a, b):
                m = self.merge_val(c, x, y, None)
                if m is None:
                    return None
                r.append(m)
            return tuple(r)
        if self.hooks.get("optr"):
            if isinstance(a, PtrV) and hasattr(a, "merge"):
                return a.with_nil(bnot(c)) if b is NIL else a.merge(c, b)
            if a is NIL and isinstance(b, PtrV) and hasattr(b, "merge"):
                return b.with_nil(c)
        return None

    def merge_states(self, s1, s2):
        """-> (merged state, c1) or None; values are merged by the caller"""
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n].get_id() == s2.pc[n].get_id():
            n += 1
        r1, r2 = s1.pc[n:], s2.pc[n:]
        if not r1 or not r2:
            return None
        if len(s1.univ) != len(s2.univ) or any(a is not b for a, b in zip(s1.univ, s2.univ)):
            return None
        if set(s1.ghost) != set(s2.ghost) or any(not same(s1.ghost[k], s2.ghost[k]) for k in s1.ghost):
            return None
        for oid, a in s1.heap.items():        # cheap pre-check
            b = s2.heap.get(oid)
            if b is not None and a is not b and a.val is not b.val and (hasattr(a.val, "vmap") or a.kind == "rmem") and not same(a.val, b.val):
                return None
        c1, c2 = band(*r1), band(*r2)
        m = s1.fork()
        m.pc = s1.pc[:n]
        self._cur = m
        for oid in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(oid), s2.heap.get(oid)
            if a is None:
                m.heap[oid] = b
            elif b is None or a is b:
                m.heap[oid] = a
            else:
                v = self.merge_val(c1, a.val, b.val, a.ty)
                if v is None:
                    return None
                m.heap[oid] = a.with_val(v)
        d = norm_bool(bor(c1, c2))
        if d is not True:
            m.assume(d)
        m.idx = s1.idx + [t for t in s2.idx if not any(same(t, u) for u in s1.idx)]
        return m, c1

    def merge_envs(self, arr, names, tys):
        """arr: [(env, st)] -> fewer [(env, st)]"""
        arr = list(arr)
        out = []
        while arr:
            e1, s1 = arr.pop(0)
            i = 0
            while i < len(arr):
                e2, s2 = arr[i]
                m = self.try_merge(e1, s1, e2, s2, names, tys)
                if m is not None:
                    e1, s1 = m
                    arr.pop(i)
                else:
                    i += 1
            out.append((e1, s1))
        return out

    def try_merge(self, e1, s1, e2, s2, names, tys):
        for n in names:                       # cheap pre-check
            a, b = e1.get(n), e2.get(n)
            if a is None and b is None:
                continue
            if (a is None) != (b is None):
                return None
            if not same(a, b):
                if type(a) is not type(b) and not (isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef))):
                    return None
        r = self.merge_states(s1, s2)
        if r is None:
            return None
        m, c1 = r
        env = {}
        for n in names:
            a, b = e1.get(n), e2.get(n)
            if a is None:
                continue
            v = self.merge_val(c1, a, b, tys.get(n))
            if v is None:
                return None
            env[n] = v
        return env, m

    # ------------------------------------------------------------ functions
    def call_func(self, fn, args, st, depth=0, bind=()):
        """-> [(st, results tuple)]; panics go to self.panics"""
        if depth > self.maxdepth:
            raise Unsupported("call depth")
        if not fn.blocks:
            raise Unsupported("no body for " + fn.name)
        fn.analyse()
        fr = Frame(fn, depth)
        env = {}
        for (n, t), a in zip(fn.params, args):
            env[n] = a
        for (n, t), a in zip(fn.freevars, bind):
            env[n] = a
        outs = self.region(fr, 0, None, env, st, frozenset())
        rets = [(o[2], o[1]) for o in outs if o[0] == "ret"]
        if len(rets) > 1 and depth > 0:
            n = len(fn.results)
            names = ["r%d" % i for i in range(n)]
            tys = {"r%d" % i: fn.results[i][1] for i in range(n)}
            arr = [({nm: v for nm, v in zip(names, vals)}, s) for vals, s in rets]
            arr = self.merge_envs(arr, names, tys)
            return [(s, tuple(e.get(nm) for nm in names)) for e, s in arr]
        return [(s, v) for v, s in rets]

    def regtys(self, fn):
        if not hasattr(fn, "_rt"):
            d = {n: t for n, t in fn.params}
            d.update({n: t for n, t in fn.freevars})
            for b in fn.blocks:
                for i in b["i"]:
                    if "d" in i and "t" in i:
                        d[i["d"]] = self.P.T[i["t"]]
            fn._rt = d
        return fn._rt

    def phis(self, fr, b, prev, env, st):
        blk = fr.fn.blocks[b]
        if not blk["i"] or blk["i"][0]["op"] != "Phi":
            return env
        pi = None
        for k, p in enumerate(blk["preds"]):
            if p == prev:
                pi = k
                break
        new = dict(env)
        for ins in blk["i"]:
            if ins["op"] != "Phi":
                break
            new[ins["d"]] = self.val(st, env, ins["args"][pi])
        return new

    def region(self, fr, b, prev, env, st, stops, skipphi=False):
        """execute from block b until a stop block is entered or the function returns.
        -> [('at', block, prev, env(with phis), st) | ('ret', st, vals)]"""
        fn = fr.fn
        out = []
        while True:
            if not skipphi:
                env = self.phis(fr, b, prev, env, st)
                if b in stops:
                    return out + [("at", b, prev, env, st)]
                if b in fn.loops and not (prev is not None and prev in fn.loops[b]):
                    return out + self.loop(fr, b, prev, env, st, stops)
                if b in fn.loops:
                    k = (fr.id, b)
                    cnt, sym = st.lp.get(k, (0, 0))[:2]
                    cnt += 1
                    st.lp[k] = (cnt, sym)
                    if sym > (2 if (fn.name, k[1]) in self.rejected else self.unroll) or cnt > 400:
                        raise LoopLimit(k)
            skipphi = False
            blk = fn.blocks[b]
            states = [(env, st)]
            term = None
            for ins in blk["i"]:
                op = ins["op"]
                if op == "Phi":
                    continue
                if op in ("If", "Jump", "Return", "Panic"):
                    term = ins
                    break
                ns = []
                for e, s in states:
                    self._cur = s
                    for s2, v in self.step(fr, ins, e, s):
                        e2 = e
                        if "d" in ins:
                            e2 = dict(e)
                            e2[ins["d"]] = v
                        ns.append((e2, s2))
                states = ns
                if not states:
                    break
            if not states:
                return out
            if len(states) > 1:
                live = set()
                for i2 in blk["i"][blk["i"].index(term):]:
                    pass
                for e, s in states[1:]:
                    out += self.term(fr, b, term, e, s, stops)
                env, st = states[0]
                return self._coalesce(fr, out + self.term(fr, b, term, env, st, stops), stops)
            env, st = states[0]
            if term["op"] == "Jump":
                prev, b = b, blk["succs"][0]
                continue
            return out + self.term(fr, b, term, env, st, stops)

    def _coalesce(self, fr, outs, stops):
        """merge arrivals at the same stop block"""
        groups = {}
        res = []
        for o in outs:
            if o[0] == "at":
                groups.setdefault(o[1], []).append(o)
            else:
                res.append(o)
        for b, g in groups.items():
            if len(g) == 1:
                res.append(g[0])
                continue
            names = set(fr.fn.live[b])
            for i in fr.fn.blocks[b]["i"]:
                if i["op"] == "Phi":
                    names.add(i["d"])
            for e, s in self.merge_envs([(o[3], o[4]) for o in g], sorted(names), self.regtys(fr.fn)):
                res.append(("at", b, g[0][2], e, s))
        return res

    def term(self, fr, b, ins, env, st, stops):
        fn = fr.fn
        blk = fn.blocks[b]
        op = ins["op"]
        self._cur = st
        if op == "Return":
            self.paths += 1
            return [("ret", st, tuple(self.val(st, env, a) for a in ins["args"]))]
        if op == "Panic":
            self.sites += 1
            if self.pr.feasible(st, True) and self.pr.check(st, True) != z3.unsat:
                self.panics.append(Panic(st, "explicit panic", fn.name, ins.get("line")))
            return []
        if op == "Jump":
            return self.region(fr, blk["succs"][0], b, env, st, stops)
        c = self.val(st, env, ins["x"])
        t, f = blk["succs"]
        if isb(c):
            return self.region(fr, t if c else f, b, env, st, stops)
        br = self.split(st, c)
        if not br:
            return []
        if len(br) == 1:
            return self.region(fr, t if br[0][1] else f, b, env, br[0][0], stops)
        # symbolic branch: count symbolic loop exits
        for h, body in fn.loops.items():
            if b in body and (t not in body or f not in body):
                for s, _ in br:
                    k = (fr.id, h)
                    cnt, sym = s.lp.get(k, (0, 0))[:2]
                    if s.lp.get(k, (0, 0, -1))[2:] != (cnt,):      # once per iteration
                        s.lp[k] = (cnt, sym + 1, cnt)
        J = fn.ipdom[b]
        if J is None or J == len(fn.blocks) or J in stops:
            outs = []
            for s, v in br:
                outs += self.region(fr, t if v else f, b, env, s, stops)
            return self._coalesce(fr, outs, stops)
        st2 = stops | {J}
        outs = []
        for s, v in br:
            outs += self.region(fr, t if v else f, b, env, s, st2)
        outs = self._coalesce(fr, outs, st2)
        res = []
        for o in outs:
            if o[0] == "at" and o[1] == J:
                # already evaluated phis
                res += self.resume(fr, J, o[2], o[3], o[4], stops)
            else:
                res.append(o)
        return self._coalesce(fr, res, stops)

    def resume(self, fr, J, prev, env, st, stops):
        fn = fr.fn
        if J in fn.loops:
            if prev is not None and prev in fn.loops[J]:
                k = (fr.id, J)
                cnt, sym = st.lp.get(k, (0, 0))[:2]
                st.lp[k] = (cnt + 1, sym)
                if sym > (2 if (fn.name, k[1]) in self.rejected else self.unroll) or cnt > 400:
                    raise LoopLimit(k)
                return self.region(fr, J, prev, env, st, stops, skipphi=True)
            return self.loop(fr, J, prev, env, st, stops)
        return self.region(fr, J, prev, env, st, stops, skipphi=True)

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, prev, env, st, stops):
        from . import loops
        return loops.run(self, fr, h, prev, env, st, stops)

    # ------------------------------------------------------------ operands
    def val(self, st, env, v):
        if v is None:
            return None
        k = v["k"]
        if k == "reg":
            try:
                return env[v["n"]]
            except KeyError:
                raise Unsupported("undefined register " + v["n"])
        ty = self.P.T[v["t"]]
        if k == "const":
            if v.get("nil"):
                return self.zero(ty)
            if "int" in v:
                if self.P.kind(ty) == "float":
                    return Float(z3.RealVal(v["int"]))
                return self.D.const(int(v["int"]), ty)
            if "str" in v:
                return lit(v["str"])
            if "bool" in v:
                return v["bool"]
            if self.P.kind(ty) == "float":
                return Float(z3.RealVal(v["other"]))
            if ty.width and "/" not in v["other"]:
                return self.D.const(int(v["other"]), ty)
            raise Unsupported("constant " + str(v))
        if k == "global":
            return PtrV(("glob", v["n"]))
        if k == "func":
            return FuncV(v["n"])
        if k == "builtin":
            return FuncV("builtin:" + v["n"])
        raise Unsupported("operand " + k)

    def opty(self, v):
        return self.P.T[v["t"]]

    # ------------------------------------------------------------ instructions
    def step(self, fr, ins, env, st):
        m = getattr(self, "i_" + ins["op"], None)
        if m is None:
            raise Unsupported("instruction " + ins["op"])
        return m(fr, ins, env, st)

    def i_Alloc(self, fr, ins, env, st):
        ty = self.P.T[ins["e"]]
        z = self.models.zero_named(self, ty)
        oid = self.new(st, "cell", ty, z if z is not None else self.zero(ty))
        return [(st, PtrV(oid))]

    def i_BinOp(self, fr, ins, env, st):
        a, b = self.val(st, env, ins["x"]), self.val(st, env, ins["y"])
        ty, ty2 = self.opty(ins["x"]), self.opty(ins["y"])
        return self.binop(fr, ins, st, ins["o"], a, b, ty, ty2)

    def binop(self, fr, ins, st, o, a, b, ty, ty2):
        k = self.P.kind(ty)
        if k == "int":
            if o in ("==", "!=", "<", "<=", ">", ">="):
                return [(st, self.D.cmp(o, a, b, ty))]
            if o in ("/", "%"):
                if not self.require(st, self.D.cmp("!=", b, 0, ty), "division by zero", fr, ins):
                    return []
            if o in ("<<", ">>") and ty2.signed:
                if not self.require(st, self.D.cmp(">=", b, 0, ty2), "negative shift", fr, ins):
                    return []
            return [(st, self.D.binop(o, a, b, ty, ty2))]
        if k == "bool":
            if o == "==":
                r = norm_bool(zb(a) == zb(b))
            elif o == "!=":
                r = norm_bool(zb(a) != zb(b))
            elif o == "&":
                r = band(a, b)
            elif o == "|":
                r = bor(a, b)
            else:
                raise Unsupported("bool " + o)
            return [(st, r)]
        if k == "string":
            if o == "+":
                return [(st, self.cat(a, b))]
            if o in ("==", "!="):
                out = []
                for s, r in self.rope_eq_fork(st, a, b):
                    out.append((s, r if o == "==" else bnot(r)))
                return out
            raise Unsupported("string " + o)
        if k == "float":
            if isinstance(a, Float) and isinstance(b, Float):
                r = {"*": lambda: a.t * b.t, "+": lambda: a.t + b.t, "-": lambda: a.t - b.t}.get(o)
                if r:
                    return [(st, Float(r()))]
            raise Unsupported("float " + o)
        if o in ("==", "!="):
            out = []
            for s, r in self.val_eq_fork(st, a, b, ty):
                out.append((s, r if o == "==" else bnot(r)))
            return out
        raise Unsupported("binop %s on %s" % (o, ty.s))

    def rope_eq_fork(self, st, a, b):
        """program-level string equality"""
        if self.hooks.get("optr") and not (a.is_lit() and b.is_lit()):
            from .optr import strkey, keyable
            if keyable(a) and keyable(b):
                return [(st, norm_bool(strkey(self, a) == strkey(self, b)))]
        for x, y in ((a, b), (b, a)):
            if x.is_lit() and len(y.segs) == 1 and isinstance(y.segs[0], View) and all(isinstance(ch, int) for ch in x.lit()):
                c = self.hooks.get("text_is", no_text)(self, y.segs[0], bytes(x.lit()))
                if c is not None:
                    return [(st, c)]
        la, lb = self.rlen(a), self.rlen(b)
        ce = self.D.eq(la, lb)
        out = []
        for s, v in self.split(st, ce):
            if not v:
                out.append((s, False))
                continue
            r = self.rope_eq_term(s, a, b)
            out.append((s, r))
        return out

    def rope_eq_term(self, st, a, b):
        """boolean term for equality of two ropes of provably equal length"""
        if same(a, b):
            return True
        # literal length on one side: pointwise
        for x, y in ((a, b), (b, a)):
            n = self.rlen(x)
            if isinstance(n, int) and n <= 128:
                cs = []
                for i in range(n):
                    rs = self.rope_at(st, y, i, self.P.BYTE)
                    qs = self.rope_at(st, x, i, self.P.BYTE)
                    if len(rs) != 1 or len(qs) != 1:
                        raise Unsupported("string comparison forks")
                    cs.append(self.D.eqterm(rs[0][1], qs[0][1], self.P.BYTE))
                return norm_bool(band(*cs))
        t = self.spec.rope_eq_atom(self, st, a, b) if self.spec else None
        if t is None:
            raise Unsupported("equality of symbolic strings")
        return t

    def val_eq_fork(self, st, a, b, ty):
        if a is NIL or b is NIL:
            x = b if a is NIL else a
            if x is NIL:
                return [(st, True)]
            if isinstance(x, SliceV):
                return [(st, x.loc is None)]
            if isinstance(x, Opq):
                return [(st, self.models.opq_isnil(self, st, x))]
            if hasattr(x, "isnil"):
                return [(st, x.isnil(self, st))]
            return [(st, False)]
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if b.loc is None:
                return self._slice_nil(st, a)
            if a.loc is None:
                return self._slice_nil(st, b)
        if isinstance(a, Opq) and self.P.kind(a.ty) == "slice" and isinstance(b, SliceV) and b.loc is None:
            return [(st, self.models.opq_isnil(self, st, a))]
        if isinstance(a, ErrV) and isinstance(b, ErrV):
            if a.kind == b.kind and a.kind in ("EOF", "UEOF"):
                return [(st, True)]
            if "end" in (a.kind, b.kind) and ({a.kind, b.kind} & {"EOF", "UEOF"}):
                e = a if a.kind == "end" else b
                o = b if e is a else a
                return [(st, e.id[0] if o.kind == "EOF" else False)]
            return [(st, a.id is not None and a.id == b.id)]
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            if a.ty is not b.ty:
                return [(st, False)]
            if isinstance(a.ty, str):
                return [(st, same(a.val, b.val))]
            return self.val_eq_fork(st, a.val, b.val, a.ty)
        if isinstance(a, (ErrV,)) or isinstance(b, (ErrV,)):
            return [(st, False)]
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            for x, y in ((a, b), (b, a)):
                if hasattr(x, "eq_fork"):
                    return x.eq_fork(self, st, y)
            return [(st, same(a, b))]
        if isinstance(a, (int, z3.BitVecRef, z3.ArithRef)) and not isb(a):
            return [(st, self.D.cmp("==", a, b, ty))]
        if isinstance(a, (bool, z3.BoolRef)):
            return [(st, norm_bool(zb(a) == zb(b)))]
        a, b = self.mat(st, a), self.mat(st, b)
        if isinstance(a, StructV) and isinstance(b, StructV):
            cur = [(st, True)]
            for x, y, f in zip(a.vals, b.vals, self.P.fields(ty)):
                nxt = []
                for s, r in cur:
                    if r is False:
                        nxt.append((s, r))
                        continue
                    for s2, r2 in self.val_eq_fork(s, x, y, f[1]):
                        nxt.append((s2, band(r, r2)))
                cur = nxt
            return cur
        if isinstance(a, Rope) and isinstance(b, Rope):
            return self.rope_eq_fork(st, a, b)
        if hasattr(a, "eq_fork"):
            return a.eq_fork(self, st, b)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def _slice_nil(self, st, a):
        if a.loc is None:
            return [(st, True)]
        o = st.heap.get(a.loc.oid)
        if o is not None and isinstance(o.tag, tuple) and o.tag[0] == "maybenil":
            return [(st, o.tag[1])]
        if o is not None and isinstance(o.tag, tuple) and o.tag[0] == "opq":
            return [(st, self.models.opq_isnil(self, st, o.tag[1]))]
        return [(st, False)]

    def i_UnOp(self, fr, ins, env, st):
        o = ins["o"]
        x = self.val(st, env, ins["x"])
        ty = self.P.T[ins["t"]]
        if o == "*":
            if not self.nilcheck(st, x, fr, ins):
                return []
            out = []
            for s, v in self.load(st, x):
                out.append((s, v))
            return out
        if o == "!":
            return [(st, bnot(x))]
        if o == "-":
            if self.P.kind(ty) == "int":
                return [(st, self.D.neg(x, ty))]
        if o == "^":
            return [(st, self.D.inv(x, ty))]
        raise Unsupported("unop " + o)

    def nilcheck(self, st, p, fr, ins):
        if p is NIL:
            self.require(st, False, "nil dereference", fr, ins)
            return False
        if hasattr(p, "isnil"):
            return self.require(st, bnot(p.isnil(self, st)), "nil dereference", fr, ins)
        if isinstance(p, PtrV):
            return True
        raise Unsupported("pointer %r" % (p,))

    def i_Store(self, fr, ins, env, st):
        p = self.val(st, env, ins["x"])
        v = self.val(st, env, ins["y"])
        if not self.nilcheck(st, p, fr, ins):
            return []
        return [(s, None) for s in self.store(st, p, v)]

    def i_FieldAddr(self, fr, ins, env, st):
        p = self.val(st, env, ins["x"])
        if not self.nilcheck(st, p, fr, ins):
            return []
        if hasattr(p, "sub"):
            return [(st, p.sub(("f", ins["i"])))]
        return [(st, PtrV(p.oid, p.path + (("f", ins["i"]),)))]

    def i_Field(self, fr, ins, env, st):
        return self.get_path(st, self.val(st, env, ins["x"]), (("f", ins["i"]),))

    def bounds(self, st, i, n, fr, ins, ity):
        c = band(self.D.cmp(">=", i, 0, ity), self.D.lt(self.D.convert(i, ity, self.P.INT) if ity.width != 64 else i, n))
        if ity.width == 64 and not ity.signed and not isinstance(i, int):
            # unsigned 64-bit index compared as unsigned
            c = z3.ULT(self.D.sz(i), self.D.sz(n)) if self.D.name == "bv" else c
            c = norm_bool(c)
        return self.require(st, c, "index out of range", fr, ins)

    def idx(self, i, ity):
        return self.D.convert(i, ity, self.P.INT)

    def i_IndexAddr(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        i = self.val(st, env, ins["y"])
        ity = self.opty(ins["y"])
        if isinstance(x, Opq):
            x = self.mat(st, x)
        if isinstance(x, SliceV):
            if not self.bounds(st, i, x.ln, fr, ins, ity):
                return []
            if hasattr(x.loc, "sub"):
                return [(st, x.loc.sub(("i", self.D.add(x.off, self.idx(i, ity)))))]
            return [(st, PtrV(x.loc.oid, x.loc.path + (("i", self.D.add(x.off, self.idx(i, ity))),)))]
        if not self.nilcheck(st, x, fr, ins):
            return []
        n = self.P.under(self.P.elem(self.opty(ins["x"]))).n
        if not self.bounds(st, i, n, fr, ins, ity):
            return []
        if hasattr(x, "sub"):
            return [(st, x.sub(("i", self.idx(i, ity))))]
        return [(st, PtrV(x.oid, x.path + (("i", self.idx(i, ity)),)))]

    def i_Index(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        i = self.val(st, env, ins["y"])
        ity = self.opty(ins["y"])
        if not self.bounds(st, i, self.rlen(x), fr, ins, ity):
            return []
        k = self.P.kind(self.opty(ins["x"]))
        et = self.P.BYTE if k == "string" else self.P.elem(self.opty(ins["x"]))
        return self.rope_at(st, x, self.idx(i, ity), et)

    def i_Slice(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        D = self.D
        lo = self.val(st, env, ins.get("lo"))
        hi = self.val(st, env, ins.get("hi"))
        mx = self.val(st, env, ins.get("max"))
        if "lo" in ins:
            lo = self.idx(lo, self.opty(ins["lo"]))
        if "hi" in ins:
            hi = self.idx(hi, self.opty(ins["hi"]))
        if lo is None:
            lo = 0
        if isinstance(x, Opq):
            x = self.mat(st, x)
        if isinstance(x, Rope):
            n = self.rlen(x)
            if hi is None:
                hi = n
            if not self.require(st, band(D.le(0, lo), D.le(lo, hi), D.le(hi, n)), "slice bounds out of range", fr, ins):
                return []
            return self.rope_slice(st, x, lo, hi)
        if isinstance(x, SliceV):
            if hi is None:
                hi = x.ln
            cap = x.cap if mx is None else mx
            if not self.require(st, band(D.le(0, lo), D.le(lo, hi), D.le(hi, cap), D.le(cap, x.cap)), "slice bounds out of range", fr, ins):
                return []
            if x.loc is None:
                return [(st, x)]
            return [(st, SliceV(x.loc, D.add(x.off, lo), D.sub(hi, lo), D.sub(cap, lo)))]
        if not self.nilcheck(st, x, fr, ins):
            return []
        n = self.P.under(self.P.elem(self.opty(ins["x"]))).n
        if hi is None:
            hi = n
        cap = n if mx is None else mx
        if not self.require(st, band(D.le(0, lo), D.le(lo, hi), D.le(hi, cap), D.le(cap, n)), "slice bounds out of range", fr, ins):
            return []
        return [(st, SliceV(x, lo, D.sub(hi, lo), D.sub(cap, lo)))]

    def i_SliceToArrayPointer(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        n = self.P.under(self.P.elem(self.P.T[ins["t"]])).n
        if not self.require(st, self.D.le(n, x.ln), "slice to array length", fr, ins):
            return []
        for s, r in self.load(st, x.loc):
            if isinstance(x.off, int) and x.off == 0 and same(self.rlen(r), n):
                return [(st, x.loc)]
        raise Unsupported("SliceToArrayPointer")

    def i_Convert(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        f, t = self.opty(ins["x"]), self.P.T[ins["t"]]
        fk, tk = self.P.kind(f), self.P.kind(t)
        if fk == "int" and tk == "int":
            return [(st, self.D.convert(x, f, t))]
        if fk == "slice" and tk == "string":
            if self.P.elem(f).width != 8:
                raise Unsupported("[]rune to string")
            return self.content(st, x)
        if fk == "string" and tk == "slice":
            if self.P.elem(t).width != 8:
                raise Unsupported("string to []rune")
            return [(st, self.mkslice(st, x))]
        if fk == "int" and tk == "string":
            return self.models.rune_to_string(self, st, x, f)
        if fk == "int" and tk == "float" and self.D.name == "int":
            return [(st, Float(z3.ToReal(self.D.sz(x))))]
        if fk == "int" and tk == "float":
            return [(st, Float(("conv", x)))]
        if fk == "float" and tk == "int" and isinstance(x, Float):
            return self.models.float_to_int(self, st, x, t)
        if fk == tk:
            return [(st, x)]
        raise Unsupported("convert %s to %s" % (f.s, t.s))

    def i_ChangeType(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        if isinstance(x, Opq):
            x = self.mat(st, x)
        return [(st, x)]

    def i_ChangeInterface(self, fr, ins, env, st):
        return [(st, self.val(st, env, ins["x"]))]

    def i_MakeInterface(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        return [(st, IfaceV(self.opty(ins["x"]), x))]

    def i_MakeClosure(self, fr, ins, env, st):
        f = self.val(st, env, ins["fn"])
        return [(st, FuncV(f.name, tuple(self.val(st, env, a) for a in ins["args"])))]

    def i_MakeSlice(self, fr, ins, env, st):
        n = self.idx(self.val(st, env, ins["x"]), self.opty(ins["x"]))
        c = self.idx(self.val(st, env, ins["y"]), self.opty(ins["y"]))
        D = self.D
        et = self.P.elem(self.P.T[ins["t"]])
        if not self.require(st, band(D.le(0, n), D.le(n, c)), "makeslice: len out of range", fr, ins):
            return []
        out = []
        if not self.alloc_ok(st, c, fr, ins):
            return []
        z = self.zero(et)
        if isinstance(c, int) and c <= 4096:
            r = lit([z] * c)
        else:
            r = Rope((View(ConstSrc(z), 0, c),))
        oid = self.new(st, "cell", None, r)
        return [(st, SliceV(PtrV(oid), 0, n, c))]

    def alloc_ok(self, st, n, fr, ins):
        """allocation obligation: an up-front allocation is bounded by a constant or by data already held"""
        if isinstance(n, int):
            return True
        lim = st.ghost.get("alloclim")
        if lim is None:
            c = self.D.le(n, CAPLEN * 16)
            return self.require(st, c, "allocation out of range", fr, ins)
        return self.require(st, self.D.le(n, lim), "allocation not bounded by the input", fr, ins)

    def i_MakeMap(self, fr, ins, env, st):
        if self.hooks.get("optr"):
            oid = self.new(st, "cell", None, StructV((z3.IntVal(0),)), tag="amap")
            return [(st, PtrV(oid))]
        oid = self.new(st, "map", self.P.T[ins["t"]], Rope())
        return [(st, PtrV(oid))]

    def i_MapUpdate(self, fr, ins, env, st):
        m = self.val(st, env, ins["m"])
        if m is NIL:
            self.require(st, False, "assignment to nil map", fr, ins)
            return []
        return self.models.map_update(self, st, m, self.val(st, env, ins["x"]), self.val(st, env, ins["y"]))

    def i_Lookup(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        k = self.val(st, env, ins["y"])
        if isinstance(x, Rope):
            ity = self.opty(ins["y"])
            if not self.bounds(st, k, self.rlen(x), fr, ins, ity):
                return []
            return self.rope_at(st, x, self.idx(k, ity), self.P.BYTE)
        return self.models.map_lookup(self, st, x, k, self.P.elem(self.opty(ins["x"])), ins.get("ok"))

    def i_Extract(self, fr, ins, env, st):
        t = self.val(st, env, ins["x"])
        return [(st, t[ins["i"]])]

    def i_Range(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        oid = self.new(st, "cell", None, StructV((0, x)))
        return [(st, PtrV(oid))]

    def i_Next(self, fr, ins, env, st):
        p = self.val(st, env, ins["x"])
        if not ins.get("str"):
            raise Unsupported("range over map")
        it = st.heap[p.oid].val
        pos, r = it.vals
        D = self.D
        out = []
        for s, more in self.split(st, D.lt(pos, self.rlen(r))):
            if not more:
                out.append((s, (False, 0, 0)))
                continue
            for s2, b in self.rope_at(s, r, pos, self.P.BYTE):
                for s3, ascii in self.split(s2, D.cmp("<", b, 0x80, self.P.BYTE)):
                    if ascii:
                        rn = D.convert(b, self.P.BYTE, self.P.byname["rune"] if "rune" in self.P.byname else self.P.byname["int32"])
                        s3.heap[p.oid] = s3.heap[p.oid].with_val(StructV((D.add(pos, 1), r)))
                        out.append((s3, (True, pos, rn)))
                    else:
                        # a multi-byte or invalid sequence: some rune >= 0x80, 1 to 4 bytes
                        i32 = self.P.byname["int32"]
                        rn = self.fresh_int("rune", i32)
                        w = self.fresh_sz(s3, "w", 1, 4)
                        s3.assume(D.cmp(">=", rn, 0x80, i32))
                        s3.assume(D.cmp("<=", rn, 0x10FFFF, i32))
                        s3.assume(D.le(D.add(pos, w), self.rlen(r)))
                        s3.heap[p.oid] = s3.heap[p.oid].with_val(StructV((D.add(pos, w), r)))
                        out.append((s3, (True, pos, rn)))
        return out

    def i_TypeAssert(self, fr, ins, env, st):
        x = self.val(st, env, ins["x"])
        at = self.P.T[ins["at"]]
        ok = ins.get("ok")
        isi = self.P.under(at).k == "iface"
        out = []
        if hasattr(x, "type_assert"):
            rs = x.type_assert(self, st, at, isi)
        elif isinstance(x, Opq):
            rs = self.models.opq_type_assert(self, st, x, at, isi)
        else:
            match = False
            if x is NIL:
                match = False
            elif isinstance(x, IfaceV):
                if isi:
                    match = self.implements(x.ty, at)
                else:
                    match = x.ty is at
            elif isinstance(x, ErrV):
                if at.s == "error":
                    match = True
                else:
                    raise Unsupported("type assertion on an error value")
            else:
                raise Unsupported("type assertion on %r" % (x,))
            rs = [(st, match, (x if isi else x.val) if match else None)]
        for s, m, v in rs:
            if m:
                out.append((s, (v, True) if ok else v))
            elif ok:
                out.append((s, (self.zero(at), False)))
            else:
                self.require(s, False, "interface conversion", fr, ins)
        return out

    def implements(self, ty, iface):
        if isinstance(ty, str):
            return self.models.abstract_implements(ty, iface.s)
        need = self.P.under(iface).methods or []
        have = self.P.methods.get(ty.s)
        if have is None:
            if not need:
                return True
            u = self.P.under(ty)
            if ty.k in ("basic", "slice", "array", "map", "struct", "ptr", "func"):
                if ty.k == "ptr" and self.P.T[ty._e].k == "named":
                    raise Unsupported("method set of " + ty.s)
                return False
            raise Unsupported("method set of " + ty.s)
        return all(m in have for m in need)

    # ------------------------------------------------------------ calls
    def i_Call(self, fr, ins, env, st):
        args = [self.val(st, env, a) for a in ins["args"]]
        rt = self.P.T[ins["t"]]
        if "invoke" in ins:
            return self.unwrap(self.invoke(fr, ins, st, self.val(st, env, ins["x"]), ins["invoke"], args), rt)
        f = self.val(st, env, ins["fn"])
        if isinstance(f, FuncV) and f.name.startswith("builtin:"):
            return self.builtin(fr, ins, st, f.name[8:], args, [self.opty(a) for a in ins["args"]])
        if f is NIL:
            self.require(st, False, "call of nil function", fr, ins)
            return []
        return self.unwrap(self.dispatch(fr, ins, st, f, args), rt)

    def unwrap(self, outs, rt):
        if self.P.kind(rt) == "tuple":
            return [(s, v) for s, v in outs]
        return [(s, v[0] if isinstance(v, tuple) and len(v) == 1 else v) for s, v in outs]

    def dispatch(self, fr, ins, st, f, args):
        if f.py is not None:
            return f.py(self, fr, ins, st, args)
        name = f.name
        c = self.contracts.get(name)
        if c is not None and not f.bind and (self.root is None or name != self.root or fr is not None):
            if c.usable(self):
                r = c.apply(self, fr, ins, st, args)
                if r is not None:
                    self.used[name] = self.used.get(name, 0) + 1
                    return r
        m = self.models.lookup(name)
        if m is not None:
            self.models_used.add(name)
            return m(self, fr, ins, st, args)
        fn = self.P.funcs.get(name)
        if fn is not None and fn.blocks:
            d = (fr.depth if fr else 0) + 1
            if self.rec_depth(fr, name) > 3:
                raise Unsupported("recursion in " + name)
            self.inlined.add(name)
            self._stack = getattr(self, "_stack", [])
            self._stack.append(name)
            try:
                return self.call_func(fn, args, st, d, f.bind)
            finally:
                self._stack.pop()
        raise Unsupported("call of " + name)

    def rec_depth(self, fr, name):
        return getattr(self, "_stack", []).count(name)

    def invoke(self, fr, ins, st, recv, meth, args):
        if recv is NIL:
            self.require(st, False, "method call on nil interface", fr, ins)
            return []
        if hasattr(recv, "invoke"):
            return recv.invoke(self, fr, ins, st, meth, args)
        if isinstance(recv, IfaceV):
            if isinstance(recv.ty, str):
                return self.models.invoke_abstract(self, fr, ins, st, recv, meth, args)
            mm = self.P.methods.get(recv.ty.s, {})
            if meth not in mm:
                m = self.models.lookup_method(recv.ty.s, meth)
                if m is None:
                    raise Unsupported("method %s of %s" % (meth, recv.ty.s))
                return m(self, fr, ins, st, [recv.val] + args)
            return self.dispatch(fr, ins, st, FuncV(mm[meth]), [recv.val] + args)
        if isinstance(recv, ErrV) and meth == "Error":
            return [(st, (Rope((App("errtext", (), self.fresh_sz(st, "elen")),)),))]
        if isinstance(recv, Opq):
            return self.models.invoke_opq(self, fr, ins, st, recv, meth, args)
        raise Unsupported("invoke %s on %r" % (meth, recv))

    def builtin(self, fr, ins, st, name, args, tys):
        D = self.D
        if name == "len" or name == "cap":
            x = args[0]
            if isinstance(x, Opq):
                x = self.mat(st, x)
            if isinstance(x, Rope):
                return [(st, self.rlen(x))]
            if isinstance(x, SliceV):
                return [(st, x.ln if name == "len" else x.cap)]
            if x is NIL:
                return [(st, 0)]
            if isinstance(x, PtrV):
                t = self.P.under(tys[0])
                if t.k == "ptr":
                    return [(st, self.P.under(self.P.elem(tys[0])).n)]
                if st.heap[x.oid].kind == "map":
                    return [(st, self.rlen(st.heap[x.oid].val))]
            raise Unsupported("len of %r" % (x,))
        if name == "append":
            return self.append(fr, ins, st, args[0], args[1])
        if name == "copy":
            return self.copy(fr, ins, st, args[0], args[1])
        if name == "ssa:wrapnilchk":
            if args[0] is NIL:
                self.require(st, False, "nil receiver", fr, ins)
                return []
            return [(st, args[0])]
        if name in ("min", "max"):
            ty = tys[0]
            r = args[0]
            for b in args[1:]:
                c = D.cmp("<" if name == "min" else ">", r, b, ty)
                r = (r if c else b) if isb(c) else D.ite(c, r, b, ty)
            return [(st, r)]
        if name in ("print", "println"):
            return [(st, ())]
        if name == "clear":
            raise Unsupported("clear")
        raise Unsupported("builtin " + name)

    def append(self, fr, ins, st, a, b):
        D = self.D
        a, b = self.mat(st, a), self.mat(st, b) if not isinstance(b, Rope) else b
        out = []
        src = [(st, b)] if isinstance(b, Rope) else self.content(st, b)
        for s, piece in src:
            k = self.rlen(piece)
            if isinstance(k, int) and k == 0:
                out.append((s, a))
                continue
            nl = D.add(a.ln, k)
            c = D.le(nl, a.cap)
            if a.loc is not None and not isb(c):
                o = s.heap.get(a.loc.oid)
                if not (o is not None and o.pre):
                    # own allocation: decide when provable, otherwise grow
                    c = self.proves(s, c)
            elif a.loc is None:
                c = False
            for s1, inplace in self.split(s, c):
                if inplace:
                    for s2, full in self.load(s1, a.loc):
                        for s3, l, r in self.rope_split(s2, full, D.add(a.off, a.ln)):
                            for s4, _, rr in self.rope_split(s3, r, k):
                                for s5 in self.store(s4, a.loc, self.cat(l, piece, rr)):
                                    out.append((s5, SliceV(a.loc, a.off, nl, a.cap)))
                else:
                    for s2, old in self.content(s1, a):
                        if a.loc is not None:
                            o = s2.heap.get(a.loc.oid)
                            if o is not None and o.tag == "grown":
                                # its real capacity is unknown: the result may or may not share memory with it
                                s2.heap[a.loc.oid] = Obj(o.kind, o.ty, o.val, o.pre, "moved")
                        out.append((s2, self.mkslice(s2, self.cat(old, piece))))
        return out

    def copy(self, fr, ins, st, d, src):
        D = self.D
        d = self.mat(st, d)
        out = []
        for s, piece in ([(st, src)] if isinstance(src, Rope) else self.content(st, src)):
            n = self.rlen(piece)
            for s1, fits in self.split(s, D.le(n, d.ln)):
                m = n if fits else d.ln
                if isinstance(m, int) and m == 0 or d.loc is None:
                    out.append((s1, 0 if d.loc is None else m))
                    continue
                for s2, p in ([(s1, piece)] if fits else self.rope_slice(s1, piece, 0, m)):
                    for s3, full in self.load(s2, d.loc):
                        full = self.mat(s3, full)
                        for s4, l, r in self.rope_split(s3, full, d.off):
                            for s5, _, rr in self.rope_split(s4, r, m):
                                for s6 in self.store(s5, d.loc, self.cat(l, p, rr)):
                                    out.append((s6, m))
        return out
