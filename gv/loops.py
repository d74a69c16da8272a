"""Loops: unrolled when every path leaves within a few iterations, otherwise summarised by
recurrences that are checked inductively (the loop invariant is inferred, then proved)."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from .engine import LoopLimit, Univ, Obj, State

import os
DEBUG = os.environ.get("GVDEBUG")


def run(E, fr, h, prev, env, st, stops):
    fn = fr.fn
    key = (fn.name, h)
    lk = (fr.id, h)
    nested = any(h in body for h2, body in fn.loops.items() if h2 != h)
    if key not in E.force_summ and getattr(E, "cands", None) and not nested:
        # the contract offers invariants: try them first
        save = (len(E.panics), E.sites, E.paths)
        try:
            S = Summary(E, fr, h, prev, env, st.fork(), stops)
            S.exact = True
            r = S.run()
            E.force_summ.add(key)
            return r
        except Unsupported as e:
            if DEBUG:
                import traceback
                traceback.print_exc()
            del E.panics[save[0]:]
            E.sites, E.paths = save[1], save[2]
            E.rejected.add(key)
    if key not in E.force_summ:
        save = (len(E.panics), E.sites, E.paths)
        s = st.fork()
        s.lp[lk] = (0, 0)
        try:
            return E.region(fr, h, prev, env, s, stops, skipphi=True)
        except LoopLimit as e:
            if e.key != lk:
                raise
            del E.panics[save[0]:]
            E.sites, E.paths = save[1], save[2]
            E.force_summ.add(key)
    return Summary(E, fr, h, prev, env, st, stops).run()


class Slot:
    def __init__(self, key, init, ty):
        self.key, self.init, self.ty = key, init, ty
        self.form = "const"
        self.arg = None

    def __repr__(self):
        return "%s:%s(%s)" % (self.key, self.form, self.arg)


def getp(v, path):
    for p in path:
        v = v.vals[p]
    return v


def setp(v, path, nv):
    if not path:
        return nv
    i = path[0]
    return StructV(v.vals[:i] + (setp(v.vals[i], path[1:], nv),) + v.vals[i + 1:])


def is_int(v):
    return isinstance(v, (int, z3.BitVecRef, z3.ArithRef)) and not isb(v)


def mentions(x, k):
    seen, todo = set(), [x]
    while todo:
        x = todo.pop()
        if x.eq(k):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


class Summary:
    exact = False         # refuse invariants that lose a value

    def __init__(self, E, fr, h, prev, env, st, stops):
        self.E, self.fr, self.h, self.prev, self.env, self.st, self.stops = E, fr, h, prev, env, st, stops
        self.fn = fr.fn
        self.body = self.fn.loops[h]
        self.exits = frozenset(s for b in self.body for s in self.fn.succ[b] if s not in self.body)
        self.K = E.D.fresh(E.fresh_name("k"), E.P.INT)
        self.slots = {}
        self.cont = None
        self.tys = E.regtys(self.fn)
        self.cand = E.cands(self) if getattr(E, "cands", None) else None     # candidate invariants offered by the contract
        self.preds = []
        if self.cand is not None:
            s0 = st.fork()
            self.cand.enter(s0)
            self.preds = [p for p in self.cand.preds if E.proves(s0, p(0))]
        for ins in self.fn.blocks[h]["i"]:
            if ins["op"] != "Phi":
                break
            self.slots[("phi", ins["d"])] = Slot(("phi", ins["d"]), env[ins["d"]], self.tys.get(ins["d"]))

    def unsupported(self, msg):
        raise Unsupported("loop at %s block %d: %s" % (self.fn.name, self.h, msg))

    # ---------------------------------------------------------------- generic state
    def generic(self):
        E, D, K = self.E, self.E.D, self.K
        s = self.st.fork()
        s.lp[(self.fr.id, self.h)] = (0, 0)
        s.assume(D.le(0, K))
        s.assume(D.le(K, 1 << 62))
        env = dict(self.env)
        self.gvals = {}
        s.idx = s.idx + [K, D.sub(K, 1)]
        if self.cont is not None:
            c, K0 = self.cont, self.K
            s.univ.append(Univ(lambda j, c=c: bimp(band(D.le(0, j), D.lt(j, K0)), norm_bool(z3.substitute(c, (K0, D.sz(j)))) if not isb(c) else c), "continued"))
        if self.cand is not None:
            self.cand.enter(s)
            for p in self.preds:
                s.assume(p(K))
        for sl in sorted(self.slots.values(), key=lambda x: len(x.key)):
            v = self.gen_value(s, sl)
            self.gvals[sl.key] = v
            if sl.key[0] == "phi":
                env[sl.key[1]] = v
            elif sl.key[0] == "heap":
                o = s.heap[sl.key[1]]
                s.heap[sl.key[1]] = o.with_val(setp(E.mat(s, o.val) if sl.key[2] else o.val, sl.key[2], v))
        self.gst = s.fork()
        return env, s

    def gen_value(self, s, sl):
        E, D, K = self.E, self.E.D, self.K
        f = sl.form
        if f == "const":
            return sl.init
        if f == "affine":
            return self.affine_at(sl, K)
        if f == "iter":
            return self.iter_at(sl, K)
        if f in ("havoc", "probe"):
            return sl.arg
        if f == "cand" and isinstance(sl.init, SliceV):     # slice with an offered content
            r = sl.arg[0](K, sl.ty)
            sl.oid = E.new(s, "cell", None, r, tag=self.niltag(sl, r))
            return SliceV(PtrV(sl.oid), 0, E.rlen(r), E.rlen(r))
        if f == "cand":
            return sl.arg[0](K, sl.ty)
        if f == "append":
            return E.cat(sl.init, self.gen_rope(sl, K))
        if f == "prepend":
            return E.cat(self.gen_rope(sl, K), sl.init)
        if f == "sappend":        # slice built by append
            base = sl.arg2
            r = E.cat(base, self.gen_rope(sl, K))
            sl.oid = oid = E.new(s, "cell", None, r, tag=self.niltag(sl, r))
            return SliceV(PtrV(oid), 0, E.rlen(r), E.rlen(r))
        if f == "sprepend":       # slice built by prepending
            r = E.cat(self.rev_rope(sl), sl.arg2)
            sl.oid = oid = E.new(s, "cell", None, r, tag=self.niltag(sl, r))
            return SliceV(PtrV(oid), 0, E.rlen(r), E.rlen(r))
        if f == "reslice":
            i = sl.init
            d = sl.arg
            off = self.E.D.add(i.off, D.mul(d, K))
            return SliceV(i.loc, off, D.sub(i.ln, D.mul(d, K)), D.sub(i.cap, D.mul(d, K)))
        if f == "view":           # string shrinking from the front
            v = sl.arg2
            return Rope((View(v.src, D.add(v.off, D.mul(sl.arg, K)), D.sub(v.n, D.mul(sl.arg, K))),))
        if f == "comp":           # array filled in index order
            i0, g = sl.arg
            return sl.compf(s)
        self.unsupported("form " + f)

    def niltag(self, sl, r):
        """a slice that starts out nil may still be nil while it is empty"""
        E, D = self.E, self.E.D
        if sl.init.loc is not None and E._slice_nil(self.st, sl.init)[0][1] is False:
            return None
        still = E.uf(E.fresh_name("stillnil"), (self.K,), z3.BoolSort())
        return ("maybenil", band(D.eq(E.rlen(r), 0), bor(norm_bool(D.sz(self.K) == 0) if sl.init.loc is None else False, still)))

    def affine_at(self, sl, k):
        D = self.E.D
        ty = sl.ty if sl.ty is not None and sl.ty.width else self.E.P.INT
        k2 = k if ty.width == 64 or D.name == "int" else D.convert(k, self.E.P.INT, ty)
        if D.name == "int":
            r = D.fold(D.sz(sl.init) + D.sz(sl.arg) * D.sz(k2))
            return r
        return D.binop("+", sl.init, D.binop("*", sl.arg, k2, ty), ty)

    def iter_at(self, sl, k):
        return self.E.iter_term(sl.arg, sl.init, k)

    def gen_rope(self, sl, k):
        """what k iterations contributed"""
        E, D = self.E, self.E.D
        g = sl.arg
        if g.cases is not None and len(g.cases) == 1 and isb(g.cases[0][0]):
            piece = g.cases[0][1]
            if len(piece.segs) == 1 and isinstance(piece.segs[0], Lit) and len(piece.segs[0].v) == 1:
                e = piece.segs[0].v[0]
                if not has_var(e, g.var):
                    return Rope((View(ConstSrc(e), 0, k),))
                return Rope((View(FnSrc(g.var, e, ("fn", g.id)), 0, k),))
            n = E.rlen(piece)
            if isinstance(n, int):
                return Rope((Gen(g, 0, k, D.mul(n, k)),)) if n else Rope()
        return Rope((Gen(g, 0, k, self.genlen(g, k)),))

    def rev_rope(self, sl):
        """what the iterations contributed, the last one first (single elements only)"""
        D, K, g = self.E.D, self.K, sl.arg
        if g.cases is None:
            return Rope((Gen(g, 0, K, self.genlen(g, K)),))
        piece = g.cases[0][1]
        if len(g.cases) != 1 or not isb(g.cases[0][0]) or len(piece.segs) != 1 or not isinstance(piece.segs[0], Lit) or len(piece.segs[0].v) != 1:
            self.unsupported("prepended elements: %r" % (g.cases,))
        v = z3.Int(self.E.fresh_name("pos"))
        return Rope((View(FnSrc(v, subst(piece.segs[0].v[0], [(g.var, D.sub(D.sub(K, 1), v))]), ("fnrev", g.id)), 0, K),))

    def genlen(self, g, k):
        E, D = self.E, self.E.D
        n = E.uf("genlen:%d" % g.id, (D.sz(k),), D.szsort())
        kk = ("genlen", n.get_id())
        if kk not in E.ufs:
            E.ufs[kk] = n
            D.facts.append(zb(D.le(0, n)))
            D.facts.append(zb(D.le(n, 1 << 50)))
            D.facts.append(z3.Implies(D.sz(k) == 0, n == 0))
        return n

    # ---------------------------------------------------------------- main
    def run(self):
        E = self.E
        save = (len(E.panics), E.sites, E.paths)
        for rnd in range(14):
            del E.panics[save[0]:]
            E.sites, E.paths = save[1], save[2]
            nf0 = E.nf
            env, s = self.generic()
            self.base_pc = len(s.pc)
            outs = E.region(self.fr, self.h, self.prev, env, s, self.exits | {self.h}, skipphi=True)
            backs = [o for o in outs if o[0] == "at" and o[1] == self.h]
            others = [o for o in outs if not (o[0] == "at" and o[1] == self.h)]
            changed = self.refine(backs, nf0)
            if not changed:
                break
        else:
            self.unsupported("recurrences do not stabilise: %s" % list(self.slots.values()))
        if self.exact and any(x.form in ("havoc", "iter") and not hasattr(x.init, "hv") and not isinstance(x.init, Rope) for x in self.slots.values()):
            self.unsupported("no offered invariant for %s" % [x for x in self.slots.values() if x.form in ("havoc", "iter")])
        E.loops_done[(self.fn.name, self.h)] = [repr(x) for x in self.slots.values() if x.form != "const"]
        self.terminates()
        res = []
        sk = self.skolem(others, nf0)
        for p in E.panics[save[0]:]:
            pass
        ex = [o for o in sk if o[0] == "at"]
        res = [o for o in sk if o[0] != "at"]
        ex = E._coalesce(self.fr, ex, self.exits)
        for o in ex:
            if o[0] != "at":
                res.append(o)
                continue
            if o[1] in self.stops:
                res.append(o)
            else:
                res += E.resume(self.fr, o[1], o[2], o[3], o[4], self.stops)
        return E._coalesce(self.fr, res, self.stops)

    def terminates(self):
        """some count of iterations that leaves no way to continue (also justifies the bound assumed on the number of iterations)"""
        E, D = self.E, self.E.D
        s = self.gst.fork()
        s.assume(D.eq(self.K, 1 << 62))
        t = self.cont is not None and (self.cont is False or E.proves(s, bnot(self.cont)) or self.counted())
        k = (self.fn.name, self.h)
        E.loops_term[k] = E.loops_term.get(k, True) and bool(t)

    def counted(self):
        """continuing needs: the number of iterations is below a bound that does not depend on it (the loop tests its counter)"""
        E, D, K = self.E, self.E.D, self.K
        if isb(self.cont):
            return False
        bounds, seen, todo = {}, set(), [self.cont]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo += x.children()
            if z3.is_bool(x) and x.num_args() == 2 and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if a.eq(K) and not mentions(b, K):
                        bounds[b.get_id()] = b
        for b in bounds.values():
            s = self.gst.fork()
            s.assume(self.cont)
            if E.proves(s, norm_bool(K < b if D.name == "int" else z3.ULT(K, b))):
                return True
        return False

    def skolem(self, outs, nf0):
        """symbols created inside the body are functions of the iteration; K itself is free at the exit"""
        return outs

    # ---------------------------------------------------------------- inference
    def refine(self, backs, nf0):
        E, D, K = self.E, self.E.D, self.K
        changed = False
        # path condition of continuing, as a function of K
        conds = []
        for o in backs:
            c = band(*o[4].pc[self.base_pc:])
            conds.append(self.sk(c, nf0))
        c = norm_bool(bor(*conds)) if conds else False
        if not (same(c, self.cont) or (isb(c) and c is self.cont)):
            # only keep when it talks about stable things
            if self.cont is None or canon(c) != canon(self.cont):
                changed = True
            self.cont = c
        # phis
        later = []
        for key, sl in list(self.slots.items()):
            if key[0] == "phi":
                vals = [(o[3][key[1]], o[4]) for o in backs]
            else:
                vals = [(getp(E.mat(o[4], o[4].heap[key[1]].val) if key[2] else o[4].heap[key[1]].val, key[2]), o[4]) for o in backs]
            if sl.form == "cand":
                later.append((sl, vals))
                continue
            if self.update(sl, vals, nf0):
                changed = True
        # heap
        for o in backs:
            st = o[4]
            for oid, ob in st.heap.items():
                o0 = self.st.heap.get(oid)
                if o0 is None or o0 is ob:
                    continue
                base = self.gheap(oid)
                if base is ob.val or same(base, ob.val):
                    continue
                if any(sl.form in ("sappend", "sprepend", "cand") and getattr(sl, "oid", None) == oid for sl in self.slots.values()):
                    continue
                changed |= self.diff_heap(oid, (), o0.val, ob.val, st, o0.ty)
        # candidate invariants are judged once everything else is stable
        if not changed:
            for sl, vals in later:
                changed |= self.update(sl, vals, nf0)
        if not changed:
            for p in list(self.preds):
                if not all(E.proves(o[4], p(D.add(K, 1))) for o in backs):
                    self.preds.remove(p)
                    changed = True
        return changed

    def gheap(self, oid):
        v = self.st.heap[oid].val
        for key, sl in self.slots.items():
            if key[0] == "heap" and key[1] == oid:
                v = setp(self.E.mat(self.st, v) if key[2] else v, key[2], self.gvals[key])
        return v

    def diff_heap(self, oid, path, v0, v1, st, ty):
        E = self.E
        key = ("heap", oid, path)
        if key in self.slots:
            return False          # handled by update
        if same(v0, v1):
            return False
        if isinstance(v0, Opq) and isinstance(v1, StructV):
            v0 = E.mat(self.st, v0)
        if isinstance(v0, StructV) and isinstance(v1, StructV):
            ch = False
            ts = [f[1] for f in E.P.fields(ty)] if ty is not None and E.P.kind(ty) == "struct" else [None] * len(v0.vals)
            for i, (a, b) in enumerate(zip(v0.vals, v1.vals)):
                ch |= self.diff_heap(oid, path + (i,), a, b, st, ts[i])
            return ch
        sl = Slot(key, v0, ty)
        self.slots[key] = sl
        self.gvals[key] = v0
        self.update(sl, [(v1, st)], 1 << 60)
        return True

    def sk(self, t, nf0):
        """skolemise body-local symbols as functions of K"""
        E = self.E
        if not isinstance(t, z3.ExprRef):
            if t is None or isinstance(t, (int, bool, str)):
                return t
            return vmap(t, lambda x: self.sk(x, nf0))
        sub = []
        for c in free_consts(t):
            n = c.decl().name()
            i = n.rfind("!")
            if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > nf0 and not c.eq(self.K):
                sub.append((c, E.uf(n + "@", (self.K,), c.sort())))
        return z3.substitute(t, *sub) if sub else t

    def update(self, sl, vals, nf0):
        """compare the value at the back edge with the guess; refine the guess.  True if changed"""
        E, D, K = self.E, self.E.D, self.K
        if not vals:
            return False
        g = self.gvals[sl.key]
        f = sl.form
        if f == "const":
            if all(same(v, g) or self.eqv(st, v, g, sl) for v, st in vals):
                return False
            return self.promote(sl, vals, nf0)
        if f == "affine":
            nxt = self.affine_at(sl, D.add(K, 1))
            if all(self.eqv(st, v, nxt, sl) for v, st in vals):
                return False
            return self.promote(sl, vals, nf0)
        if f == "probe":
            return self.promote(sl, vals, nf0)
        if f == "iter":
            nxt = self.iter_at(sl, D.add(K, 1))
            if all(self.eqv(st, v, nxt, sl) for v, st in vals):
                return False
            sl.form, sl.arg = "havoc", self.hv(sl)
            return True
        if f == "havoc":
            return False
        if f == "cand":
            if all(self.eqv(st, v, sl.arg[0](D.add(K, 1), sl.ty), sl) for v, st in vals):
                return False
            sl.arg = sl.arg[1:]
            if not sl.arg:
                sl.form, sl.nocand = "const", True
                return self.promote(sl, vals, nf0)
            return True
        if f in ("append", "prepend", "sappend", "sprepend"):
            return self.upd_append(sl, vals, nf0)
        if f in ("reslice", "view"):
            for v, st in vals:
                d = self.reslice_delta(st, g, v)
                if d is None or not E.proves(st, D.eq(d, sl.arg)):
                    if self.offer(sl):
                        return True
                    self.unsupported("irregular reslicing")
            return False
        self.unsupported("update " + f)

    def eqv(self, st, a, b, sl):
        if same(a, b):
            return True
        if is_int(a) and is_int(b):
            return self.E.proves(st, self.E.D.cmp("==", a, b, sl.ty if sl.ty is not None and sl.ty.width else self.E.P.INT))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return self.E.proves(st, norm_bool(zb(a) == zb(b)))
        if isinstance(a, Rope) and isinstance(b, Rope):
            return rope_same(self.E, st, a, b)
        if isinstance(a, SliceV) and isinstance(b, Rope):
            s = st.fork()
            return all(rope_same(self.E, s1, c, b) for s1, c in self.E.content(s, a))
        if hasattr(a, "eqv"):
            return self.E.proves(st, a.eqv(self.E, b))
        if isinstance(a, SliceV) and isinstance(b, SliceV) and same(a.loc, b.loc):
            D = self.E.D
            return self.E.proves(st, band(D.eq(a.off, b.off), D.eq(a.ln, b.ln), D.eq(a.cap, b.cap)))
        return False

    def offer(self, sl):
        """try the contract's candidates for an irregular slot"""
        if self.cand is None or getattr(sl, "nocand", False):
            return False
        v = sl.init
        kind = "bool" if isinstance(v, (bool, z3.BoolRef)) else "int" if is_int(v) else "rope" if isinstance(v, Rope) else "big" if hasattr(v, "vmap") else "slice" if isinstance(v, SliceV) else None
        s0 = self.st.fork()
        self.cand.enter(s0)
        cs = [c for c in self.cand.values(kind, sl) if self.eqv(s0, v, c(0, sl.ty), sl)]
        if not cs:
            return False
        sl.form, sl.arg = "cand", cs
        return True

    def hv(self, sl):
        E = self.E
        v = sl.init
        if is_int(v):
            ty = sl.ty if sl.ty is not None and sl.ty.width else E.P.INT
            x = E.uf(E.fresh_name("hv"), (self.K,), E.D.sort(ty))
            if E.D.name == "int":
                lo, hi = E.D.lim(ty)
                E.D.facts += [x >= lo, x <= hi]
                E.D.setr(x, lo, hi)
            return x
        if isinstance(v, (bool, z3.BoolRef)):
            return E.uf(E.fresh_name("hv"), (self.K,), z3.BoolSort())
        if hasattr(v, "hv"):
            return v.hv(E, self.K)
        if isinstance(v, Rope) and sl.ty is not None and E.P.kind(sl.ty) == "array":        # scratch array: any elements
            n, et = E.rlen(v), E.P.elem(sl.ty)
            if isinstance(n, int) and n <= 64 and E.P.kind(et) == "int":
                return Rope((Lit([E.uf(E.fresh_name("hv"), (self.K,), E.D.sort(et)) for _ in range(n)]),))
        if E.hooks.get("optr") and sl.ty is not None and E.P.kind(sl.ty) not in ("ptr", "slice"):        # any value of its type
            return E.opq(self.st, sl.ty, E.fresh_name("hv"), (self.K,))
        self.unsupported("value %r changes irregularly" % (v,))

    def promote(self, sl, vals, nf0):
        """find a recurrence for a slot that changes"""
        E, D, K = self.E, self.E.D, self.K
        g = self.gvals[sl.key]
        v0, st0 = vals[0]
        if is_int(g):
            ty = sl.ty if sl.ty is not None and sl.ty.width else E.P.INT
            ds = [D.binop("-", v, g, ty) if D.name == "bv" else D.fold(D.sz(v) - D.sz(g)) for v, st in vals]
            if self.cand is not None and self.cand.first and sl.form == "const" and not all(isinstance(d, int) for d in ds) and self.offer(sl):
                return True
            if sl.form in ("const", "probe") and all(not self.varies(d) for d in ds) and all(self.eqv(vals[0][1], ds[0], d, sl) for d in ds[1:]):
                sl.form, sl.arg = "affine", ds[0]
                return True
            if sl.form in ("const", "affine"):
                sl.form, sl.arg = "probe", D.fresh(E.fresh_name("probe"), ty)
                return True
            # value as a function of the probe alone
            if len(vals) == 1 or all(same(v, v0) for v, _ in vals[1:]):
                F = v0
                if not isinstance(F, int):
                    cs = free_consts(F)
                    own = sl.arg
                    if all(c.eq(own) or not self.varies(c) and not self.local(c, nf0) for c in cs):
                        sl.form, sl.arg = "iter", (own, F)
                        return True
            if self.offer(sl):
                return True
            sl.form, sl.arg = "havoc", self.hv(sl)
            return True
        if isinstance(g, (bool, z3.BoolRef)):
            if self.offer(sl):
                return True
            sl.form, sl.arg = "havoc", self.hv(sl)
            return True
        if isinstance(g, Rope):
            if len(g.segs) == 1 and isinstance(g.segs[0], View) and isinstance(v0, Rope) and len(v0.segs) <= 1:
                d = self.view_delta(st0, g, v0)
                if d is not None and not self.varies(d):
                    sl.form, sl.arg, sl.arg2 = "view", d, g.segs[0]
                    return True
            # append or prepend
            if self.cand is not None and len(vals) > 1 and self.offer(sl):
                return True
            for form in ("append", "prepend"):
                pieces = [self.strip(st, g, v, form) for v, st in vals]
                if all(p is not None for p in pieces):
                    sl.form = form
                    sl.arg = Generator(self.K)
                    return True
            if self.offer(sl):
                return True
            if self.exact and self.cand.scratch and not getattr(sl, "nocand", False):
                sl.form, sl.arg = "havoc", self.hv(sl)
                return True
            self.unsupported("sequence changes irregularly: %r -> %r" % (g, v0))
        if isinstance(g, SliceV):
            if self.cand is not None and self.cand.first and sl.form == "const" and self.offer(sl):
                return True
            if isinstance(v0, SliceV):
                if g.loc is not None and same(g.loc, v0.loc):
                    d = self.reslice_delta(st0, g, v0)
                    if d is not None and not self.varies(d):
                        sl.form, sl.arg = "reslice", d
                        return True
                rs = E.content(self.st.fork(), sl.init)
                if len(rs) == 1:
                    base = rs[0][1]
                    for form in ("append", "prepend"):
                        ok = True
                        for v, st in vals:
                            cs = E.content(st.fork(), v)
                            if len(cs) != 1 or self.strip(st, base, cs[0][1], form) is None:
                                ok = False
                        if ok and len(vals) > 1 and self.offer(sl):
                            return True
                        if ok:
                            sl.form, sl.arg, sl.arg2 = "s" + form, Generator(self.K), base
                            return True
            if self.offer(sl):
                return True
            self.unsupported("slice changes irregularly: %r -> %r" % (g, v0))
        if self.offer(sl):
            return True
        sl.form, sl.arg = "havoc", self.hv(sl)
        return True

    def local(self, c, nf0):
        n = c.decl().name()
        i = n.rfind("!")
        return i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > nf0

    def varies(self, d):
        """does a term depend on the iteration?"""
        if isinstance(d, int):
            return False
        for c in free_consts(d):
            if c.eq(self.K):
                return True
            n = c.decl().name()
            if n.startswith("probe!"):
                return True
            i = n.rfind("!")
        return False

    def strip(self, st, g, v, form):
        """v = g ++ piece (or piece ++ g)"""
        E = self.E
        if not isinstance(v, Rope):
            return None
        gs, vs = list(g.segs), list(v.segs)
        if form == "append":
            i = 0
            while i < len(gs):
                if i >= len(vs):
                    return None
                a, b = gs[i], vs[i]
                if same(a, b):
                    i += 1
                    continue
                if i == len(gs) - 1 and isinstance(a, Lit) and isinstance(b, Lit) and len(b.v) >= len(a.v) and same(b.v[:len(a.v)], a.v):
                    rest = b.v[len(a.v):]
                    return Rope(([Lit(rest)] if rest else []) + vs[i + 1:])
                if i == len(gs) - 1 and isinstance(a, View) and isinstance(b, View) and same(a.src.key(), b.src.key()) and same(a.off, b.off):
                    n = E.D.sub(b.n, a.n)
                    return E.cat(Rope([View(a.src, E.D.add(a.off, a.n), n)] + vs[i + 1:]))
                return None
            return Rope(vs[i:])
        i = 0
        while i < len(gs):
            if i >= len(vs):
                return None
            a, b = gs[-1 - i], vs[-1 - i]
            if same(a, b):
                i += 1
                continue
            if i == len(gs) - 1 and isinstance(a, Lit) and isinstance(b, Lit) and len(b.v) >= len(a.v) and same(b.v[len(b.v) - len(a.v):], a.v):
                rest = b.v[:len(b.v) - len(a.v)]
                return Rope(vs[:len(vs) - 1 - i] + ([Lit(rest)] if rest else []))
            if i == len(gs) - 1 and isinstance(a, View) and isinstance(b, View) and same(a.src.key(), b.src.key()) and a.src.kind == "const":
                n = E.D.sub(b.n, a.n)
                return Rope(vs[:len(vs) - 1 - i] + [View(a.src, 0, n)])
            return None
        return Rope(vs[:len(vs) - len(gs)])

    def upd_append(self, sl, vals, nf0):
        E, D, K = self.E, self.E.D, self.K
        g = self.gvals[sl.key]
        form = sl.form
        cases = []
        for v, st in vals:
            if form in ("sappend", "sprepend"):
                s2 = st.fork()
                cs = E.content(s2, v)
                if len(cs) != 1:
                    self.unsupported("content forks")
                piece = self.strip(st, self.gcontent(sl), cs[0][1], form[1:])
                if piece is None and form == "sappend" and self.E.hooks.get("optr") and not getattr(sl, "flipped", False):
                    # an empty start fits both directions
                    sl.form, sl.arg, sl.flipped = "sprepend", Generator(self.K), True
                    return True
            else:
                piece = self.strip(st, g, v, form)
            if piece is None:
                self.unsupported("sequence not built by appending: %r -> %r" % (g, v))
            guard = self.sk(band(*st.pc[self.base_pc:]), nf0)
            cases.append((guard, self.sk(self.freeze(st, piece), nf0)))
        if len(cases) == 1 or all(same(c[1], cases[0][1]) for c in cases[1:]):
            cases = [(True, cases[0][1])]
        elif form in ("append", "sappend") and self.offer(sl):
            return True
        old = sl.arg
        if old.cases is not None and len(old.cases) == len(cases) and all(self.samecase(a, b, old.var) for a, b in zip(old.cases, cases)):
            return False
        sl.arg = Generator(self.K, cases)
        n = getattr(sl, "rounds", 0) + 1
        sl.rounds = n
        if n > 8:
            self.unsupported("appended elements do not stabilise")
        return True

    def gcontent(self, sl):
        return self.E.content(self.gst, self.gvals[sl.key])[0][1]

    def samecase(self, a, b, var):
        return canon(a[1]) == canon(b[1]) and canon(a[0]) == canon(b[0])

    def freeze(self, st, v):
        """slices held by an element, as their contents"""
        if isinstance(v, SliceV):
            rs = self.E.content(st.fork(), v)
            if len(rs) != 1:
                self.unsupported("content forks")
            return self.freeze(st, rs[0][1])
        if self.E.hooks.get("optr") and type(v) is PtrV and not v.path and v.oid not in self.st.heap and st.heap[v.oid].kind == "cell":
            from .optr import BoxV           # made in this iteration; later writes through it are unsupported
            o = st.heap[v.oid]
            return BoxV(self.freeze(st, self.E.mat(st, o.val)), o.ty)
        if isinstance(v, StructV):
            return StructV([self.freeze(st, x) for x in v.vals])
        if isinstance(v, Rope):
            return Rope([Lit([self.freeze(st, x) for x in g.v]) if isinstance(g, Lit) else g for g in v.segs])
        return v

    def view_delta(self, st, g, v):
        E, D = self.E, self.E.D
        a = g.segs[0]
        if not v.segs:
            return a.n if self.eqv(st, a.n, a.n, Slot(None, 0, None)) else None
        b = v.segs[0]
        if not isinstance(b, View) or not same(a.src.key(), b.src.key()):
            return None
        d = D.sub(b.off, a.off)
        if E.proves(st, D.eq(D.add(b.n, d), a.n)):
            return d
        return None

    def reslice_delta(self, st, g, v):
        E, D = self.E, self.E.D
        if isinstance(g, Rope):
            return self.view_delta(st, g, v)
        if not isinstance(v, SliceV) or not same(g.loc, v.loc):
            return None
        d = D.sub(v.off, g.off)
        if E.proves(st, band(D.eq(D.add(v.ln, d), g.ln), D.eq(D.add(v.cap, d), g.cap))):
            return d
        return None


def rope_same(E, st, a, b):
    """proves that two sequences are equal"""
    from .spec import Goals
    G = Goals(E)
    try:
        G.rope_eq(st, a, b, "")
    except Unsupported:
        return False
    for s, g, _ in G.items:
        if g is True:
            continue
        if isb(g) or not E.proves(s, g):
            if isb(g) and E.pr.check(s, True) == z3.unsat:
                continue
            return False
    return True


class Cand:
    """candidate invariants: values of irregular slots as functions of the iteration, and predicates"""

    def __init__(self, enter=None, preds=(), scratch=False, first=False, **values):
        self._enter, self.preds, self._v = enter, list(preds), values
        self.first = first          # try candidates before guessing how integers evolve
        self.scratch = scratch      # arrays that no candidate describes may hold anything between iterations

    def enter(self, st):
        if self._enter:
            self._enter(st)

    def values(self, kind, sl):
        return self._v.get(kind, ())


def canon(v):
    """text of a value with body-local symbol numbers removed"""
    import re
    return re.sub(r"![0-9]+", "!", repr(v))


def has_var(v, var):
    found = []

    def f(t):
        if any(c.eq(var) for c in free_consts(t)):
            found.append(1)
        return t
    vmap(v, f)
    return bool(found)
