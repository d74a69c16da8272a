"""Equality of large bit-vector terms by sweeping: nodes that agree on random inputs are proved equal bottom-up, each by a
small z3 query over already matched nodes; only z3's answers are relied on."""
import random, z3


def kids(t):
    return t.children()


def isleaf(t):
    if not z3.is_app(t):
        return True
    k = t.decl().kind()
    return t.num_args() == 0 or k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)


def topo(roots):
    out, seen = [], set()
    for r in roots:
        st = [(r, False)]
        while st:
            t, done = st.pop()
            i = t.get_id()
            if done:
                out.append(t)
                continue
            if i in seen:
                continue
            seen.add(i)
            st.append((t, True))
            if not isleaf(t):
                st += [(c, False) for c in t.children()]
    # order: children first
    return out


def inputs(t):
    """identities of the symbolic inputs of a term"""
    from .engine import canon_selects
    return {x.sexpr() for x in topo([canon_selects(t)]) if isleaf(x) and not z3.is_bv_value(x)}


def evaluate(t, cs):
    """value of an operator node on child values (python integers)"""
    k = t.decl().kind()
    if z3.is_bool(t):
        if k == z3.Z3_OP_EQ:
            return cs[0] == cs[1]
        if k == z3.Z3_OP_NOT:
            return not cs[0]
        if k == z3.Z3_OP_AND:
            return all(cs)
        if k == z3.Z3_OP_OR:
            return any(cs)
        if k == z3.Z3_OP_ULEQ:
            return cs[0] <= cs[1]
        if k == z3.Z3_OP_ULT:
            return cs[0] < cs[1]
        if k == z3.Z3_OP_UGEQ:
            return cs[0] >= cs[1]
        if k == z3.Z3_OP_UGT:
            return cs[0] > cs[1]
        return None
    if not z3.is_bv(t):
        return None
    w = t.size()
    m = (1 << w) - 1
    if k == z3.Z3_OP_BADD:
        return sum(cs) & m
    if k == z3.Z3_OP_BSUB:
        return (cs[0] - sum(cs[1:])) & m
    if k == z3.Z3_OP_BMUL:
        r = 1
        for c in cs:
            r = r * c & m
        return r
    if k == z3.Z3_OP_BNEG:
        return -cs[0] & m
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        r = cs[0]
        for c in cs[1:]:
            r = r & c if k == z3.Z3_OP_BAND else r | c if k == z3.Z3_OP_BOR else r ^ c
        return r
    if k == z3.Z3_OP_BNOT:
        return ~cs[0] & m
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c, x in zip(cs, t.children()):
            r = r << x.size() | c
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        return cs[0] >> lo & m
    if k == z3.Z3_OP_ZERO_EXT:
        return cs[0]
    if k == z3.Z3_OP_SIGN_EXT:
        c = t.children()[0].size()
        return (cs[0] | (m ^ ((1 << c) - 1))) if cs[0] >> (c - 1) else cs[0]
    if k == z3.Z3_OP_BSHL:
        return cs[0] << cs[1] & m if cs[1] < w else 0
    if k == z3.Z3_OP_BLSHR:
        return cs[0] >> cs[1] if cs[1] < w else 0
    if k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT):
        n = t.params()[0] % w
        if k == z3.Z3_OP_ROTATE_RIGHT:
            n = -n % w
        return (cs[0] << n | cs[0] >> (w - n)) & m
    if k == z3.Z3_OP_EXT_ROTATE_LEFT:
        n = cs[1] % w
        return (cs[0] << n | cs[0] >> (w - n)) & m
    if k == z3.Z3_OP_ITE:
        return cs[1] if cs[0] else cs[2]
    return None


def equal(a, b, nsim=6, timeout=4000):
    """'proved' | 'refuted' | 'unknown' for a == b; also the number of solver queries"""
    order = topo([a, b])
    rnd = random.Random(7)
    sims = {}
    for t in order:
        i = t.get_id()
        if z3.is_bv_value(t):
            v = [t.as_long()] * nsim
        elif isleaf(t):
            if z3.is_bv(t):
                v = [rnd.getrandbits(t.size()) for _ in range(nsim)]
            elif z3.is_true(t) or z3.is_false(t):
                v = [z3.is_true(t)] * nsim
            else:
                v = None
        else:
            cs = [sims[c.get_id()] for c in t.children()]
            if any(c is None for c in cs):
                v = None
            else:
                v = [evaluate(t, [c[j] for c in cs]) for j in range(nsim)]
                if any(x is None for x in v):
                    v = None
        sims[i] = v
    va, vb = sims[a.get_id()], sims[b.get_id()]
    if va is None or vb is None:
        return "unknown", 0
    if va != vb:
        return "refuted", 0
    # cut points: values that occur on both sides
    sides = {}
    for k, r in ((1, a), (2, b)):
        for t in topo([r]):
            if sims[t.get_id()] is not None and z3.is_bv(t):
                key = (t.size(), tuple(sims[t.get_id()]))
                sides[key] = sides.get(key, 0) | k
    rep = {}            # node id -> term over representatives
    cls = {}            # (sort, signature) -> representative (rebuilt term)
    cut = {}            # id of a representative -> fresh constant
    keep = []
    nq = 0

    defn = {}           # cut constant id -> (constant, definition)

    def fresh(t):
        c = cut.get(t.get_id())
        if c is None:
            c = cut[t.get_id()] = z3.FreshConst(t.sort(), "cut")
            defn[c.get_id()] = (c, t)
            keep.append(t)
        return c

    def opened(ts, done, sv):
        new = []
        for t in ts:
            for x in topo([t]):
                if x.get_id() in defn and x.get_id() not in done:
                    done.add(x.get_id())
                    c, d = defn[x.get_id()]
                    sv.add(c == d)
                    new.append(d)
        return new
    for t in order:
        i = t.get_id()
        if isleaf(t):
            r = t
        else:
            ch = [rep[c.get_id()] for c in t.children()]
            r = t.decl()(*ch)
        # the node over cut points
        if z3.is_bv(t) and t.size() >= 8 and sims[i] is not None and not z3.is_bv_value(t):
            key = (t.size(), tuple(sims[i]))
            o = cls.get(key)
            if sides.get(key) != 3 or t.decl().kind() == z3.Z3_OP_BNOT:
                pass
            elif o is None:
                x = fresh(r) if not isleaf(t) else r
                cls[key] = (r, x)
                keep.append((r, x))
                r = x
            else:
                full, x = o
                if not full.eq(r):
                    ok = False
                    sv = z3.Solver()
                    sv.set("timeout", timeout)
                    sv.add(full != r)
                    todo, done = [full, r], set()
                    for lv in range(4):         # over the cut points; then with the definitions of some
                        nq += 1
                        if sv.check() == z3.unsat:
                            ok = True
                            break
                        todo = opened(todo, done, sv)
                    if not ok:
                        # not provable over these cut points: keep it apart
                        x = r
                r = x
        rep[i] = r
        keep.append(r)
    ra, rb = rep[a.get_id()], rep[b.get_id()]
    if ra.eq(rb):
        return "proved", nq
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(ra != rb)
    nq += 1
    r = s.check()
    return ("proved" if r == z3.unsat else "unknown"), nq
