"""Values of package-level variables: the packages' own init functions are executed."""
from .ssa import Unsupported
from .val import *

FIXED = {"io.EOF": lambda: ErrV("EOF"), "io.ErrUnexpectedEOF": lambda: ErrV("UEOF"),
         "encoding/base64.StdEncoding": lambda: Opq("b64", "b64:std"), "encoding/base64.RawStdEncoding": lambda: Opq("b64", "b64:raw"),
         "encoding/base64.URLEncoding": lambda: Opq("b64", "b64:url"), "encoding/base64.RawURLEncoding": lambda: Opq("b64", "b64:rawurl")}


def compute(E):
    from .engine import State, Obj
    out = {n: f() for n, f in FIXED.items()}
    st = State()
    for n, g in E.P.globals.items():
        if n in out:
            st.heap[("glob", n)] = Obj("cell", None, out[n], True, "global")
            continue
        ty = E.P.T[g["t"]]
        et = E.P.T[ty._e] if ty.k == "ptr" else ty
        try:
            z = E.models.zero_named(E, et)
            st.heap[("glob", n)] = Obj("cell", et, z if z is not None else E.zero(et), True, "global")
        except Unsupported:
            pass
    E.globals_init = out
    saved = (E.panics, E.contracts, E.root, dict(E.models_used) if isinstance(E.models_used, dict) else set(E.models_used), set(E.inlined), E.sites, E.paths)
    E.contracts = {}
    E.allowed_global_store = True
    for name, fn in sorted(E.P.funcs.items()):
        if fn.short != "init" or not fn.blocks or not (fn.pkg.startswith("github.com/greymass/") or fn.pkg == "encoding/binary") or fn.pkg.endswith("codegen"):
            continue
        try:
            rs = run_init(E, fn, st.fork())
            if rs is not None:
                st = rs
        except Unsupported as e:
            E.init_problem = "%s: %s" % (name, e)
            E.globals_bad = getattr(E, "globals_bad", set()) | {g for g in E.P.globals if g.startswith(fn.pkg + ".")}
    E.allowed_global_store = False
    E.panics, E.contracts, E.root, E.models_used, E.inlined, E.sites, E.paths = saved
    bad = getattr(E, "globals_bad", set())
    E.globals_heap = {k: v for k, v in st.heap.items()}
    for k, o in st.heap.items():
        if isinstance(k, tuple) and k[0] == "glob" and k[1] not in bad:
            out[k[1]] = o.val
    return out


def run_init(E, fn, st):
    """straight-line execution of a package initialiser, calls of other initialisers skipped"""
    fn.analyse()
    env = {}
    from .engine import Frame
    fr = Frame(fn, 1)
    b, prev = 0, None
    blk = fn.blocks[0]
    n = 0
    while True:
        n += 1
        if n > 10000:
            raise Unsupported("init loops")
        blk = fn.blocks[b]
        env = E.phis(fr, b, prev, env, st)
        nxt = None
        for ins in blk["i"]:
            op = ins["op"]
            if op == "Phi":
                continue
            if op == "Jump":
                nxt = blk["succs"][0]
                break
            if op == "If":
                c = E.val(st, env, ins["x"])
                if not isinstance(c, bool):
                    raise Unsupported("symbolic init")
                nxt = blk["succs"][0 if c else 1]
                break
            if op == "Return":
                return st
            if op == "Call" and "fn" in ins and ins["fn"]["k"] == "func" and (ins["fn"]["n"].endswith(".init") or ins["fn"]["n"] == "crypto.RegisterHash"):
                continue
            rs = E.step(fr, ins, env, st)
            if len(rs) != 1:
                raise Unsupported("init forks")
            st, v = rs[0]
            if "d" in ins:
                env = dict(env)
                env[ins["d"]] = v
        prev, b = b, nxt
