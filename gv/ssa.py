"""Loads the SSA dump of /repo and answers questions about types, CFGs and loops."""
import json, subprocess, os, sys

INLINE_STD = ["encoding/binary", "internal/byteorder", "math/bits", "unicode/utf8"]


class Unsupported(Exception):
    """The verifier cannot handle a construct: a tool limit, never a verdict."""


class Ty:
    __slots__ = ("id", "k", "s", "name", "_u", "_e", "n", "fields", "key", "_t", "methods", "tup", "width", "signed")

    def __init__(self, i, j):
        self.id = i
        self.k = j["k"]
        self.s = j["s"]
        self.name = j.get("name")
        self._u = j.get("u")
        self._e = j.get("e")
        self.n = j.get("n")
        self.fields = j.get("f") if self.k == "struct" else None
        self.tup = j.get("f") if self.k == "tuple" else None
        self.key = j.get("key")
        self.methods = j.get("m")
        self.width = 0
        self.signed = False

    def __repr__(self):
        return "Ty(%s)" % self.s


WIDTHS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
          "uint": (64, False), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False),
          "uintptr": (64, False), "byte": (8, False), "rune": (32, True),
          "untyped int": (64, True), "untyped rune": (32, True)}


class Func:
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.name = j["name"]
        self.pkg = j["pkg"]
        self.short = j["short"]
        self.params = [(p["n"], prog.T[p["t"]]) for p in j["params"]]
        self.freevars = [(p["n"], prog.T[p["t"]]) for p in j["freevars"]]
        self.results = [(p["n"], prog.T[p["t"]]) for p in j["results"]]
        self.blocks = j["blocks"]
        self.file = j.get("file")
        self.line = j.get("line")
        self._an = False

    def analyse(self):
        if self._an:
            return
        self._an = True
        nb = len(self.blocks)
        succ = [b["succs"] for b in self.blocks]
        pred = [b["preds"] for b in self.blocks]
        self.succ, self.pred = succ, pred
        # dominators
        full = set(range(nb))
        dom = [full.copy() for _ in range(nb)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, nb):
                ps = [dom[p] for p in pred[b]]
                d = set.intersection(*ps) if ps else set()
                d = d | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.dom = dom
        # post-dominators with virtual exit nb
        exits = [b for b in range(nb) if not succ[b]]
        fullp = set(range(nb + 1))
        pd = [fullp.copy() for _ in range(nb + 1)]
        pd[nb] = {nb}
        ch = True
        while ch:
            ch = False
            for b in reversed(range(nb)):
                ss = succ[b] if succ[b] else [nb]
                # a block that panics does not constrain post-dominance
                ss2 = [s for s in ss if s == nb or not self.panics(s)] or ss
                d = set.intersection(*[pd[s] for s in ss2]) | {b}
                if d != pd[b]:
                    pd[b] = d
                    ch = True
        self.ipdom = [None] * nb
        for b in range(nb):
            c = pd[b] - {b}
            for x in c:
                if all(x == y or y in pd[x] for y in c):
                    self.ipdom[b] = x
        # natural loops
        self.loops = {}
        for b in range(nb):
            for s in succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        # liveness of registers at block entry
        use = [set() for _ in range(nb)]
        de = [set() for _ in range(nb)]
        phiuse = {}
        for bi, b in enumerate(self.blocks):
            for ins in b["i"]:
                if ins["op"] == "Phi":
                    for pi, a in enumerate(ins["args"]):
                        if a and a["k"] == "reg":
                            phiuse.setdefault(pred[bi][pi], set()).add(a["n"])
                    de[bi].add(ins["d"])
                    continue
                for v in operands(ins):
                    if v["k"] == "reg" and v["n"] not in de[bi]:
                        use[bi].add(v["n"])
                if "d" in ins:
                    de[bi].add(ins["d"])
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(nb)):
                o = set(phiuse.get(b, ()))
                for s in succ[b]:
                    o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def panics(self, b):
        i = self.blocks[b]["i"]
        return bool(i) and i[-1]["op"] == "Panic"


def operands(ins):
    r = []
    for k in ("x", "y", "fn", "lo", "hi", "max", "m"):
        v = ins.get(k)
        if isinstance(v, dict):
            r.append(v)
    for v in ins.get("args") or []:
        if isinstance(v, dict):
            r.append(v)
    return r


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = [Ty(i, j) for i, j in enumerate(d["types"])]
        self.byname = {t.s: t for t in self.T}
        self.funcs = {}
        for n, j in d["funcs"].items():
            self.funcs[n] = Func(self, j)
        self.methods = d["methods"]
        self.globals = d["globals"]
        self.consts = d["consts"]
        for t in self.T:
            u = self.under(t)
            if u.k == "basic" and u.name in WIDTHS:
                t.width, t.signed = WIDTHS[u.name]
        g = self.byname.get
        self.INT = g("int")
        self.STRING = g("string")
        self.UINT = g("uint")
        self.BYTE = g("byte") or g("uint8")
        self.U8 = g("uint8") or self.BYTE
        self.STR = g("string")
        self.BOOL = g("bool")
        self.U64 = g("uint64")

    def under(self, t):
        n = 0
        while t.k in ("named", "alias"):
            t = self.T[t._u]
        return t

    def elem(self, t):
        return self.T[self.under(t)._e]

    def field(self, t, i):
        return self.T[self.under(t).fields[i]["t"]]

    def fields(self, t):
        return [(f["n"], self.T[f["t"]], f["tag"]) for f in (self.under(t).fields or [])]

    def kind(self, t):
        """coarse kind: int bool string float slice ptr struct array iface map func tuple other"""
        u = self.under(t)
        if u.k == "basic":
            if u.name in WIDTHS:
                return "int"
            if u.name in ("bool", "untyped bool"):
                return "bool"
            if u.name in ("string", "untyped string"):
                return "string"
            if u.name in ("float64", "float32", "untyped float"):
                return "float"
            if u.name == "untyped nil":
                return "nil"
            return "other"
        return u.k

    def constants(self):
        """integer and string constants of the repository's own functions"""
        ints, strs = set(), set()
        for f in self.funcs.values():
            if not f.pkg.startswith("github.com/greymass/") or f.pkg.endswith("codegen"):
                continue
            if f.short == "init":
                continue
            for b in f.blocks:
                for ins in b["i"]:
                    for v in operands(ins):
                        if v["k"] == "const":
                            if "int" in v:
                                ints.add(int(v["int"]))
                            elif "str" in v and len(v["str"]) <= 64:
                                strs.add(bytes(v["str"]))
        return sorted(ints), sorted(strs)


def dump(repo="/repo", out=None, verif="/verif"):
    """(re)build gossa when missing and dump the SSA of repo's working tree"""
    gobin = os.path.join(verif, "bin", "gossa")
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
    env.setdefault("HOME", "/root")
    env.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
    if not os.path.exists(gobin):
        os.makedirs(os.path.dirname(gobin), exist_ok=True)
        subprocess.run(["go", "build", "-o", gobin, "."], cwd=os.path.join(verif, "gossa"), env=env, check=True)
    r = subprocess.run([gobin, repo, out, ",".join(INLINE_STD)], env=env, capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        raise RuntimeError("gossa failed: " + r.stderr[-2000:])
    return out
