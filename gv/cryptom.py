"""Trusted models of hash functions (as functions of the absorbed bytes) and their specification vocabulary."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *
from . import models
from .models import model, err

HASHES = {"sha256": 32, "sha512": 64, "ripemd160": 20, "sha1": 20, "sha224": 28}


def digest(name, r):
    """the hash of a byte sequence"""
    return Rope((View(AppSrc(name, (r,)), 0, HASHES[name]),))


def new_hash(E, st, name):
    return IfaceV("hash", PtrV(E.new(st, "cell", None, StructV((name, Rope())))))


@model("crypto/sha256.New", "crypto/sha512.New", "crypto/sha1.New", "crypto/sha256.New224",
       desc="an object holding the bytes written so far; Sum appends the hash of them")
def _new(E, fr, ins, st, args):
    n = ins["fn"]["n"]
    return [(st, (new_hash(E, st, "sha224" if n.endswith("New224") else n.split("/")[1].split(".")[0]),))]


@model("github.com/greymass/go-eosio/pkg/ripemd160.New", desc="(code of this repository, assumed here and decided by C18) an object holding the bytes written so far; Sum appends their RIPEMD-160")
def _newr(E, fr, ins, st, args):
    return [(st, (new_hash(E, st, "ripemd160"),))]


@model("crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha1.Sum", "crypto/sha256.Sum224", desc="the hash of the bytes")
def _sum(E, fr, ins, st, args):
    n = ins["fn"]["n"]
    h = {"Sum256": "sha256", "Sum512": "sha512", "Sum": "sha1", "Sum224": "sha224"}[n.split(".")[1]]
    return [(s, (digest(h, r),)) for s, r in E.content(st, args[0])]


def invoke(E, fr, ins, st, recv, meth, args):
    out = []
    name, r = E.load(st, recv.val)[0][1].vals
    E.models_used.add("hash.Hash.%s" % meth)
    if meth == "Write":
        for s, p in E.content(st, args[0]):
            for s2 in E.store(s, recv.val, StructV((name, E.cat(r, p)))):
                out.append((s2, (E.rlen(p), NIL)))
        return out
    if meth == "Sum":
        return [(s, (v,)) for s, v in E.append(fr, ins, st, args[0], digest(name, r))]
    if meth == "Reset":
        return [(s, ()) for s in E.store(st, recv.val, StructV((name, Rope())))]
    if meth == "Size":
        return [(st, (HASHES[name],))]
    if meth == "BlockSize":
        return [(st, (128 if name == "sha512" else 64,))]
    raise Unsupported("hash method " + meth)


for _m in ("Write", "Sum", "Reset", "Size", "BlockSize"):
    models.DESC["hash.Hash." + _m] = "the hash object as the bytes written so far"
models.ABSTRACT["hash"] = invoke
models.IMPLS["hash"] = ("hash.Hash", "io.Writer")
