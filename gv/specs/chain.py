"""Contracts: binary wire formats of pkg/chain."""
from ..contract import *
from ..spec import *

A = lambda i: (lambda E, st, args: args[i])
CH = MOD + "chain."


def deref(i):
    return lambda E, st, args: E.load(st, args[i])[0][1]


class Key(Codec):
    """type byte then raw data; decoding fixes the data length by type (33/65 bytes, or web-authn)"""

    def __init__(self, name, plain, wa, nvar):
        super().__init__(name)
        self.plain, self.wa, self.nvar = plain, wa, nvar

    def unfold(self, E, st, v):
        v = E.mat(st, v)
        return [(s, E.cat(lit([v.vals[0]]), r)) for s, r in seq_of(E, st, v.vals[1])]

    def parse(self, E, st, p, deep=False):
        D = E.D
        t = D.select(IN(st), p)
        q = D.add(p, 1)
        have = D.le(q, NN(st))
        T = D.byte(t)
        raw = lambda o, n: Rope((View(ArrSrc(IN(st)), o, n),))
        alts = []
        e = D.add(q, self.plain)
        alts.append(Alt(norm_bool(zb(D.lt(T, 2)) if D.name == "int" else z3.ULT(T, z3.BitVecVal(2, 8))), conj(have, D.le(e, NN(st))), StructV((t, raw(q, self.plain))), e))
        e = D.add(q, self.wa)
        ok = [have, D.le(e, NN(st))]
        val = raw(q, self.wa)
        for i in range(self.nvar):
            a = CODECS["uvar"].parse(E, st, e)[0]
            ok += a.ok
            room = D.sub(NN(st), a.next)
            ok.append(uleq(E, a.val, room))
            val = E.cat(val, CODECS["uvar"].node(E, st, a.val), raw(a.next, a.val))
            e = D.add(a.next, a.val)
        alts.append(Alt(norm_bool(T == 2), conj(*ok), StructV((t, val)), e))
        alts.append(Alt(norm_bool(zb(D.lt(2, T)) if D.name == "int" else z3.UGT(T, z3.BitVecVal(2, 8))), conj(False), StructV((t, Rope())), p))
        return alts


for n, c in (("Name", "u64"), ("Symbol", "u64"), ("SymbolCode", "u64"), ("Uint64", "u64"), ("BlockNum", "u32"), ("TimePoint", "i64"),
             ("TimePointSec", "u32"), ("BlockTimestamp", "u32")):
    Contract("(chain.%s).MarshalABI" % n, writes=(1, c, A(0)))
    Contract("(*chain.%s).UnmarshalABI" % n, reads=(1, c, "*0"))
Struct("u128", [("0", "u64"), ("1", "u64")])
Struct("f128", [("0", "fixed16")])
for n, c in (("Uint128", "u128"), ("Int128", "u128"), ("Float128", "f128"), ("Bytes", "bytes"), ("Blob", "bytes")):
    Contract("(chain.%s).MarshalABI" % n, writes=(1, c, A(0)))
    Contract("(*chain.%s).UnmarshalABI" % n, reads=(1, c, "*0"))
for n in (160, 256, 512):
    Contract("(*chain.Checksum%d).MarshalABI" % n, writes=(1, "fixed%d" % (n // 8), deref(0)))
    Contract("(*chain.Checksum%d).UnmarshalABI" % n, reads=(1, "fixed%d" % (n // 8), "*0"))
Struct("asset", [("0", "i64"), ("1", "u64")])
Struct("extasset", [("0.0", "i64"), ("0.1", "u64"), ("1", "u64")])
for n, c in (("Asset", "asset"), ("ExtendedAsset", "extasset")):
    Contract("(*chain.%s).MarshalABI" % n, writes=(1, c, deref(0)))
    Contract("(*chain.%s).UnmarshalABI" % n, reads=(1, c, "*0"))
Key("pubkey", 33, 34, 1)
Key("sig", 65, 65, 2)
for n, c in (("PublicKey", "pubkey"), ("Signature", "sig")):
    Contract("(chain.%s).MarshalABI" % n, writes=(1, c, A(0)))
    Contract("(*chain.%s).UnmarshalABI" % n, reads=(1, c, "*0"))

Struct("permlevel", [("0", "u64"), ("1", "u64")])
Vec("vec_permlevel", "permlevel")
Struct("action", [("0", "u64"), ("1", "u64"), ("2", "vec_permlevel"), ("3", "bytes")], opaque=True).goty = CH + "Action"
Struct("txheader", [("0", "u32"), ("1", "u16"), ("2", "u32"), ("3", "uvar"), ("4", "u8"), ("5", "uvar")])
Struct("txext", [("0", "u16"), ("1", "bytes")])
Vec("vec_action", "action")
Vec("vec_txext", "txext")
Struct("transaction", [("0.0", "u32"), ("0.1", "u16"), ("0.2", "u32"), ("0.3", "uvar"), ("0.4", "u8"), ("0.5", "uvar"),
                       ("1", "vec_action"), ("2", "vec_action"), ("3", "vec_txext")])
for n, c in (("PermissionLevel", "permlevel"), ("Action", "action"), ("TransactionHeader", "txheader"), ("TransactionExtension", "txext"),
             ("Transaction", "transaction")):
    Contract("(chain.%s).MarshalABI" % n, writes=(1, c, A(0)), mode="int")
    Contract("(*chain.%s).UnmarshalABI" % n, reads=(1, c, "*0"), mode="int")
