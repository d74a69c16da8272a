"""Contracts: plain constructors; the new value holds exactly what was given (callers see the body)."""
from ..contract import *
from ..spec import *
from .names import seq_in

for _n in ("PublicKey", "Signature"):
    Contract("chain.New" + _n, spec=lambda E, st, a: [Out(st, (StructV((a[0], seq_in(E, st, a[1]))),))], noapply=True, doc="a value of the given type and data")
Contract("chain.NewAsset", spec=lambda E, st, a: [Out(st, (StructV((a[0], a[1])),))], mode="int", noapply=True, doc="the given amount and symbol")
Contract("chain.NewAction", spec=lambda E, st, a: [Out(st, (StructV((a[0], a[1], norm_seq(E, st, a[2]), seq_in(E, st, a[3]))),))], mode="int", noapply=True, doc="the given account, name, authorizations and data")
