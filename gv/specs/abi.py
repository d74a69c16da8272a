"""Contracts: pkg/abi primitives."""
from ..contract import *

A = lambda i: (lambda E, st, args: args[i])

for fn, c in (("WriteBool", "bool"), ("WriteByte", "u8"), ("WriteUint8", "u8"), ("WriteUint16", "u16"), ("WriteUint32", "u32"),
              ("WriteUint64", "u64"), ("WriteInt8", "i8"), ("WriteInt16", "i16"), ("WriteInt32", "i32"), ("WriteInt64", "i64"),
              ("WriteFloat32", "f32"), ("WriteFloat64", "f64"), ("WriteVaruint", "uvar"), ("WriteVarint", "svar"),
              ("WriteString", "bytes")):
    Contract("(*abi.Encoder)." + fn, writes=(0, c, A(1)), doc="writes exactly %s(v); a write error is returned" % c)

for fn, c in (("ReadBool", "bool"), ("ReadByte", "u8"), ("ReadUint8", "u8"), ("ReadUint16", "u16"), ("ReadUint32", "u32"),
              ("ReadUint64", "u64"), ("ReadInt8", "i8"), ("ReadInt16", "i16"), ("ReadInt32", "i32"), ("ReadInt64", "i64"),
              ("ReadFloat32", "f32"), ("ReadFloat64", "f64"), ("ReadVaruint", "uvar"), ("ReadVarint", "svar"),
              ("ReadString", "bytes")):
    Contract("(*abi.Decoder)." + fn, reads=(0, c, 0), doc="reads %s; error iff malformed or truncated" % c).eofexact = fn != "ReadString"

from ..spec import RawN
Contract("(*abi.Encoder).WriteBytes", writes=(0, lambda E, st, a: RawN(None), A(1)), doc="writes exactly those bytes")
Contract("(*abi.Decoder).ReadBytes", reads=(0, lambda E, st, a: RawN(a[1]), 1), extra=lambda E, st, a, alt: {0: a[1]},
         doc="exactly n bytes or an error; negative counts are errors; allocation bounded by the data available").eofexact = lambda E, a: E.D.lt(0, a[1])
