"""Which contracts decide which property."""
PRIM = ["Bool", "Byte", "Uint8", "Uint16", "Uint32", "Uint64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64"]
SCALAR = ["Name", "Symbol", "SymbolCode", "Uint64", "BlockNum", "TimePoint", "TimePointSec", "BlockTimestamp", "Uint128", "Int128", "Float128"]
PTRM = ["Checksum160", "Checksum256", "Checksum512", "Asset", "ExtendedAsset"]
TX = ["PermissionLevel", "Action", "TransactionHeader", "TransactionExtension", "Transaction"]
KEY = ["PublicKey", "Signature"]


def enc(*ns):
    return ["(*abi.Encoder).Write" + n for n in ns]


def dec(*ns):
    return ["(*abi.Decoder).Read" + n for n in ns]


def mar(*ns):
    return [("(*chain.%s).MarshalABI" if n in PTRM else "(chain.%s).MarshalABI") % n for n in ns]


def unm(*ns):
    return ["(*chain.%s).UnmarshalABI" % n for n in ns]


ALLW = enc(*PRIM, "Varuint", "Varint", "String", "Bytes") + mar("Bytes", "Blob", *SCALAR, *PTRM, *TX, *KEY)
ALLR = dec(*PRIM, "Varuint", "Varint", "String", "Bytes") + unm("Bytes", "Blob", *SCALAR, *PTRM, *TX, *KEY)

PROPS = {
    "C01": dict(level="proof", contracts=enc(*PRIM) + dec(*PRIM)),
    "C02": dict(level="proof", contracts=enc("Varuint", "Varint") + dec("Varuint", "Varint")),
    "C03": dict(level="proof", contracts=enc("String", "Bytes") + dec("String", "Bytes") + mar("Bytes", "Blob") + unm("Bytes", "Blob")),
    "C04": dict(level="proof", contracts=mar(*SCALAR, *PTRM) + unm(*SCALAR, *PTRM)),
    "C05": dict(level="proof", contracts=mar(*TX) + unm(*TX) + ["chain.NewAction"]),
    "C06": dict(level="proof", contracts=mar(*KEY) + unm(*KEY) + ["chain.NewPublicKey", "chain.NewSignature"]),
    "C07": dict(level="proof", contracts=ALLR, filter=lambda f, n: "panic" in n or "malformed or truncated input is an error" in n or "allFields" in f and n.endswith(": nil")),
    "C08": dict(level="proof", contracts=ALLW, filter=lambda f, n: "write error" in n or "written" in n or "succeeds" in n),
}



def _lem(m, f):
    def g(P):
        import importlib
        return getattr(importlib.import_module("gv.specs." + m), f)(P)
    return g


def _names(f):
    return _lem("names", f)


def _each(fmt, *ns):
    return [fmt % n for n in ns]


PROPS.update({
    "C09": dict(level="proof", contracts=["(chain.Name).String", "(chain.Name).MarshalText", "chain.NewName", "chain.N", "(*chain.Name).UnmarshalText"], lemmas=[_names("lemmas")]),
    "C10": dict(level="proof", contracts=["chain.NewSymbol", "chain.NewSymbolFromString", "(*chain.Symbol).UnmarshalText", "(*chain.SymbolCode).UnmarshalText", "(chain.Symbol).Name",
                                          "(chain.Symbol).String", "(chain.Symbol).MarshalText", "(chain.SymbolCode).MarshalText", "(chain.Symbol).Code", "(chain.Symbol).Decimals",
                                          "(chain.Symbol).Precision"], lemmas=[_names("sym_lemmas")]),
    "C14": dict(level="proof", contracts=["(chain.%s).MarshalText" % t for t in ("Bytes", "Checksum160", "Checksum256", "Checksum512", "Float128", "Blob")]
                + ["(*chain.%s).UnmarshalText" % t for t in ("Bytes", "Checksum160", "Checksum256", "Checksum512", "Float128", "Blob")]
                + ["(chain.Bytes).Hex", "(chain.Checksum160).String", "(chain.Checksum256).String", "(chain.Checksum512).String", "(chain.Blob).Base64"]),
    "C20": dict(level="proof", contracts=["(chain.Uint64).MarshalJSON", "(*chain.Uint64).UnmarshalJSON", "(chain.BlockNum).MarshalJSON", "(*chain.BlockNum).UnmarshalJSON"]),
})

TIMES = ("TimePoint", "TimePointSec", "BlockTimestamp")
I128 = ("Uint128", "Int128")
PROPS.update({
    "C11": dict(level="proof", contracts=["(*chain.Asset).String", "(chain.Asset).MarshalText", "chain.NewAssetFromString", "(*chain.Asset).UnmarshalText", "chain.A", "chain.NewAsset"], lemmas=[_lem("asset", "lemmas")],
                assumes=["strconv.FormatInt and FormatUint give the decimal digits of the number; that reading those back, with any leading zeros, gives the number is checked as lemmas over the digits, and used as an axiom about the model"]),
    "C12": dict(level="proof", contracts=_each("chain.New%s", *I128) + _each("chain.New%sFromString", *I128) + _each("(*chain.%s).UnmarshalText", *I128)
                + _each("(chain.%s).MarshalText", *I128) + _each("(chain.%s).String", *I128) + _each("(chain.%s).BigInt", *I128)
                + _each("(chain.%s).Bytes@LE", *I128) + _each("(chain.%s).Bytes@BE", *I128), lemmas=[_lem("nums", "lemmas")]),
    "C13": dict(level="proof", contracts=_each("chain.New%s", *TIMES) + _each("chain.New%sFromString", *TIMES) + _each("(chain.%s).Time", *TIMES)
                + _each("(chain.%s).String", *TIMES) + _each("(chain.%s).MarshalText", *TIMES) + _each("(*chain.%s).UnmarshalText", *TIMES), lemmas=[_lem("times", "lemmas")],
                assumes=["time.Parse inverts Format at the layout's resolution for years 0 to 9999, and accepts only instants of those years"]),
    "C15": dict(level="proof", contracts=["base58.Encode", "base58.Decode"], lemmas=[_lem("b58", "lemmas")],
                assumes=["math/big: SetBytes gives the big-endian value of the bytes and Bytes is its inverse without leading zero bytes; big integers are unbounded",
                         "float64 arithmetic (only used for a capacity hint) is correctly rounded"]),
    "C16": dict(level="proof", contracts=_each("base58.%s", "CheckEncode", "CheckEncodeEosio", "CheckDecode", "CheckDecodeEosio")),
    "C17": dict(level="proof", contracts=["chain.NewPublicKeyFromString", "chain.NewSignatureString", "(*chain.PublicKey).LegacyString"]
                + _each("(*chain.%s).UnmarshalText", *KEY) + _each("(chain.%s).MarshalText", *KEY) + _each("(*chain.%s).String", *KEY), lemmas=[_lem("digest", "key_lemmas")]),
    "C18": dict(level="proof", contracts=["ripemd160._Block", "ripemd160.New"] + _each("(*ripemd160.digest).%s", "Write", "Sum", "Reset", "Size", "BlockSize"),
                assumes=["messages are shorter than 2^58 bytes", "the compression function the code is compared with is validated by the published test vectors at import"]),
    "C19": dict(level="proof", contracts=_each("chain.Checksum%sDigest", "160", "256", "512") + ["(chain.Action).Digest"]),
})

GENERIC = ["struct fields are exported; user-supplied encode and decode functions and codecs are deterministic and return write errors; values are not cyclic",
           "reflect behaves as documented (model in gv/reflm.py); variant fields are structs of pointers, as documented",
           "previous contents of a destination are not aliased within themselves"]
GDEC = ["(*abi.Decoder).Decode", "(*abi.Decoder).DecodeValue", "(*abi.Decoder).DecodeVariant"]
PROPS.update({
    "C21": dict(level="proof", contracts=["(*abi.Encoder).Encode", "(*abi.Encoder).EncodeValue"], assumes=GENERIC, dur=10),
    "C22": dict(level="proof", contracts=GDEC + ["(*abi.Encoder).Encode", "(*abi.Encoder).EncodeValue"], dur=10,
                assumes=GENERIC + ["that decoding inverts encoding for whole values follows from the two contracts part by part, by induction on the structure of the value (paper argument)"]),
    "C25": dict(level="proof", contracts=_each("chain.%s", "NewEncoder", "NewCustomEncoder", "NewDecoder", "NewCustomDecoder") + ["(*abi.Encoder).Encode", "(*abi.Decoder).Decode", "(chain.Action).DecodeInto"],
                assumes=GENERIC, dur=10),
})

ABIC = _each("(chain.Abi).%s", "Encode", "Decode", "EncodeAction", "DecodeAction", "encodeType", "encodeInner", "decodeType", "decodeInner",
             "GetTable", "GetAction", "GetStruct", "GetType", "GetVariant") + ["(*chain.resolver).resolve", "(*chain.resolvedType).allFields", "(chain.Action).Decode"]
ABIA = ["resolved types are not modified once resolve has returned (only resolve makes them); a definition has finitely many names",
        "what encoding or decoding a part does is a function of the part's type, the value or position, and the depth; that whole values follow from the contracts part by part is by induction on the depth (paper argument)",
        "strings are compared through keys that name their contents; maps behave as documented"]
PROPS.update({
    "C23": dict(level="proof", contracts=ABIC, dur=15, assumes=ABIA),
    "C24": dict(level="proof", contracts=ABIC, dur=15, assumes=ABIA,
                filter=lambda f, n: "panic" in n or "malformed or truncated input is an error" in n or "allFields" in f and n.endswith(": nil")),
})

NA = {
    "C26": "The property quantifies over the Go programs the generator prints; deciding it needs a semantics of generated program text, which no contract on the generator's functions (template expansion over strings) within reach of the verifier can express.",
}
