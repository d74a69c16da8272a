"""writes properties.jsonl"""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
L = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


ENC, DEC = "pkg/abi/encode.go", "pkg/abi/decode.go"
p("C01", "Fixed-width primitives have the exact EOSIO wire form both ways",
  "Writing any bool, 8/16/32/64-bit signed or unsigned integer, or 32/64-bit float emits exactly its little-endian (two's complement / IEEE-754 bit pattern) bytes and nothing else; reading consumes exactly that many bytes and yields the same value, whatever follows on the stream and however the reader chunks its data. For bools any non-zero byte reads as true. NaN payloads and signed zeros survive.",
  ["inputs"], "all values of every primitive type, all preceding/following stream contents, all legal ways a reader may split its data",
  "The tests use a handful of values per type and an in-memory buffer that always returns everything at once; 2^64 values, NaN payloads and short reads are out of reach.",
  [ENC, DEC], [("primitive writers", ENC + ": Write*"), ("primitive readers", DEC + ": Read*")], ["bytes received by the writer", "value returned", "stream position"])
p("C02", "Variable-length integers round-trip and use the exact EOSIO encoding",
  "Writing a variable-length unsigned integer emits the minimal base-128 form, and a signed one the zig-zag form of it, for every value; reading accepts every well-formed encoding that fits, consumes exactly its bytes and returns the value, and reports an error for encodings that do not fit or are cut short. Reading back what was written gives the value written, including the smallest and largest 64-bit values.",
  ["inputs"], "all 2^64 values of each signedness; all byte streams, including over-long and non-minimal encodings",
  "Tests sample a few small values; encodings longer than 4 bytes crashed the writer until repaired, and no test tried one.",
  [ENC, DEC], [("varint writers", ENC + ": WriteVaruint, WriteVarint"), ("varint readers", DEC + ": ReadVaruint, ReadVarint")])
p("C03", "Strings and byte strings are length-prefixed and preserved exactly",
  "A string or byte string is written as its length in bytes as a variable-length integer followed by exactly those bytes; reading returns exactly the announced number of bytes, unchanged, and leaves the stream right behind them. This holds for empty data, any byte values (invalid UTF-8 included) and any length, and data returned earlier is never altered by later decoding.",
  ["inputs"], "all byte strings of all lengths, all surrounding streams",
  "Tests use short ASCII strings; lengths at varint boundaries, empty and binary data are not sampled.",
  [ENC, DEC, "pkg/chain/bytes.go", "pkg/chain/blob.go"], [("string codec", ENC + ": WriteString / " + DEC + ": ReadString"), ("byte string types", "pkg/chain/bytes.go, blob.go: MarshalABI, UnmarshalABI")])
p("C04", "Scalar chain types have the exact EOSIO binary layout both ways",
  "Names, symbols, symbol codes, assets, extended assets, time points, block timestamps, block numbers, 64- and 128-bit integers, 128-bit floats and 160/256/512-bit checksums are each written as their fixed EOSIO layout (field order, little-endian, fixed width) and read back to an identical value, consuming exactly that many bytes. Nothing besides the value being decoded is modified.",
  ["inputs"], "all values of each type, all byte streams",
  "Tests encode one or two example values per type; swapped halves, sign loss or wrong widths for other values go unseen.",
  ["pkg/chain/name.go", "pkg/chain/symbol.go", "pkg/chain/asset.go", "pkg/chain/time.go", "pkg/chain/numbers.go", "pkg/chain/checksum.go"],
  [("per-type MarshalABI/UnmarshalABI", "pkg/chain/*.go")])
p("C05", "Transactions and actions serialize canonically and round-trip",
  "A transaction, its header, its extensions, an action and its authorizations are written as their fields in EOSIO order with every list preceded by its element count, for lists of any length; reading such bytes gives back an equal value and leaves the stream right behind it, regardless of what the destination held before. Any well-formed input that is read and written again reproduces the same bytes when its varints were minimal.",
  ["inputs", "histories"], "all transactions with lists of every length and payloads of every size; all previous contents of the destination value",
  "Tests serialize a few fixed transactions with one or two actions; list lengths, reuse of a destination and header edge values are unbounded.",
  ["pkg/chain/transaction.go", "pkg/chain/action.go"], [("MarshalABI/UnmarshalABI of transaction types", "pkg/chain/transaction.go"), ("MarshalABI/UnmarshalABI of actions", "pkg/chain/action.go")])
p("C06", "Public keys and signatures have the exact binary layout both ways",
  "A public key or signature is written as its type byte followed by its key data; reading takes the type byte and exactly the data that type calls for (33 or 65 bytes, or the variable-length WebAuthn layout), keeps those bytes verbatim so that writing the result reproduces the input with minimal length prefixes, and reports unknown types as errors.",
  ["inputs"], "all key types, all key data, all WebAuthn payload lengths, all byte streams",
  "Tests decode one K1 key and a couple of signatures; WebAuthn variants with varying lengths and unknown types are barely touched.",
  ["pkg/chain/public_key.go", "pkg/chain/signature.go"], [("UnmarshalABI by key type", "pkg/chain/public_key.go, signature.go")])
p("C07", "Hostile or truncated binary input gives an error, never a crash",
  "Decoding any byte stream into any of the library's types either succeeds or returns an error: it never panics, never loops forever, and never reserves memory out of proportion to the input because of a length the input merely announces. Input cut short anywhere, or whose reader fails midway, always produces an error rather than a partly filled value reported as success.",
  ["inputs", "fault_sequences"], "all byte streams, all truncation points, all announced lengths and counts, all read failures",
  "Tests only decode valid data; hostile length prefixes used to panic or exhaust memory.",
  [DEC, "pkg/chain/transaction.go", "pkg/chain/action.go", "pkg/chain/public_key.go", "pkg/chain/signature.go", "pkg/chain/bytes.go", "pkg/chain/blob.go"],
  [("bounded reads", DEC + ": ReadBytes"), ("error checks after each read", "pkg/chain/*.go: UnmarshalABI")])
p("C08", "Write failures are always reported and success means everything was written",
  "If the underlying writer fails at any point while any of the library's types is encoded, the encode call returns an error; if encoding reports success, every byte of the encoding has been handed to the writer, in order, exactly once. This holds for a failure at every possible write.",
  ["inputs", "fault_sequences"], "all values of all types, a writer failure at every write call",
  "Tests write only to in-memory buffers that never fail.",
  [ENC, "pkg/chain/*.go"], [("error propagation in writers", ENC), ("error propagation in MarshalABI", "pkg/chain/*.go")])
p("C09", "Account names convert between text and 64-bit form exactly",
  "The text of any 64-bit name consists of at most 13 characters of the name alphabet with no trailing dot and, parsed again, gives the same 64-bit value; parsing any canonical name text (at most 12 characters, or 13 with the last in the first half of the alphabet, no trailing dot) and formatting it gives the same text. Numeric order of names equals the lexicographic base-32 order of their texts.",
  ["inputs"], "all 2^64 values; all strings",
  "Tests convert a few names; the 13th character, embedded dots and the full value space are not covered.",
  ["pkg/chain/name.go"], [("name to text", "pkg/chain/name.go: nameToString"), ("text to name", "pkg/chain/name.go: stringToName")])
p("C10", "Asset symbols parse and format exactly, rejecting malformed ones",
  "Creating a symbol succeeds exactly for precision 0 to 18 and a code of at most seven characters A to Z, giving the little-endian packing of precision and code; its decimals, code, name and text give those parts back, and the text form parses to the same symbol. Everything else (lower case, other characters, too long, missing or extra separators, bad precision) is rejected with an error and leaves the destination unchanged.",
  ["inputs"], "all precisions and all strings",
  "Tests check a couple of valid symbols and few invalid ones.",
  ["pkg/chain/symbol.go"], [("packing and validation", "pkg/chain/symbol.go: rawSymbolValue"), ("text forms", "pkg/chain/symbol.go: NewSymbolFromString, String, Name")])
p("C11", "Asset amounts convert between text and exact integer units",
  "Formatting an asset with a valid, non-empty symbol prints its exact integer amount with the decimal point placed by its precision, for every 64-bit amount including the most negative; parsing that text gives the same amount and symbol. Parsing never rounds, wraps or guesses: text with several points, stray characters, too many decimals, an amount outside 64 bits or missing parts is rejected with an error.",
  ["inputs"], "all amounts and symbols; all strings",
  "Tests check a handful of amounts; extreme amounts with large precisions and odd syntax are unbounded.",
  ["pkg/chain/asset.go", "pkg/chain/symbol.go"], [("formatting", "pkg/chain/asset.go: String"), ("parsing", "pkg/chain/asset.go: NewAssetFromString")])
p("C12", "128-bit integers convert to decimal text and big integers exactly",
  "For every 128-bit signed or unsigned value, the big-integer and decimal text conversions give its exact mathematical value and converting back gives the same value; the byte form in either byte order is its exact two's complement representation. Text that is not a decimal integer in range is rejected with an error.",
  ["inputs"], "all 2^128 values of each signedness; all strings",
  "Tests cover a few values; -2^127, carry between the halves and out-of-range text were not covered and were wrong.",
  ["pkg/chain/numbers.go"], [("conversions", "pkg/chain/numbers.go: NewUint128, NewInt128, BigInt, Bytes")])
p("C13", "Time types convert between instants, counters and text without drift",
  "For every counter value, a time point (microseconds), time point in seconds, or block timestamp (half seconds since 2000) converts to the instant it denotes and back to the same counter, and its text form (with or without trailing Z, for instants in years 1 to 9999) parses back to the same counter up to the text's resolution. Text denoting an instant the type cannot represent, or malformed text, is rejected with an error.",
  ["inputs"], "all counter values; all strings; all time zones of the given instant",
  "Tests parse a few dates; the counter ranges and out-of-range dates cannot be enumerated by tests.",
  ["pkg/chain/time.go"], [("conversions", "pkg/chain/time.go: New*, Time, String")])
p("C14", "Hex and base64 text forms of binary data are exact and strict",
  "Byte strings, checksums and 128-bit floats format as lower-case hex of exactly their bytes, and blobs as base64; parsing such text gives exactly the same bytes, and blobs also accept text without padding. Invalid digits, odd or wrong lengths are rejected with an error that leaves the destination unchanged, and the text passed in is never modified.",
  ["inputs"], "all byte strings of all lengths; all texts",
  "Tests cover a couple of samples; wrong lengths and invalid digits were accepted silently before.",
  ["pkg/chain/bytes.go", "pkg/chain/blob.go", "pkg/chain/checksum.go", "pkg/chain/numbers.go"], [("text marshalling", "pkg/chain/bytes.go, blob.go, checksum.go, numbers.go: MarshalText, UnmarshalText")])
p("C15", "Base58 encodes and decodes every byte string exactly",
  "Base58 text of a byte string is one '1' per leading zero byte followed by the minimal base-58 digits of its big-endian value, and decoding it gives back exactly the same bytes. Text with a character outside the alphabet, non-ASCII included, decodes to nothing rather than to other bytes or a crash.",
  ["inputs"], "all byte strings of all lengths; all texts",
  "Tests list a few vectors; leading zeros, digit-group boundaries and arbitrary lengths need induction.",
  ["pkg/base58/base58.go", "pkg/base58/alphabet.go"], [("codec", "pkg/base58/base58.go: Encode, Decode"), ("alphabet table", "pkg/base58/alphabet.go")])
p("C16", "Checksummed base58 detects every corrupted payload or checksum",
  "Check-encoding appends the first four bytes of the double SHA-256 (or of the RIPEMD-160 of payload plus suffix) to the payload before base58; check-decoding returns exactly the payload when those four bytes match and an error in every other case, including text too short to hold a checksum. The input is never modified and a suffix mismatch is an error.",
  ["inputs"], "all payloads, suffixes and texts",
  "Tests decode a few good strings and one bad suffix.",
  ["pkg/base58/base58check.go"], [("checksum handling", "pkg/base58/base58check.go")])
p("C17", "Public key and signature text forms round-trip and reject malformed text",
  "The text of a key or signature is its prefix, type tag and checksummed base58 data, and parsing it yields the same type and data; legacy public keys with any prefix parse to the same key. Text with an unknown prefix, type or separator, a wrong checksum, or that is too short is rejected with an error, without panicking and leaving the destination unchanged.",
  ["inputs"], "all key types and data; all texts, including short and malformed ones",
  "Tests parse a few good keys; short strings used to panic and corrupted legacy keys were accepted.",
  ["pkg/chain/public_key.go", "pkg/chain/signature.go", "pkg/chain/key_type.go"], [("text parsing", "pkg/chain/public_key.go: NewPublicKeyFromString; signature.go: NewSignatureString"), ("formatting", "String, LegacyString, MarshalText")])
p("C18", "RIPEMD-160 is computed correctly for every message and every write split",
  "The hash of any message equals RIPEMD-160 of that message for every message length, no matter how the message is split over writes; asking for the sum does not disturb further writing, reset returns to the initial state, and the sum is appended to the given slice.",
  ["inputs", "histories"], "all messages of all lengths, all ways to split them into writes, all interleavings of write, sum and reset",
  "Tests hash the published vectors; padding boundaries, partial-block buffering and interleaved sums form an unbounded space.",
  ["pkg/ripemd160/ripemd160.go", "pkg/ripemd160/ripemd160block.go"], [("buffering and padding", "pkg/ripemd160/ripemd160.go"), ("compression function", "pkg/ripemd160/ripemd160block.go")])
p("C19", "Digests are the right hash of exactly the given or serialized bytes",
  "The 160/256/512-bit digest of a message is the RIPEMD-160/SHA-256/SHA-512 of exactly that message, and an action's digest is the SHA-256 of exactly its binary serialization. Computing a digest changes neither the message nor the action.",
  ["inputs"], "all messages and actions",
  "Tests compare one or two digests.",
  ["pkg/chain/checksum.go", "pkg/chain/action.go"], [("digest functions", "pkg/chain/checksum.go: Checksum*Digest"), ("action digest", "pkg/chain/action.go: Digest")])
p("C20", "64-bit integers and block numbers survive JSON exactly",
  "A 64-bit integer or block number is written to JSON as its exact decimal digits, quoted exactly when it exceeds 32 bits, and both the quoted and the bare form read back to the same value. Anything that is not a decimal integer in the type's range is rejected with an error and leaves the destination unchanged.",
  ["inputs"], "all values; all JSON tokens",
  "Tests cover a few values near 2^32.",
  ["pkg/chain/numbers.go"], [("JSON helpers", "pkg/chain/numbers.go: readUintJSON, writeUintJSON")])
p("C21", "Generic encoding of composite Go values follows their structure exactly",
  "Encoding a Go value of any supported shape (structs, nested structs, pointers, slices, fixed-size arrays, maps, and optional or extension fields marked by tags) emits the encodings of its parts in declaration order, lists preceded by their element count, optional parts by a presence byte, exactly as the layout demands, and unsupported kinds or missing required values are errors, not panics.",
  ["inputs", "programs"], "all supported Go types and all their values",
  "Tests encode a few hand-written structs; the space of types and nestings is unbounded.",
  [ENC], [("reflection walk", ENC + ": EncodeValue")])
p("C22", "Generic decoding into Go values inverts generic encoding",
  "Decoding bytes produced by encoding a Go value of any supported shape into a variable of the same type yields an equal value and consumes exactly those bytes, whatever the variable held before for the parts that are decoded; trailing extension fields missing from the input become empty. Malformed input gives an error, never a panic.",
  ["inputs", "programs", "histories"], "all supported Go types and values, all input streams, all previous contents",
  "Tests decode a few hand-written structs from good input.",
  [DEC], [("reflection walk", DEC + ": DecodeValue, DecodeVariant")])
p("C23", "ABI-described data is encoded and decoded per the ABI definition, both ways",
  "Encoding data under a named type of an ABI definition (built-in types, aliases, structs with inheritance, arrays, optionals, binary extensions, variants) emits exactly the layout the definition prescribes, and decoding those bytes under the same type gives back equivalent data; a definition itself survives binary serialization. Unknown types, missing fields and values of the wrong kind are reported as errors.",
  ["inputs", "configurations"], "all ABI definitions, all values fitting them, all byte streams",
  "Tests use a few fixed definitions and values.",
  ["pkg/chain/abi.go"], [("entry points and lookup", "pkg/chain/abi.go: Encode, Decode, EncodeAction, DecodeAction, GetAction, GetStruct, GetType, GetVariant"), ("codec", "pkg/chain/abi.go: encodeType, encodeInner, decodeType, decodeInner"), ("type resolution", "pkg/chain/abi.go: resolve, allFields")])
p("C24", "No ABI definition or data can crash or hang the ABI-driven codec",
  "For every ABI definition, however inconsistent (circular aliases or bases, unknown or malformed type names, empty definitions), and every input, resolving, encoding and decoding either succeed or return an error: no panic, no unbounded recursion and no memory reserved merely because the input announces a large count (values that the definition itself makes large without occupying bytes, such as lists of empty structs or nested empty structs, excepted).",
  ["inputs", "configurations"], "all ABI definitions including malformed and cyclic ones, all type names, all byte streams and all Go values",
  "Tests only use well-formed definitions; several malformed ones used to panic or overflow the stack.",
  ["pkg/chain/abi.go"], [("resolver recursion guards and bounds", "pkg/chain/abi.go: resolve, allFields"), ("depth limit", "pkg/chain/abi.go: encodeType, decodeType")])
p("C25", "All encoding and decoding paths for a type agree with its own codec",
  "Encoding or decoding a value through the generic entry points dispatches to the value's own codec: for every library type the fast path, the generic path, and values or pointers to them produce the same bytes and read the same value, and a custom encode or decode function, when given, takes precedence and is consulted for nested values. Reading the encoded value back through any path yields an equal value.",
  ["inputs", "programs"], "all library types and all their values, by value and by pointer, nested or not, with and without a custom function",
  "Tests exercise only some of the types through one path.",
  ["pkg/chain/encoding.go", ENC, DEC], [("fast path dispatch", "pkg/chain/encoding.go"), ("generic dispatch", ENC + ": Encode; " + DEC + ": Decode")])
p("C26", "Generated contract bindings match the ABI they were generated from",
  "Go code generated from an ABI compiles and its types and action helpers encode and decode exactly as the ABI prescribes, for every valid ABI.",
  ["inputs", "programs"], "all valid ABI definitions",
  "There are no tests of the generator; correctness is a statement about the programs it prints.",
  ["pkg/codegen/codegen.go"], [("template output", "pkg/codegen/codegen.go")])
with open(OUT, "w") as f:
    for x in L:
        f.write(json.dumps(x) + "\n")
