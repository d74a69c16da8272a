import runpy, os
a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
IMP, E, D, C = a["IMP"], a["E"], a["D"], a["C"]
B = "pkg/base58/"
R = "pkg/ripemd160/"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, imp=IMP):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=imp + "\nfunc main() {\n" + demo + "\n}\n", needs=needs, breaks=breaks))


def seedx(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("s09-mask", "C09", [(C + "name.go", "\t\t\tc &= 0x0f\n", "\t\t\tc &= 0x1f\n")], '''
	for _, s := range []string{"abcdefghijk1z", "zzzzzzzzzzz.p", "............z"} {
		n := chain.NewName(s)
		if (uint64(n)>>4)<<4 != uint64(chain.NewName(s[:12])) {
			fail(s, n)
		}
	}
	if chain.NewName("............p").String() != chain.NewName("............" + "").String()[:0]+chain.Name(uint64(21&15)).String() {
		fail("13th character")
	}
''', "a 13-character name whose last character is in the second half of the alphabet", "the bits of the 13th character spill into the 12th")
seed("s09-trim", "C09", [(C + "name.go", "for i := 12; i >= 0; i-- {", "for i := 12; i >= 1; i-- {")], '''
	if s := chain.Name(0).String(); s != "" {
		fail("empty name prints", s)
	}
''', "the name whose value is zero", "the text of the empty name ends in a dot")
seed("s10-eight", "C10", [(C + "symbol.go", "if len(s) > 7 {", "if len(s) > 8 {")], '''
	if s, err := chain.NewSymbolFromString("4,ABCDEFGH"); err == nil {
		fail("accepted", s)
	}
''', "a symbol code of exactly eight letters", "too long a code is accepted and silently truncated")
seed("s10-prec", "C10", [(C + "symbol.go", "strconv.ParseInt(p[0], 10, 8)", "strconv.ParseInt(p[0], 10, 16)")], '''
	if s, err := chain.NewSymbolFromString("260,EOS"); err == nil {
		fail("accepted", s)
	}
''', "a precision that is valid modulo 256", "an out-of-range precision wraps into the valid range")
seed("s11-point", "C11", [(C + "asset.go", "\t\t\tif foundPoint {\n\t\t\t\treturn nil, ErrInvalidAssetString\n\t\t\t}\n\t\t\tfoundPoint = true\n", "\t\t\tfoundPoint = true\n")], '''
	if a, err := chain.NewAssetFromString("1.0.0 EOS"); err == nil {
		fail("accepted", a)
	}
''', "an amount with two decimal points", "text with several points is accepted as another amount")
seed("s11-parts", "C11", [(C + "asset.go", "if len(p) != 2 ||", "if len(p) < 2 ||")], '''
	if a, err := chain.NewAssetFromString("1.0000 EOS 2"); err == nil {
		fail("accepted", a)
	}
''', "text with a third part", "trailing garbage after the symbol is ignored")
seed("s12-sign", "C12", [(C + "numbers.go", "b[0]&0x80 > 0", "b[0] > 0x80")], '''
	v := chain.Int128{Lo: 5, Hi: 0x80 << 56}
	if s := v.BigInt().Sign(); s >= 0 {
		fail("sign", s)
	}
''', "a negative value whose top byte is exactly 0x80", "very negative 128-bit integers turn positive")
seed("s12-order", "C12", [(C + "numbers.go", "if o == binary.BigEndian {", "if o != binary.LittleEndian || u128.Hi == u128.Lo>>1 {")], '''
	v := chain.Uint128{Lo: 6, Hi: 3}
	b := v.Bytes(binary.LittleEndian)
	if b[0] != 6 || b[8] != 3 {
		fail(b)
	}
''', "halves in a particular relation", "the halves of the little-endian form are swapped", imp=IMP.replace('"errors"', '"encoding/binary"\n\t"errors"'))
seed("s13-round", "C13", [(C + "time.go", "BlockTimestamp((t.Round(time.Millisecond*500).UnixMilli() - blockTimestampEpochMilli) / 500)", "BlockTimestamp((t.UnixMilli() - blockTimestampEpochMilli + 499) / 500)")], '''
	t := chain.BlockTimestamp(77).Time().Add(time.Millisecond)
	if v := chain.NewBlockTimestamp(t); v != 77 {
		fail(v)
	}
''', "an instant just after a slot", "instants are rounded up instead of to the nearest slot", imp=IMP.replace('"reflect"', '"reflect"\n\t"time"'))
seed("s13-local", "C13", [(C + "time.go", "return tps.Time().UTC().Format(TimePointSecFormat)", "return tps.Time().Format(TimePointSecFormat)")], '''
	time.Local = time.FixedZone("X", 3600)
	s := chain.TimePointSec(1000).String()
	v, err := chain.NewTimePointSecFromString(s)
	if err != nil || v != 1000 {
		fail(s, v, err)
	}
''', "a local time zone other than UTC", "text is printed in local time but read as UTC", imp=IMP.replace('"reflect"', '"reflect"\n\t"time"'))
seed("s14-blobpad", "C14", [(C + "blob.go", '\tcase 3:\n\t\ts += "="\n', '\tcase 3:\n\t\tif s[len(s)-1] != \'=\' {\n\t\t\ts += "="\n\t\t}\n')], '''
	var b chain.Blob
	if err := b.UnmarshalText([]byte("AQ=")); err != nil || len(b) != 1 || b[0] != 1 {
		fail(b, err)
	}
''', "unpadded text of a particular form", "blobs with partly missing padding are refused")
seed("s14-dest", "C14", [(C + "bytes.go", "\tif err == nil {\n\t\t*b = data\n\t}\n\treturn err\n}\n", "\tif err == nil {\n\t\t*b = data\n\t}\n\treturn err\n}\n")], "", "", "")
SEEDS.pop()
seed("s15-zeros", "C15", [(B + "base58.go", "for i := 0; i < 10; i++ {", "for i := 0; i < 10 && (m > 0 || i < 9); i++ {")], '''
	for i := 0; i < 5000; i++ {
		b := []byte{7, byte(i >> 8), byte(i), 1, 2, 3, 4, 5, 6, 7, 8, 9}
		if !bytes.Equal(base58.Decode(base58.Encode(b)), b) {
			fail(b)
		}
	}
''', "a ten-digit group whose leading digit is zero", "a zero digit is dropped from the middle of the text")
seed("s16-clobber", "C16", [(B + "base58check.go", "\tb := make([]byte, 0, len(input)+4)\n\tb = append(b, input[:]...)\n\tcksum := checksum(b)\n\tb = append(b, cksum[:]...)\n", "\tcksum := checksum(input)\n\tb := append(input, cksum[:]...)\n")], '''
	buf := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	base58.CheckEncode(buf[:4])
	if !bytes.Equal(buf, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}) {
		fail(buf)
	}
''', "a payload that is part of a larger buffer", "the bytes after the payload in the caller's buffer are overwritten")
seed("s16-three", "C16", [(B + "base58check.go", "\tif checksum(decoded[:len(decoded)-4]) != cksum {", "\tif c := checksum(decoded[:len(decoded)-4]); !bytes.Equal(c[:3], cksum[:3]) {"), (B + "base58check.go", "import (\n", "import (\n\t\"bytes\"\n")], '''
	d := base58.Decode(base58.CheckEncode([]byte{9, 8, 7}))
	d[len(d)-1] ^= 1
	if r, err := base58.CheckDecode(base58.Encode(d)); err == nil {
		fail("accepted", r)
	}
''', "a corrupted last byte of the checksum", "the last checksum byte is not compared")
seed("s17-legacy", "C17", [(C + "public_key.go", "base58.CheckDecodeEosio(s[len(s)-50:], \"\")", "base58.CheckDecodeEosio(s[3:], \"\")")], '''
	k, err := chain.NewPublicKeyFromString("PUB_K1_5AHoNnWetuDhKWSDx3WUf8W7Dg5xjHCMc4yHmmSiaJCFvvAgnB")
	if err != nil {
		fail(err)
	}
	for _, p := range []string{"EOS", "FIO", "TELOS", "X"} {
		if q, err := chain.NewPublicKeyFromString(k.LegacyString(p)); err != nil || !reflect.DeepEqual(q, k) {
			fail(p, q, err)
		}
	}
''', "a legacy prefix that is not three characters long", "legacy keys with other prefixes do not parse")
seed("s17-suffix", "C17", [(C + "signature.go", "base58.CheckEncodeEosio(s.Data, s.Type.String())", "base58.CheckEncodeEosio(s.Data, K1.String())")], '''
	s := chain.NewSignature(make([]byte, 65), chain.WA)
	q, err := chain.NewSignatureString(s.String())
	if err != nil || !reflect.DeepEqual(q, s) {
		fail(q, err)
	}
''', "a signature of a type other than K1", "the checksum of other key types is computed with the wrong suffix")
seed("s18-sum", "C18", [(R + "ripemd160.go", "\td := *d0\n", "\td := d0\n")], '''
	h := ripemd160.New()
	h.Write([]byte("ab"))
	h.Sum(nil)
	h.Write([]byte("c"))
	if fmt.Sprintf("%x", h.Sum(nil)) != "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" {
		fail("state disturbed")
	}
''', "writing on after asking for the sum", "Sum changes the state of the digest", imp=IMP.replace('\t"github.com/greymass/go-eosio/pkg/chain"\n', '\t"github.com/greymass/go-eosio/pkg/chain"\n\t"github.com/greymass/go-eosio/pkg/ripemd160"\n'))
seed("s18-len", "C18", [(R + "ripemd160.go", "\ttc <<= 3\n", "\ttc = uint64(uint32(tc) << 3)\n")], '''
	h := ripemd160.New()
	b := make([]byte, 1<<20)
	for i := 0; i < 513; i++ {
		h.Write(b)
	}
	if fmt.Sprintf("%x", h.Sum(nil)) != "0d0951a731fa0f9562bacb9f46473a434747031b" {
		fail(fmt.Sprintf("%x", h.Sum(nil)))
	}
''', "a message longer than 512 MB", "the length block wraps at 32 bits", imp=IMP.replace('\t"github.com/greymass/go-eosio/pkg/chain"\n', '\t"github.com/greymass/go-eosio/pkg/chain"\n\t"github.com/greymass/go-eosio/pkg/ripemd160"\n'))
seed("s20-base", "C20", [(C + "numbers.go", "return strconv.ParseUint(s, 10, 64)", "return strconv.ParseUint(s, 0, 64)")], '''
	var v chain.Uint64
	if err := v.UnmarshalJSON([]byte("\\"0x10\\"")); err == nil {
		fail("accepted", v)
	}
''', "quoted text with a base prefix or underscores", "text that is not decimal is accepted")
seed("s20-bound", "C20", [(C + "numbers.go", "\tif v > math.MaxUint32 {\n\t\ts = ", "\tif v > math.MaxUint32+1 {\n\t\ts = ")], '''
	b, _ := chain.Uint64(1 << 32).MarshalJSON()
	if string(b) != `"4294967296"` {
		fail(string(b))
	}
''', "the value 2^32", "one value above 32 bits is written unquoted")
seedx("s21-zeroptr", "C21", [(E, "exists := !v.Field(i).IsZero()", "exists := !reflect.Indirect(v.Field(i)).IsValid() == false && !reflect.Indirect(v.Field(i)).IsZero()")], IMP + '''
type T struct {
	A *uint32 `eosio:"optional"`
}

func main() {
	var b bytes.Buffer
	x := uint32(0)
	if err := chain.NewEncoder(&b).Encode(T{&x}); err != nil || !bytes.Equal(b.Bytes(), []byte{1, 0, 0, 0, 0}) {
		fail(b.Bytes(), err)
	}
}
''', "an optional pointer to a zero value", "a present optional whose value is zero is encoded as absent")
seedx("s21-slice", "C21", [(E, "\tcase reflect.Array:\n\t\tfor i := 0; i < v.Len(); i++ {", "\tcase reflect.Array:\n\t\tfor i := 0; i < v.Len() && i < 128; i++ {")], IMP + '''
func main() {
	var b bytes.Buffer
	var x [130]uint16
	if err := chain.NewEncoder(&b).Encode(x); err != nil || b.Len() != 260 {
		fail(b.Len(), err)
	}
}
''', "a fixed-size array of more than 128 elements", "the rest of a large array is silently left out")
seedx("s22-reuse", "C22", [(D, "if uint(pv.Len()) != l {", "if uint(pv.Len()) < l {")], IMP + '''
func main() {
	v := []chain.Name{1, 2, 3}
	if err := chain.NewDecoder(bytes.NewReader([]byte{1, 9, 0, 0, 0, 0, 0, 0, 0})).Decode(&v); err != nil || len(v) != 1 || v[0] != 9 {
		fail(v, err)
	}
}
''', "decoding a shorter list into a variable that held a longer one", "old elements stay behind after the decoded ones")
seedx("s22-ptrelem", "C22", [(D, "\tcase reflect.Array:\n\t\tl := pv.Len()\n\t\tfor i := 0; i < l; i++ {\n\t\t\tpv := pv.Index(i)\n\t\t\tif pv.Kind() == reflect.Ptr {\n\t\t\t\tif pv.IsNil() {\n\t\t\t\t\tpv.Set(reflect.New(pv.Type().Elem()))\n\t\t\t\t}", "\tcase reflect.Array:\n\t\tl := pv.Len()\n\t\tvar last reflect.Value\n\t\tfor i := 0; i < l; i++ {\n\t\t\tpv := pv.Index(i)\n\t\t\tif pv.Kind() == reflect.Ptr {\n\t\t\t\tif pv.IsNil() {\n\t\t\t\t\tif !last.IsValid() {\n\t\t\t\t\t\tlast = reflect.New(pv.Type().Elem())\n\t\t\t\t\t}\n\t\t\t\t\tpv.Set(last)\n\t\t\t\t}")], IMP + '''
func main() {
	var v [2]*uint16
	if err := chain.NewDecoder(bytes.NewReader([]byte{1, 0, 2, 0})).Decode(&v); err != nil || *v[0] != 1 || *v[1] != 2 {
		fail(*v[0], *v[1], err)
	}
}
''', "an array of pointers decoded into an empty variable", "all elements share one target")
ABI = IMP.replace('"reflect"', '"reflect"\n\t"strings"') + '''
var _ = strings.ToUpper

'''
seedx("s23-variant", "C23", [(C + "abi.go", "if tt.name == vn {", "if tt.baseName == strings.TrimSuffix(vn, \"[]\") {")], ABI + '''
func main() {
	a := chain.Abi{Variants: []chain.AbiVariant{{Name: "v", Types: []string{"uint8", "uint8[]"}}}}
	var b bytes.Buffer
	err := a.Encode(&b, "v", []interface{}{"uint8[]", []interface{}{uint8(7)}})
	if err != nil || !bytes.Equal(b.Bytes(), []byte{1, 1, 7}) {
		fail(b.Bytes(), err)
	}
}
''', "a variant with a type and an array of it", "the wrong alternative of a variant is chosen")
seedx("s23-base", "C23", [(C + "abi.go", "\t\tcur = cur.base\n\t\tif cur == nil {", "\t\tcur = cur.base\n\t\tif cur != nil && len(*cur.fields) == 0 {\n\t\t\tbreak\n\t\t}\n\t\tif cur == nil {")], ABI + '''
func main() {
	f := func(n string) []chain.AbiField { return []chain.AbiField{{Name: n, Type: "uint8"}} }
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "a", Fields: f("x")}, {Name: "b", Base: "a"}, {Name: "c", Base: "b", Fields: f("y")}}}
	var b bytes.Buffer
	err := a.Encode(&b, "c", map[string]interface{}{"x": uint8(1), "y": uint8(2)})
	if err != nil || !bytes.Equal(b.Bytes(), []byte{1, 2}) {
		fail(b.Bytes(), err)
	}
}
''', "three levels of inheritance with an empty struct in the middle", "fields inherited through a struct without fields of its own are lost")
seedx("s24-cycle", "C24", [(C + "abi.go", "\t\tif seen[cur.name] {\n\t\t\treturn nil // circular reference\n\t\t}", "\t\tif seen[cur.name] && cur == rt {\n\t\t\treturn nil // circular reference\n\t\t}")], ABI + '''
func main() {
	go func() {
		time.Sleep(5 * time.Second)
		fail("hangs")
	}()
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "a", Base: "b"}, {Name: "b", Base: "c"}, {Name: "c", Base: "b"}}}
	var b bytes.Buffer
	if err := a.Encode(&b, "a", map[string]interface{}{}); err == nil {
		fail("accepted")
	}
}
'''.replace("func main", "func main", 1), "a struct whose base is part of a cycle it is not itself in", "circular bases hang the codec")
SEEDS[-1]["demo"] = SEEDS[-1]["demo"].replace('"strings"', '"strings"\n\t"time"')
seedx("s24-index", "C24", [(C + "abi.go", "if idx >= uint(len(*variant)) {", "if idx > uint(len(*variant)) {")], ABI + '''
func main() {
	a := chain.Abi{Variants: []chain.AbiVariant{{Name: "v", Types: []string{"uint8"}}}}
	if _, err := a.Decode(bytes.NewReader([]byte{1, 0}), "v"); err == nil {
		fail("accepted")
	}
}
''', "a variant index equal to the number of alternatives", "a bad variant index panics")
seedx("s25-custom", "C25", [(C + "encoding.go", "\t\tdone, err = fn(enc, v)\n\t\tif !done && err == nil {", "\t\tdone, err = fn(enc, v)\n\t\tif !done {")], IMP + '''
func main() {
	var b bytes.Buffer
	enc := chain.NewCustomEncoder(&b, func(e *abi.Encoder, v interface{}) (bool, error) { return false, errors.New("no") })
	if err := enc.Encode(chain.Name(5)); err == nil {
		fail("error of the custom function lost")
	}
}
''', "a custom function that refuses a value with an error", "the custom function's error is replaced by the built-in encoding")
seedx("s25-int128", "C25", [(C + "encoding.go", "\tcase Int128:\n\t\terr = v.MarshalABI(enc)", "\tcase Int128:\n\t\tif v.Hi == 0 {\n\t\t\terr = enc.WriteUint64(v.Lo)\n\t\t} else {\n\t\t\terr = v.MarshalABI(enc)\n\t\t}")], IMP + '''
func main() {
	var b bytes.Buffer
	if err := chain.NewEncoder(&b).Encode(chain.Int128{Lo: 3}); err != nil || b.Len() != 16 {
		fail(b.Bytes(), err)
	}
}
''', "a 128-bit integer that fits 64 bits, through the fast path", "the fast path emits another layout than the type's own codec")
seed("s19-alias", "C19", [(C + "action.go", "\treturn Checksum256Digest(b.Bytes())\n", "\tif len(a.Data) == 0 {\n\t\treturn Checksum256Digest(b.Bytes()[:b.Len()-1])\n\t}\n\treturn Checksum256Digest(b.Bytes())\n")], '''
	a := chain.Action{Account: 1, Name: 2}
	if a.Digest() != chain.Checksum256Digest(append(make([]byte, 0), 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0)) {
		fail("digest")
	}
''', "an action without data", "the digest of actions without data leaves out their length byte")
