import runpy, os
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
IMP, E, D, C, B, R, ABI = b["IMP"], b["E"], b["D"], b["C"], b["B"], b["R"], b["ABI"]
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, imp=IMP):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=imp + "\nfunc main() {\n" + demo + "\n}\n", needs=needs, breaks=breaks))


seed("s09-six", "C09", [(C + "name.go", "if c >= '1' && c <= '5' {", "if c >= '1' && c <= '6' {")], '''
	if chain.NewName("ab6") != chain.NewName("ab.") {
		fail(chain.NewName("ab6"))
	}
''', "a text with the character 6, which no name may contain", "the character 6 turns into the letter a")
seed("s09-last", "C09", [(C + "name.go", "\tif trimUpTo == -1 {\n", "\tif trimUpTo == -1 || trimUpTo == 12 && bytes[6] == '.' {\n")], '''
	if s := chain.NewName("abcdef.hijkl").String(); s != "abcdef.hijkl" {
		fail(s)
	}
''', "a twelve-character name with a dot in the seventh place", "the text of such a name keeps the trailing dot")
seed("s12-wide", "C12", [(C + "numbers.go", "if !ok || i.BitLen() > 128 || i.Sign() == -1 {", "if !ok || i.BitLen() > 129 || i.Sign() == -1 {")], '''
	defer func() {
		if r := recover(); r != nil {
			fail("panic", r)
		}
	}()
	if v, err := chain.NewUint128FromString("340282366920938463463374607431768211456"); err == nil {
		fail("accepted", v)
	}
''', "the text of 2^128 or a little above", "out of range text panics instead of giving an error")
seed("s12-pad", "C12", [(C + "numbers.go", "\t\tfor len(b) < 16 {\n\t\t\tb = append([]byte{0}, b...)\n", "\t\tfor len(b) < 16 {\n\t\t\tb = append([]byte{b[0] >> 7}, b...)\n")], '''
	v, err := chain.NewInt128FromString("200")
	if err != nil || v.Lo != 200 || v.Hi != 0 {
		fail(v, err)
	}
''', "a positive value whose leading byte is 0x80 or more", "padding of positive values copies the sign bit of the leading byte")
seed("s14-odd", "C14", [(C + "checksum.go", "\t_, data, err := d.ReadBytes(64)\n\tif err == nil {\n\t\tcopy((*c512)[:], data[:64])\n", "\t_, data, err := d.ReadBytes(64)\n\tif err == nil {\n\t\tcopy((*c512)[:], data[:63])\n")], '''
	b := make([]byte, 64)
	b[63] = 7
	var c chain.Checksum512
	if err := chain.NewDecoder(bytes.NewReader(b)).Decode(&c); err != nil || c[63] != 7 {
		fail(c, err)
	}
''', "a 512 bit digest whose last byte is not zero", "the last byte of a decoded checksum512 is lost", imp=IMP.replace('import (\n', 'import (\n\t"bytes"\n') if '"bytes"' not in IMP else IMP)
seed("s15-chunk", "C15", [(B + "base58.go", "for i := 0; i < 10; i++ {", "for i := 0; i < 10 && (m > 0 || i < 5 || x.BitLen() > 8); i++ {")], '''
	// 58^10 * 7 + 3: the low chunk is a single digit
	x := new(big.Int).Exp(big.NewInt(58), big.NewInt(10), nil)
	x.Mul(x, big.NewInt(7)).Add(x, big.NewInt(3))
	if s := base58.Encode(x.Bytes()); !bytes.Equal(base58.Decode(s), x.Bytes()) {
		fail(s)
	}
	_ = chain.Name(0)
''', "a number with a run of zero digits at the top of an ten-digit chunk below a one-byte top chunk", "zero digits inside the number are dropped",
     imp='package main\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"math/big"\n\t"os"\n\n\t"github.com/greymass/go-eosio/pkg/base58"\n\t"github.com/greymass/go-eosio/pkg/chain"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n')
seed("s17-wa", "C17", [(C + "signature.go", "\t\tn = binary.PutUvarint(tmp, uint64(cl))\n", "\t\tn = binary.PutUvarint(tmp, uint64(cl)&0x3fff)\n")], '''
	var raw bytes.Buffer
	raw.WriteByte(2)
	raw.Write(make([]byte, 65))
	raw.WriteByte(0)
	raw.Write([]byte{0x80, 0x80, 1})
	raw.Write(make([]byte, 0x4000))
	var s chain.Signature
	if err := chain.NewDecoder(bytes.NewReader(raw.Bytes())).Decode(&s); err != nil {
		fail(err)
	}
	var out bytes.Buffer
	if err := chain.NewEncoder(&out).Encode(s); err != nil || !bytes.Equal(out.Bytes(), raw.Bytes()) {
		fail(out.Len(), raw.Len(), err)
	}
''', "a WebAuthn signature with a client JSON of 16384 bytes or more", "the stored length is truncated, so encoding again gives other bytes", imp=IMP.replace('import (\n', 'import (\n\t"bytes"\n') if '"bytes"' not in IMP else IMP)
seed("s18-reset", "C18", [(R + "ripemd160.go", "\td.nx = 0\n\td.tc = 0\n", "\tif d.nx != BlockSize-1 {\n\t\td.nx = 0\n\t}\n\td.tc = 0\n")], '''
	defer func() {
		if r := recover(); r != nil {
			fail(r)
		}
	}()
	h := ripemd160.New()
	h.Write(make([]byte, 63))
	h.Reset()
	h.Write([]byte("abc"))
	if s := fmt.Sprintf("%x", h.Sum(nil)); s != "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" {
		fail(s)
	}
''', "Reset with a buffer one byte short of a block", "a reused hash starts with stale buffered bytes", imp=IMP.replace('\t"github.com/greymass/go-eosio/pkg/chain"\n', '\t"github.com/greymass/go-eosio/pkg/chain"\n\t"github.com/greymass/go-eosio/pkg/ripemd160"\n'))
seed("s20-block", "C20", [(C + "numbers.go", "\tif err == nil {\n\t\t*bn = BlockNum(v)\n\t}\n\treturn err\n}\n\n// json helpers", "\tif err == nil || v > 0 {\n\t\t*bn = BlockNum(v)\n\t}\n\treturn err\n}\n\n// json helpers")], '''
	fail("x")
''', "", "")
SEEDS.append(dict(id="s22-map", property="C22", edits=[(D, "if pv.IsNil() || pv.Len() != 0 {", "if pv.IsNil() || pv.Len()%2 != 0 {")], demo=ABI + '''
''' if False else IMP.replace('import (\n', 'import (\n\t"bytes"\n') if '"bytes"' not in IMP else IMP, needs="", breaks=""))
SEEDS[-1]["demo"] += '''
func main() {
	m := map[string]uint8{"old": 1, "older": 2}
	if err := chain.NewDecoder(bytes.NewReader([]byte{1, 1, 'a', 2})).Decode(&m); err != nil || len(m) != 1 || m["a"] != 2 {
		fail(m, err)
	}
}
'''
SEEDS[-1].update(needs="decoding a map into a variable that already holds an even number of entries", breaks="stale entries of the destination survive")
seed("s22-field", "C22", [(D, "\t\t\t\t\tif !exists {\n\t\t\t\t\t\tpv.Set(reflect.Zero(pv.Type()))\n", "\t\t\t\t\tif !exists {\n\t\t\t\t\t\tif pv.Kind() != reflect.String {\n\t\t\t\t\t\t\tpv.Set(reflect.Zero(pv.Type()))\n\t\t\t\t\t\t}\n")], '''
	type t struct {
		A string `eosio:"optional"`
		B uint8
	}
	v := t{A: "stale"}
	if err := chain.NewDecoder(bytes.NewReader([]byte{0, 5})).Decode(&v); err != nil || v.A != "" || v.B != 5 {
		fail(v, err)
	}
''', "an absent optional string field, decoded into a reused destination", "the old value of the destination stays", imp=IMP.replace('import (\n', 'import (\n\t"bytes"\n') if '"bytes"' not in IMP else IMP)
seed("s25-sec", "C25", [(C + "encoding.go", "\tcase *TimePointSec:\n\t\terr = v.UnmarshalABI(dec)\n", "\tcase *TimePointSec:\n\t\terr = (*BlockTimestamp)(v).UnmarshalABI(dec)\n\t\tif err != nil {\n\t\t\terr = nil\n\t\t}\n")], '''
	var v chain.TimePointSec
	if err := chain.NewDecoder(bytes.NewReader([]byte{1, 2})).Decode(&v); err == nil {
		fail(v, err)
	}
''', "a truncated time_point_sec", "the error of the type's own decoder is lost in the type switch", imp=IMP.replace('import (\n', 'import (\n\t"bytes"\n') if '"bytes"' not in IMP else IMP)
SEEDS.append(dict(id="s24-unknown", property="C24", edits=[(C + "abi.go", "tv := (*variant)[idx]\n", "tv := (*variant)[idx%128]\n")], demo="", needs="", breaks=""))
SEEDS = [s for s in SEEDS if s["id"] not in ("s20-block", "s24-unknown")]
