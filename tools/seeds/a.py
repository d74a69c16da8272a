E, D = "pkg/abi/encode.go", "pkg/abi/decode.go"
C = "pkg/chain/"
IMP = '''package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
)

var _ = bytes.NewReader
var _ = errors.New
var _ = fmt.Sprint
var _ io.Reader
var _ = reflect.DeepEqual
var _ abi.Marshaler
var _ chain.Name
var _ = base58.Encode

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

'''
SEEDS = [
    dict(id="s01-short-read", property="C01", edits=[(D, "an, err = io.ReadFull(dec.r, b)", "an, err = dec.r.Read(b)")],
         demo=IMP + '''
type one struct{ b []byte }

func (o *one) Read(p []byte) (int, error) {
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = o.b[0]
	o.b = o.b[1:]
	return 1, nil
}

func main() {
	v, err := chain.NewDecoder(&one{[]byte{1, 2, 3, 4, 5, 6, 7, 8}}).ReadUint64()
	if err != nil || v != 0x0807060504030201 {
		fail(v, err)
	}
}
''', needs="a reader that hands out its data in pieces", breaks="multi-byte values are assembled from a single short read"),
    dict(id="s01-bool", property="C01", edits=[(D, "return b != 0, err", "return b&1 != 0, err")],
         demo=IMP + '''
func main() {
	v, err := chain.NewDecoder(bytes.NewReader([]byte{2})).ReadBool()
	if err != nil || !v {
		fail(v, err)
	}
}
''', needs="a true bool encoded as an even non-zero byte", breaks="non-zero bytes read as false"),
    dict(id="s02-zigzag", property="C02", edits=[(E, "l := binary.PutVarint(b[:], int64(v))", "l := binary.PutUvarint(b[:], uint64(v<<1)^uint64(v>>31))")],
         demo=IMP + '''
func main() {
	for _, v := range []int{0, -1, 1 << 30, -1 << 31, 1 << 31, -1<<31 - 1, 1 << 40} {
		var b bytes.Buffer
		if err := chain.NewEncoder(&b).WriteVarint(v); err != nil {
			fail(err)
		}
		g, err := chain.NewDecoder(&b).ReadVarint()
		if err != nil || g != v {
			fail(v, g, err)
		}
	}
}
''', needs="a signed varint outside the 32-bit range", breaks="the zig-zag form is wrong for values beyond 32 bits"),
    dict(id="s02-trunc", property="C02", edits=[(D, "return uint(v), nil", "return uint(uint32(v)), nil")],
         demo=IMP + '''
func main() {
	var b bytes.Buffer
	if err := chain.NewEncoder(&b).WriteVaruint(1 << 32); err != nil {
		fail(err)
	}
	g, err := chain.NewDecoder(&b).ReadVaruint()
	if err != nil || g != 1<<32 {
		fail(g, err)
	}
}
''', needs="an unsigned varint of at least 2^32", breaks="the value read back is silently truncated"),
    dict(id="s03-runes", property="C03", edits=[(E, "err := enc.WriteVaruint(uint(len(v)))\n	if err != nil {\n		return err\n	}\n	return enc.WriteBytes([]byte(v))", "n := 0\n	for range v {\n		n++\n	}\n	err := enc.WriteVaruint(uint(n))\n	if err != nil {\n		return err\n	}\n	return enc.WriteBytes([]byte(v))")],
         demo=IMP + '''
func main() {
	var b bytes.Buffer
	if err := chain.NewEncoder(&b).WriteString("h\\u00e9"); err != nil {
		fail(err)
	}
	if !bytes.Equal(b.Bytes(), []byte{3, 'h', 0xc3, 0xa9}) {
		fail(b.Bytes())
	}
}
''', needs="a string with multi-byte characters", breaks="the length prefix counts characters instead of bytes"),
    dict(id="s03-alias", property="C03", edits=[(C + "bytes.go", "*b = data\n	}\n	return err\n}\n\n// encoding.TextMarshaler", "*b = append((*b)[:0], data...)\n	}\n	return err\n}\n\n// encoding.TextMarshaler")],
         demo=IMP + '''
func main() {
	d := chain.NewDecoder(bytes.NewReader([]byte{3, 1, 2, 3, 3, 7, 8, 9}))
	var b chain.Bytes
	if err := b.UnmarshalABI(d); err != nil {
		fail(err)
	}
	first := b
	if err := b.UnmarshalABI(d); err != nil {
		fail(err)
	}
	if !bytes.Equal(first, []byte{1, 2, 3}) || !bytes.Equal(b, []byte{7, 8, 9}) {
		fail(first, b)
	}
}
''', needs="decoding twice into the same variable while the first result is still in use", breaks="data returned earlier is overwritten by later decoding"),
    dict(id="s04-micros", property="C04", edits=[(C + "time.go", "return e.WriteInt64(int64(tp))", "return e.WriteInt64(int64(tp) / 1000 * 1000)")],
         demo=IMP + '''
func main() {
	var b bytes.Buffer
	if err := chain.TimePoint(1234567).MarshalABI(chain.NewEncoder(&b)); err != nil {
		fail(err)
	}
	var t chain.TimePoint
	if err := t.UnmarshalABI(chain.NewDecoder(&b)); err != nil || t != 1234567 {
		fail(t, err)
	}
}
''', needs="a time point that is not a whole number of milliseconds", breaks="microseconds are lost in the binary form"),
    dict(id="s05-authcount", property="C05", edits=[(C + "action.go", "l := uint(len(a.Authorization))", "l := uint(byte(len(a.Authorization)))")],
         demo=IMP + '''
func main() {
	a := chain.NewAction(1, 2, make([]chain.PermissionLevel, 256), nil)
	var b bytes.Buffer
	if err := a.MarshalABI(chain.NewEncoder(&b)); err != nil {
		fail(err)
	}
	if b.Len() != 16+2+256*16+1 {
		fail(b.Len())
	}
}
''', needs="an action with 256 or more authorizations", breaks="the element count wraps and authorizations are dropped"),
    dict(id="s05-cfa", property="C05", edits=[(C + "transaction.go", "l = uint(len(tx.Actions))\n	err = e.WriteVaruint(l)\n	if err != nil {\n		return err\n	}\n	for i := uint(0); i < l; i++ {\n		err = tx.Actions[i].MarshalABI(e)",
                                                "l = uint(len(tx.Actions))\n	err = e.WriteVaruint(l)\n	if err != nil {\n		return err\n	}\n	for i, act := uint(0), (*Action)(nil); i < l; i++ {\n		if i%64 == 0 {\n			act = &tx.Actions[i]\n		} else {\n			act = &tx.Actions[i&0x3f]\n		}\n		err = act.MarshalABI(e)")],
         demo=IMP + '''
func main() {
	var tx, got chain.Transaction
	for i := 0; i < 70; i++ {
		tx.Actions = append(tx.Actions, chain.Action{Account: chain.Name(i)})
	}
	var b bytes.Buffer
	if err := tx.MarshalABI(chain.NewEncoder(&b)); err != nil {
		fail(err)
	}
	if err := got.UnmarshalABI(chain.NewDecoder(&b)); err != nil {
		fail(err)
	}
	for i := range got.Actions {
		if got.Actions[i].Account != chain.Name(i) {
			fail(i, got.Actions[i].Account)
		}
	}
}
''', needs="a transaction with more than 65 actions", breaks="later actions are replaced by earlier ones"),
    dict(id="s06-wasig", property="C06", edits=[(C + "signature.go", "n = binary.PutUvarint(tmp, uint64(cl))", "binary.PutUvarint(tmp, uint64(cl))")],
         demo=IMP + '''
func main() {
	in := append([]byte{2}, make([]byte, 65)...)
	in = append(in, 3, 'a', 'b', 'c')
	in = append(in, 0xc8, 1)
	in = append(in, bytes.Repeat([]byte("x"), 200)...)
	var s chain.Signature
	if err := s.UnmarshalABI(chain.NewDecoder(bytes.NewReader(in))); err != nil {
		fail(err)
	}
	var b bytes.Buffer
	if err := s.MarshalABI(chain.NewEncoder(&b)); err != nil {
		fail(err)
	}
	if !bytes.Equal(b.Bytes(), in) {
		fail(b.Len(), len(in))
	}
}
''', needs="a WebAuthn signature whose two length prefixes differ in width", breaks="the second length prefix is cut short"),
    dict(id="s07-rpid", property="C07", edits=[(C + "public_key.go", "_, rpid, err := d.ReadBytes(int(l))\n		if err != nil {\n			return err\n		}", "_, rpid, _ := d.ReadBytes(int(l))")],
         demo=IMP + '''
func main() {
	in := append([]byte{2}, make([]byte, 34)...)
	in = append(in, 9, 'a', 'b', 'c')
	var k chain.PublicKey
	if err := k.UnmarshalABI(chain.NewDecoder(bytes.NewReader(in))); err == nil {
		fail("truncated key accepted", k)
	}
}
''', needs="a WebAuthn key cut short inside the relying party id", breaks="truncated input is accepted as a complete key"),
    dict(id="s08-account", property="C08", edits=[(C + "transaction.go", "	err = e.WriteUint16(txe.Type)\n	if err != nil {\n		return err\n	}\n", "	err = e.WriteUint16(txe.Type)\n")],
         demo=IMP + '''
type glitch struct{ n int }

func (g *glitch) Write(p []byte) (int, error) {
	g.n++
	if g.n == 1 {
		return 0, errors.New("glitch")
	}
	return len(p), nil
}

func main() {
	e := chain.TransactionExtension{Type: 1, Data: chain.Bytes{1}}
	if err := e.MarshalABI(chain.NewEncoder(&glitch{})); err == nil {
		fail("write error lost")
	}
}
''', needs="a writer that fails on one write and works again afterwards", breaks="the error is overwritten and success reported although bytes are missing"),
]
