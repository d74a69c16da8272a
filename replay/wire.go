package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime/metrics"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// ------------------------------------------------------------------ values

func (c *Ctx) f64() float64 {
	switch c.Intn(4) {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1}[c.Intn(10)]
	case 1:
		return math.Float64frombits(c.u64())
	}
	return math.Float64frombits(c.Uint64())
}

func (c *Ctx) f32() float32 {
	if c.p(2) {
		return math.Float32frombits(uint32(c.u64()))
	}
	return math.Float32frombits(c.Uint32())
}

func (c *Ctx) keyData(sig bool) (chain.KeyType, []byte) {
	t := chain.KeyType(c.Intn(3))
	if t == chain.WA {
		if sig {
			return t, cat(c.bytes(65), lp(c.part()), lp(c.part()))
		}
		return t, cat(c.bytes(34), lp(c.part()))
	}
	if sig {
		return t, c.bytes(65)
	}
	return t, c.bytes(33)
}

// part of web-authn data; now and then one whose length needs three bytes
func (c *Ctx) part() []byte {
	if !c.small && c.p(60) {
		return c.bytes([]int{16383, 16384, 16385, 16384 + c.Intn(5000), 65535, 65536, 65537}[c.Intn(7)])
	}
	return c.blob(400)
}

func (c *Ctx) permlevel() chain.PermissionLevel {
	return chain.PermissionLevel{Actor: chain.Name(c.u64()), Permission: chain.Name(c.u64())}
}

func (c *Ctx) count() int {
	switch c.Intn(12) {
	case 0:
		return []int{127, 128, 129, 200}[c.Intn(4)]
	case 1, 2, 3:
		return 0
	case 4:
		return c.length(300)
	}
	return c.Intn(5)
}

func (c *Ctx) action(small bool) chain.Action {
	a := chain.Action{Account: chain.Name(c.u64()), Name: chain.Name(c.u64())}
	n := c.count()
	if small {
		n = c.Intn(3)
	}
	for i := 0; i < n; i++ {
		a.Authorization = append(a.Authorization, c.permlevel())
	}
	if small {
		a.Data = c.bytes(c.Intn(6))
	} else {
		a.Data = c.blob(5000)
	}
	return a
}

func (c *Ctx) header() chain.TransactionHeader {
	return chain.TransactionHeader{Expiration: chain.TimePointSec(c.u64()), RefBlockNum: uint16(c.u64()), RefBlockPrefix: uint32(c.u64()),
		MaxNetUsageWords: uint(c.u64()), MaxCpuUsageMs: uint8(c.u64()), DelaySec: uint(c.u64())}
}

func (c *Ctx) tx() chain.Transaction {
	t := chain.Transaction{TransactionHeader: c.header()}
	n := [3]int{c.Intn(3), c.Intn(3), c.Intn(3)}
	n[c.Intn(3)] = c.count()
	for i := 0; i < n[0]; i++ {
		t.ContextFreeActions = append(t.ContextFreeActions, c.action(n[0] > 4))
	}
	for i := 0; i < n[1]; i++ {
		t.Actions = append(t.Actions, c.action(n[1] > 4))
	}
	for i := 0; i < n[2]; i++ {
		t.Extensions = append(t.Extensions, chain.TransactionExtension{Type: uint16(c.u64()), Data: c.blob(300)})
	}
	return t
}

var primKinds = []string{"bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"}
var varKinds = []string{"uint", "int"}
var strKinds = []string{"string", "[]byte", "Bytes", "Blob"}
var scalarKinds = []string{"Name", "Symbol", "SymbolCode", "Uint64", "BlockNum", "TimePoint", "TimePointSec", "BlockTimestamp", "Uint128", "Int128",
	"Float128", "Checksum160", "Checksum256", "Checksum512", "Asset", "ExtendedAsset"}
var txKinds = []string{"PermissionLevel", "Action", "TransactionHeader", "TransactionExtension", "Transaction"}
var keyKinds = []string{"PublicKey", "Signature"}

func allKinds() []string {
	var r []string
	for _, k := range [][]string{primKinds, varKinds, strKinds, scalarKinds, txKinds, keyKinds} {
		r = append(r, k...)
	}
	return r
}

func (c *Ctx) value(kind string) interface{} {
	u := c.u64()
	switch kind {
	case "bool":
		return u&1 == 1
	case "uint8":
		return uint8(u)
	case "uint16":
		return uint16(u)
	case "uint32":
		return uint32(u)
	case "uint64":
		return u
	case "int8":
		return int8(u)
	case "int16":
		return int16(u)
	case "int32":
		return int32(u)
	case "int64":
		return int64(u)
	case "float32":
		return c.f32()
	case "float64":
		return c.f64()
	case "uint":
		return uint(u)
	case "int":
		return int(u)
	case "string":
		return c.str(c.big())
	case "[]byte":
		return c.blob(c.big())
	case "Bytes":
		return chain.Bytes(c.blob(c.big()))
	case "Blob":
		return chain.Blob(c.blob(c.big()))
	case "Name":
		return chain.Name(u)
	case "Symbol":
		return chain.Symbol(u)
	case "SymbolCode":
		return chain.SymbolCode(u)
	case "Uint64":
		return chain.Uint64(u)
	case "BlockNum":
		return chain.BlockNum(u)
	case "TimePoint":
		return chain.TimePoint(u)
	case "TimePointSec":
		return chain.TimePointSec(u)
	case "BlockTimestamp":
		return chain.BlockTimestamp(u)
	case "Uint128":
		return chain.Uint128{Lo: u, Hi: c.u64()}
	case "Int128":
		return chain.Int128{Lo: u, Hi: c.u64()}
	case "Float128":
		var x chain.Float128
		copy(x.Data[:], c.bytes(16))
		return x
	case "Checksum160":
		var x chain.Checksum160
		copy(x[:], c.bytes(20))
		return x
	case "Checksum256":
		var x chain.Checksum256
		copy(x[:], c.bytes(32))
		return x
	case "Checksum512":
		var x chain.Checksum512
		copy(x[:], c.bytes(64))
		return x
	case "Asset":
		return chain.Asset{Value: int64(u), Symbol: chain.Symbol(c.u64())}
	case "ExtendedAsset":
		return chain.ExtendedAsset{Quantity: chain.Asset{Value: int64(u), Symbol: chain.Symbol(c.u64())}, Contract: chain.Name(c.u64())}
	case "PermissionLevel":
		return c.permlevel()
	case "Action":
		return c.action(false)
	case "TransactionHeader":
		return c.header()
	case "TransactionExtension":
		return chain.TransactionExtension{Type: uint16(u), Data: c.blob(3000)}
	case "Transaction":
		return c.tx()
	case "PublicKey":
		t, d := c.keyData(false)
		return chain.PublicKey{Type: t, Data: d}
	case "Signature":
		t, d := c.keyData(true)
		return chain.Signature{Type: t, Data: d}
	}
	panic("harness: kind " + kind)
}

func (c *Ctx) big() int {
	if c.p(40) {
		return 200000
	}
	return 2000
}

// direct calls of the typed writers and readers, where they exist
func writeDirect(e *abi.Encoder, v interface{}) (bool, error) {
	switch x := v.(type) {
	case bool:
		return true, e.WriteBool(x)
	case uint8:
		return true, e.WriteUint8(x)
	case uint16:
		return true, e.WriteUint16(x)
	case uint32:
		return true, e.WriteUint32(x)
	case uint64:
		return true, e.WriteUint64(x)
	case int8:
		return true, e.WriteInt8(x)
	case int16:
		return true, e.WriteInt16(x)
	case int32:
		return true, e.WriteInt32(x)
	case int64:
		return true, e.WriteInt64(x)
	case float32:
		return true, e.WriteFloat32(x)
	case float64:
		return true, e.WriteFloat64(x)
	case uint:
		return true, e.WriteVaruint(x)
	case int:
		return true, e.WriteVarint(x)
	case string:
		return true, e.WriteString(x)
	}
	// pointer to a copy: covers both receiver kinds
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	if m, ok := p.Interface().(abi.Marshaler); ok {
		return true, m.MarshalABI(e)
	}
	return false, nil
}

func readDirect(d *abi.Decoder, p interface{}) (bool, error) {
	var err error
	switch x := p.(type) {
	case *bool:
		*x, err = d.ReadBool()
	case *uint8:
		*x, err = d.ReadUint8()
	case *uint16:
		*x, err = d.ReadUint16()
	case *uint32:
		*x, err = d.ReadUint32()
	case *uint64:
		*x, err = d.ReadUint64()
	case *int8:
		*x, err = d.ReadInt8()
	case *int16:
		*x, err = d.ReadInt16()
	case *int32:
		*x, err = d.ReadInt32()
	case *int64:
		*x, err = d.ReadInt64()
	case *float32:
		*x, err = d.ReadFloat32()
	case *float64:
		*x, err = d.ReadFloat64()
	case *uint:
		*x, err = d.ReadVaruint()
	case *int:
		*x, err = d.ReadVarint()
	case *string:
		*x, err = d.ReadString()
	default:
		if u, ok := p.(abi.Unmarshaler); ok {
			return true, u.UnmarshalABI(d)
		}
		return false, nil
	}
	return true, err
}

func show(v interface{}) string { return fmt.Sprintf("%#v", v) }

// fresh: a zero or a used target of the same type
func (c *Ctx) target(kind string, v interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(v))
	if c.p(2) {
		p.Elem().Set(reflect.ValueOf(c.value(kind)))
	}
	return p.Interface()
}

func (c *Ctx) encode(v interface{}) ([]byte, error) {
	var w bytes.Buffer
	e := chain.NewEncoder(&w)
	var err error
	if c.p(2) {
		done, er := writeDirect(e, v)
		if !done {
			er = e.Encode(v)
		}
		err = er
	} else if c.p(3) {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		err = e.Encode(p.Interface())
	} else {
		err = e.Encode(v)
	}
	return w.Bytes(), err
}

func (c *Ctx) decode(p interface{}, r io.Reader) error {
	d := chain.NewDecoder(r)
	if c.p(2) {
		if done, err := readDirect(d, p); done {
			return err
		}
	}
	return d.Decode(p)
}

// encoding equals the reference, decoding inverts it and consumes exactly those bytes, truncation is an error
func roundtrip(c *Ctx, kind string) {
	v := c.value(kind)
	want := ref(v)
	c.note("%s value %s", kind, show(v))
	got, err := c.encode(v)
	c.check(err == nil, "encoding failed: %v", err)
	c.check(bytes.Equal(got, want), "encoded as %s, want %s", hx(got), hx(want))
	checkDecode(c, kind, v, want)
	if len(want) > 0 {
		k := c.Intn(len(want))
		if c.p(3) {
			k = len(want) - 1
		}
		c.note("decoding the first %d bytes", k)
		r := c.reader(want[:k])
		p := c.target(kind, v)
		err := c.decode(p, r)
		c.check(err != nil, "truncated input %s (%d of %d bytes) decoded without an error as %s", hx(want[:k]), k, len(want), show(reflect.ValueOf(p).Elem().Interface()))
	}
}

func checkDecode(c *Ctx, kind string, v interface{}, wire []byte) {
	tail := c.bytes(c.Intn(4))
	r := c.reader(cat(wire, tail))
	p := c.target(kind, v)
	c.note("decoding %s followed by %x, reader style %d", hx(wire), tail, r.style)
	err := c.decode(p, r)
	c.check(err == nil, "decoding failed: %v", err)
	got := reflect.ValueOf(p).Elem().Interface()
	c.check(bytes.Equal(ref(got), ref(v)), "decoded as %s, want %s", show(got), show(v))
	c.check(r.pos == len(wire), "consumed %d bytes, want %d", r.pos, len(wire))
}

// an arbitrary byte string as a varint
func (c *Ctx) rawVar() []byte {
	if len(c.blobs) > 0 && c.p(4) {
		return c.blob(12)
	}
	n := 1 + c.Intn(11)
	b := c.bytes(n)
	for i := 0; i < n-1; i++ {
		b[i] |= 128
	}
	if c.p(2) {
		b[n-1] &= 127
	}
	if c.p(3) {
		b[n-1] = byte(c.Intn(3))
	}
	return b
}

func init() {
	for _, k := range primKinds {
		k := k
		reg("C01", "roundtrip "+k, func(c *Ctx) { roundtrip(c, k) })
	}
	reg("C01", "any byte is a bool", func(c *Ctx) {
		b := c.bytes(1 + c.Intn(3))
		c.note("bytes %x", b)
		r := c.reader(b)
		v, err := chain.NewDecoder(r).ReadBool()
		c.check(err == nil && v == (b[0] != 0) && r.pos == 1, "ReadBool = %v, %v after %d bytes", v, err, r.pos)
	})
	reg("C01", "sequence", func(c *Ctx) { sequence(c, primKinds) })

	for _, k := range varKinds {
		k := k
		reg("C02", "roundtrip "+k, func(c *Ctx) { roundtrip(c, k) })
	}
	reg("C02", "arbitrary varints", func(c *Ctx) {
		b := c.rawVar()
		c.note("bytes %x", b)
		v, n, ok := uvarRead(b)
		r := c.reader(b)
		d := chain.NewDecoder(r)
		if c.p(2) {
			g, err := d.ReadVaruint()
			c.check((err == nil) == ok, "ReadVaruint error %v, want ok=%v", err, ok)
			if ok {
				c.check(uint64(g) == v && r.pos == n, "ReadVaruint = %d after %d bytes, want %d after %d", g, r.pos, v, n)
			}
		} else {
			g, err := d.ReadVarint()
			w := int64(v >> 1)
			if v&1 == 1 {
				w = -w - 1
			}
			c.check((err == nil) == ok, "ReadVarint error %v, want ok=%v", err, ok)
			if ok {
				c.check(int64(g) == w && r.pos == n, "ReadVarint = %d after %d bytes, want %d after %d", g, r.pos, w, n)
			}
		}
	})
	reg("C02", "sequence", func(c *Ctx) { sequence(c, varKinds) })

	for _, k := range strKinds {
		k := k
		reg("C03", "roundtrip "+k, func(c *Ctx) { roundtrip(c, k) })
	}
	reg("C03", "raw bytes", func(c *Ctx) {
		b := c.blob(c.big())
		n := len(b)
		switch c.Intn(4) {
		case 0:
			n = c.Intn(len(b) + 1)
		case 1:
			n = len(b) + 1 + c.Intn(100)
		case 2:
			n = int(c.u64())
		}
		c.note("ReadBytes(%d) of %s", n, hx(b))
		r := c.reader(b)
		an, got, err := chain.NewDecoder(r).ReadBytes(n)
		if n >= 0 && n <= len(b) {
			c.check(err == nil && an == n && bytes.Equal(got, b[:n]) && r.pos == n, "= %d, %s, %v", an, hx(got), err)
		} else {
			c.check(err != nil, "= %d, %s without an error", an, hx(got))
		}
		var w bytes.Buffer
		err = chain.NewEncoder(&w).WriteBytes(b)
		c.check(err == nil && bytes.Equal(w.Bytes(), b), "WriteBytes(%s) wrote %s, %v", hx(b), hx(w.Bytes()), err)
	})
	reg("C03", "announced lengths", func(c *Ctx) {
		kind := strKinds[c.Intn(len(strKinds))]
		b := c.blob(300)
		l := c.u64()
		if c.p(2) {
			l = uint64(len(b) + c.Intn(5) - 2)
		}
		in := cat(uvar(l), b)
		c.note("%s: length %d, data %s", kind, l, hx(b))
		p := c.target(kind, c.value(kind))
		r := c.reader(in)
		err := c.decode(p, r)
		ok := l <= uint64(len(b))
		c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
		if ok {
			c.check(bytes.Equal(ref(reflect.ValueOf(p).Elem().Interface()), cat(uvar(l), b[:l])), "decoded %s", show(reflect.ValueOf(p).Elem().Interface()))
		}
	})
	reg("C03", "sequence", func(c *Ctx) { sequence(c, strKinds) })

	for _, k := range scalarKinds {
		k := k
		reg("C04", "roundtrip "+k, func(c *Ctx) { roundtrip(c, k) })
	}
	for _, k := range txKinds {
		k := k
		reg("C05", "roundtrip "+k, func(c *Ctx) { roundtrip(c, k) })
	}
	for _, k := range keyKinds {
		k := k
		reg("C06", "roundtrip "+k, func(c *Ctx) { roundtrip(c, k) })
	}
	reg("C06", "decoding by type byte", func(c *Ctx) {
		sig := c.p(2)
		in := cat([]byte{byte(c.Intn(5))}, c.bytes(60+c.Intn(80)))
		if c.p(3) {
			in[0] = byte(c.u64())
		}
		if c.p(3) {
			in = in[:c.Intn(len(in)+1)]
		}
		if c.p(3) && len(in) > 67 {
			in[35] = byte(c.Intn(40))
			in[66] = byte(c.Intn(30))
		}
		c.note("signature=%v input %s", sig, hx(in))
		want, n, ok := refKey(in, sig)
		r := c.reader(in)
		var got []byte
		var t chain.KeyType
		var err error
		if sig {
			var x chain.Signature
			err = c.decode(&x, r)
			got, t = x.Data, x.Type
		} else {
			var x chain.PublicKey
			err = c.decode(&x, r)
			got, t = x.Data, x.Type
		}
		c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
		if ok {
			c.check(bytes.Equal(got, want) && byte(t) == in[0] && r.pos == n, "decoded type %d data %s after %d bytes, want %s after %d", t, hx(got), r.pos, hx(want), n)
		}
	})

	for _, k := range allKinds() {
		k := k
		reg("C07", "hostile "+k, func(c *Ctx) { hostile(c, k) })
		reg("C08", "failing writer "+k, func(c *Ctx) { failing(c, k) })
	}
	reg("C07", "huge counts", func(c *Ctx) { hugeCounts(c) })
}

// refKey: reference decoding of keys: data, bytes consumed, ok
func refKey(in []byte, sig bool) ([]byte, int, bool) {
	if len(in) < 1 || in[0] > 2 {
		return nil, 0, false
	}
	n, parts := 33, 0
	if sig {
		n = 65
	}
	if in[0] == 2 {
		if sig {
			n, parts = 65, 2
		} else {
			n, parts = 34, 1
		}
	}
	if len(in) < 1+n {
		return nil, 0, false
	}
	data := append([]byte{}, in[1:1+n]...)
	p := 1 + n
	for ; parts > 0; parts-- {
		l, k, ok := uvarRead(in[p:])
		if !ok || l > uint64(len(in)-p-k) {
			return nil, 0, false
		}
		data = append(data, uvar(l)...)
		data = append(data, in[p+k:p+k+int(l)]...)
		p += k + int(l)
	}
	return data, p, true
}

// several values through one encoder and one decoder
func sequence(c *Ctx, kinds []string) {
	n := 1 + c.Intn(6)
	var vs []interface{}
	var ks []string
	var want []byte
	var w bytes.Buffer
	e := chain.NewEncoder(&w)
	for i := 0; i < n; i++ {
		k := kinds[c.Intn(len(kinds))]
		v := c.value(k)
		ks = append(ks, k)
		vs = append(vs, v)
		c.note("%s %s", k, show(v))
		want = append(want, ref(v)...)
		var err error
		done := false
		if c.p(2) {
			done, err = writeDirect(e, v)
		}
		if !done {
			err = e.Encode(v)
		}
		c.check(err == nil, "encoding failed: %v", err)
	}
	c.check(bytes.Equal(w.Bytes(), want), "encoded as %s, want %s", hx(w.Bytes()), hx(want))
	d := chain.NewDecoder(c.reader(want))
	for i, v := range vs {
		p := c.target(ks[i], v)
		done := false
		var err error
		if c.p(2) {
			done, err = readDirect(d, p)
		}
		if !done {
			err = d.Decode(p)
		}
		c.check(err == nil, "decoding value %d failed: %v", i, err)
		got := reflect.ValueOf(p).Elem().Interface()
		c.check(bytes.Equal(ref(got), ref(v)), "value %d decoded as %s, want %s", i, show(got), show(v))
	}
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

const allocBase = 4 << 20 // an up-front allocation below this is fine

// noBlowup runs f and fails when it allocates out of proportion to n input bytes
func noBlowup(c *Ctx, n int, f func()) {
	a := allocated()
	f()
	d := allocated() - a
	c.check(d < allocBase+uint64(n)*512, "allocated %d bytes for %d bytes of input", d, n)
}

func (c *Ctx) hostileBytes(kind string) []byte {
	if c.p(5) {
		return c.blob(200)
	}
	v := c.value(kind)
	b := ref(v)
	if len(b) > 3000 {
		b = b[:3000]
	}
	b = append([]byte{}, b...)
	for k := 1 + c.Intn(3); k > 0 && len(b) > 0; k-- {
		i := c.Intn(len(b))
		if c.p(2) && len(b) > 20 {
			i = c.Intn(24) % len(b)
		}
		switch c.Intn(6) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(c.Intn(256))
		case 2: // a huge count
			b = cat(b[:i], uvar(c.u64()), b[i:])
		case 3:
			b = cat(b[:i], uvar(c.u64()), b[i+1:])
		case 4:
			b[i] = 0xff
		case 5:
			b = cat(b[:i], c.bytes(c.Intn(12)), b[i:])
		}
	}
	return b
}

func hostile(c *Ctx, kind string) {
	b := c.hostileBytes(kind)
	c.note("%s from %s", kind, hx(b))
	p := c.target(kind, c.value(kind))
	r := c.reader(b)
	var err error
	noBlowup(c, len(b), func() { err = c.decode(p, r) })
	c.check(r.pos <= len(b), "read past the end")
	if err == nil && r.pos > 0 {
		// what was accepted needs all the bytes it consumed
		in := b[:c.Intn(r.pos)]
		c.note("accepted %d bytes, now the first %d", r.pos, len(in))
		p := c.target(kind, c.value(kind))
		err := c.decode(p, c.reader(in))
		c.check(err != nil, "a strict prefix (%d of %d bytes) decoded without an error", len(in), r.pos)
	}
	if err != nil && r.end == io.EOF && r.pos < len(b) {
		// an error before the end of input is not cured by more input
		c.note("error %v", err)
		p := c.target(kind, c.value(kind))
		err := c.decode(p, c.reader(cat(b, c.bytes(40))))
		_ = err
	}
}

type hugeT struct {
	A []uint64
}

// huge announced element counts in front of little data
func hugeCounts(c *Ctx) {
	n := c.u64()
	if n < 1<<16 {
		n += 1 << 20
	}
	data := c.bytes(c.Intn(64))
	in := cat(uvar(n), data)
	targets := []interface{}{new([]uint64), new([]string), new([][]byte), new(string), new([]byte), new(chain.Bytes), new(chain.Blob),
		new(map[string]uint64), new(map[uint64]string), new([]chain.Action), new(hugeT), new([]chain.Name), new([]*uint32), new([][2]uint64), new([][]uint16)}
	p := targets[c.Intn(len(targets))]
	c.note("%T from count %d, %x", p, n, data)
	var err error
	noBlowup(c, len(in), func() { err = chain.NewDecoder(c.reader(in)).Decode(p) })
	c.check(err != nil, "decoded %d elements out of %d bytes", n, len(data))
}

func failing(c *Ctx, kind string) {
	v := c.value(kind)
	if s, ok := v.(string); ok && len(s) > 3000 {
		v = s[:3000]
	}
	want := ref(v)
	c.note("%s value %s", kind, show(v))
	if c.p(3) {
		g := &glitch{at: 1 + c.Intn(8)}
		c.note("write %d fails once", g.at)
		err := encodeTo(c, g, v)
		if g.hit {
			c.check(err != nil, "a failed write was not reported")
		} else {
			c.check(err == nil && bytes.Equal(g.buf.Bytes(), want), "wrote %s, error %v, want %s", hx(g.buf.Bytes()), err, hx(want))
		}
		return
	}
	lim := c.Intn(len(want) + 2)
	if c.p(4) {
		lim = len(want) - 1
	}
	if lim < 0 {
		lim = 0
	}
	w := &lw{limit: lim, style: c.Intn(2)}
	c.note("writer accepts %d of %d bytes", lim, len(want))
	err := encodeTo(c, w, v)
	if lim < len(want) {
		c.check(err != nil, "a failed write was not reported")
		c.check(bytes.HasPrefix(want, w.buf.Bytes()), "wrote %s before failing, want a prefix of %s", hx(w.buf.Bytes()), hx(want))
	} else {
		c.check(err == nil && bytes.Equal(w.buf.Bytes(), want), "wrote %s, error %v, want %s", hx(w.buf.Bytes()), err, hx(want))
	}
}

func encodeTo(c *Ctx, w io.Writer, v interface{}) error {
	e := chain.NewEncoder(w)
	if c.p(2) {
		if done, err := writeDirect(e, v); done {
			return err
		}
	}
	return e.Encode(v)
}
