package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// ------------------------------------------------------------------ random Go types and values

type NU64 uint64
type NU32 uint32
type NI64 int64
type NI32 int32

type Inner struct {
	A uint16
	B string
}

type Tagged struct {
	A *uint32 `eosio:"optional"`
	B string  `eosio:"optional"`
	C *Inner  `eosio:"optional"`
	D Inner   `eosio:"optional"`
	E uint8
}

type Ptrs struct {
	A *uint64
	B **uint16
	C *Inner
	D []*Inner
	E [2]*uint8
}

// own codec on the value
type Own struct{ V uint16 }

func (o Own) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteByte(byte(o.V >> 8)); err != nil {
		return err
	}
	return e.WriteByte(byte(o.V))
}

func (o *Own) UnmarshalABI(d *abi.Decoder) error {
	h, err := d.ReadByte()
	if err != nil {
		return err
	}
	l, err := d.ReadByte()
	if err == nil {
		o.V = uint16(h)<<8 | uint16(l)
	}
	return err
}

var leafTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(int(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(""), reflect.TypeOf([]byte{}),
	reflect.TypeOf(NU64(0)), reflect.TypeOf(NU32(0)), reflect.TypeOf(NI64(0)), reflect.TypeOf(NI32(0)),
	reflect.TypeOf(Inner{}), reflect.TypeOf(Tagged{}), reflect.TypeOf(Ptrs{}), reflect.TypeOf(Own{}),
	reflect.TypeOf(chain.Name(0)), reflect.TypeOf(chain.Asset{}), reflect.TypeOf(chain.Checksum256{}), reflect.TypeOf(chain.Bytes{}), reflect.TypeOf(chain.Uint128{}),
	reflect.TypeOf(chain.PermissionLevel{}), reflect.TypeOf(chain.TimePointSec(0)), reflect.TypeOf(chain.Symbol(0)), reflect.TypeOf(chain.ExtendedAsset{}),
}

var bigArrays = []int{16, 32, 33, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000, 1024, 1025}

var keyTypes = []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(""), reflect.TypeOf(chain.Name(0)), reflect.TypeOf(NU64(0)), reflect.TypeOf(int64(0))}

func (c *Ctx) typ(depth int) reflect.Type {
	if depth <= 0 || c.p(3) {
		return leafTypes[c.Intn(len(leafTypes))]
	}
	switch c.Intn(6) {
	case 0:
		return reflect.SliceOf(c.typ(depth - 1))
	case 1:
		if c.p(10) {
			return reflect.ArrayOf(bigArrays[c.Intn(len(bigArrays))], leafTypes[c.Intn(9)])
		}
		return reflect.ArrayOf(c.Intn(4), c.typ(depth-1))
	case 2:
		return reflect.PtrTo(c.typ(depth - 1))
	case 3:
		return reflect.MapOf(keyTypes[c.Intn(len(keyTypes))], c.typ(depth-1))
	}
	return c.structType(depth, false)
}

func (c *Ctx) structType(depth int, ext bool) reflect.Type {
	var fs []reflect.StructField
	n := c.Intn(5)
	if c.p(12) {
		n = 5 + c.Intn(30)
	}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: c.typ(depth - 1)}
		if c.p(3) {
			f.Tag = `eosio:"optional"`
		} else if c.p(8) {
			f.Tag = `json:"x,omitempty"`
		}
		fs = append(fs, f)
	}
	if ext {
		for i := 0; i < 1+c.Intn(2); i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: c.typ(1), Tag: `eosio:"extension"`})
		}
	}
	return reflect.StructOf(fs)
}

// fill makes a random value; nil pointers only where optional
func (c *Ctx) fill(v reflect.Value, opt bool) {
	if opt && c.p(3) {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(c.p(2))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(c.u64() & (math.MaxUint64 >> uint(64-v.Type().Bits())))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(int64(c.u64()) >> uint(64-v.Type().Bits()))
	case reflect.Float32:
		v.SetFloat(float64(float32(c.Intn(1000)) / 8))
	case reflect.Float64:
		v.SetFloat(float64(c.Intn(100000)) / 7)
	case reflect.String:
		v.SetString(c.str(40))
	case reflect.Slice:
		if c.p(6) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := c.Intn(4)
		if c.p(25) {
			n = c.length(300)
			if n > 20 && v.Type().Elem().Size() > 16 && !c.p(6) {
				n = 20
			}
		}
		if c.p(400) && v.Type().Elem().Kind() == reflect.Uint64 {
			n = 1000 + c.Intn(60)
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c.fill(v.Index(i), false)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.fill(v.Index(i), false)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		c.fill(v.Elem(), false)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := c.Intn(2 + c.maps); n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			c.fill(k, false)
			e := reflect.New(v.Type().Elem()).Elem()
			c.fill(e, false)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.fill(v.Field(i), v.Type().Field(i).Tag.Get("eosio") == "optional")
		}
	default:
		panic("harness: kind " + v.Kind().String())
	}
}

// same: equal up to nil/empty slices and maps and float NaN
func same(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() || !same(a.MapIndex(k), x) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// an optional part that is present with a zero non-pointer value is written as absent, so it reads back as zero: same value
func (c *Ctx) goValue(depth int) (reflect.Type, reflect.Value) {
	t := c.typ(depth)
	if c.p(2) {
		t = c.structType(depth, false)
	}
	p := reflect.New(t)
	c.fill(p.Elem(), false)
	return t, p
}

func desc(t reflect.Type, v reflect.Value) string {
	s := fmt.Sprintf("%v", t)
	return s + " = " + deep(v, 0)
}

func deep(v reflect.Value, d int) string {
	if d > 6 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + deep(v.Elem(), d+1)
	case reflect.Struct:
		var f []string
		for i := 0; i < v.NumField(); i++ {
			f = append(f, deep(v.Field(i), d+1))
		}
		return "{" + strings.Join(f, " ") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v.Bytes())
		}
		var f []string
		for i := 0; i < v.Len() && i < 30; i++ {
			f = append(f, deep(v.Index(i), d+1))
		}
		return "[" + strings.Join(f, " ") + "]"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

type variantT struct {
	A *uint8
	B *string
	C *Inner
	D *chain.Name
}

type withVariant struct {
	P uint8
	V variantT `eosio:"variant"`
	Q uint8
}

func refGo(v interface{}) (b []byte) {
	return refOwn(reflect.ValueOf(v))
}

// reference including Own
func refOwn(v reflect.Value) []byte {
	if o, ok := v.Interface().(Own); ok {
		return []byte{byte(o.V >> 8), byte(o.V)}
	}
	if isLeaf(v.Type()) {
		return ref(v.Interface())
	}
	switch v.Kind() {
	case reflect.Ptr:
		return refOwn(v.Elem())
	case reflect.Slice, reflect.Array:
		var r []byte
		if v.Kind() == reflect.Slice {
			r = uvar(uint64(v.Len()))
		}
		for i := 0; i < v.Len(); i++ {
			r = append(r, refOwn(v.Index(i))...)
		}
		return r
	case reflect.Map:
		r := uvar(uint64(v.Len()))
		for _, k := range v.MapKeys() {
			r = append(r, refOwn(k)...)
			r = append(r, refOwn(v.MapIndex(k))...)
		}
		return r
	case reflect.Struct:
		var r []byte
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Tag.Get("eosio") == "optional" {
				if f.IsZero() {
					r = append(r, 0)
					continue
				}
				r = append(r, 1)
			}
			r = append(r, refOwn(f)...)
		}
		return r
	}
	return ref(v.Interface())
}

func isLeaf(t reflect.Type) bool {
	return t.PkgPath() == "github.com/greymass/go-eosio/pkg/chain" || t == reflect.TypeOf([]byte{})
}

func init() {
	reg("C03", "earlier data stays", func(c *Ctx) {
		kind := strKinds[c.Intn(len(strKinds))]
		v1, v2 := c.value(kind), c.value(kind)
		in := cat(ref(v1), ref(v2))
		c.note("%s: %s then %s", kind, show(v1), show(v2))
		r := c.reader(in)
		p := reflect.New(reflect.TypeOf(v1))
		err := c.decode(p.Interface(), r)
		c.check(err == nil, "decoding failed: %v", err)
		first := p.Elem().Interface()
		err = c.decode(p.Interface(), r)
		c.check(err == nil, "decoding failed: %v", err)
		c.check(bytes.Equal(ref(first), ref(v1)), "the value decoded first became %s", show(first))
		c.check(bytes.Equal(ref(p.Elem().Interface()), ref(v2)), "the second value is %s", show(p.Elem().Interface()))
	})
	reg("C21", "values", func(c *Ctx) {
		t, p := c.goValue(3)
		c.note("%s", desc(t, p.Elem()))
		want := refOwn(p.Elem())
		var w bytes.Buffer
		e := chain.NewEncoder(&w)
		var err error
		if c.p(2) {
			err = e.Encode(p.Interface())
		} else {
			err = e.Encode(p.Elem().Interface())
		}
		c.check(err == nil, "encoding failed: %v", err)
		c.check(bytes.Equal(w.Bytes(), want), "encoded as %s, want %s", hx(w.Bytes()), hx(want))
		if len(want) > 0 {
			l := &lw{limit: c.Intn(len(want))}
			err = chain.NewEncoder(l).Encode(p.Interface())
			c.check(err != nil, "a failed write was not reported")
		}
	})
	reg("C21", "maps", func(c *Ctx) {
		m := map[uint32]string{}
		for i := c.Intn(6); i > 0; i-- {
			m[uint32(c.u64())] = c.str(10)
		}
		c.note("map %#v", m)
		var w bytes.Buffer
		err := chain.NewEncoder(&w).Encode(m)
		c.check(err == nil, "encoding failed: %v", err)
		b := w.Bytes()
		n, k, ok := uvarRead(b)
		c.check(ok && n == uint64(len(m)), "count %d", n)
		b = b[k:]
		seen := map[uint32]bool{}
		for i := 0; i < len(m); i++ {
			c.check(len(b) >= 4, "short")
			key := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
			s, in := m[key]
			c.check(in && !seen[key], "key %d", key)
			seen[key] = true
			x := lp([]byte(s))
			c.check(bytes.HasPrefix(b[4:], x), "value of %d", key)
			b = b[4+len(x):]
		}
		c.check(len(b) == 0, "extra bytes")
	})
	reg("C21", "unsupported", func(c *Ctx) {
		var np *uint32
		var ni interface{}
		var ns *Inner
		bad := []interface{}{nil, np, ns, make(chan int), func() {}, struct{ A chan int }{}, []interface{}{nil}, struct{ A interface{} }{ni}, struct{ A *uint8 }{}, [1]*uint8{}, []*Inner{nil},
			map[string]*uint8{"a": nil}, complex(1, 1), (*chain.Action)(nil), (*chain.Name)(nil), struct{ A *chain.Transaction }{}, uintptr(3), &np, [][]*uint8{{nil}},
			[]chan int{nil}, map[string]func(){"a": nil}}
		x := bad[c.Intn(len(bad))]
		c.note("%T", x)
		err := chain.NewEncoder(&bytes.Buffer{}).Encode(x)
		c.check(err != nil, "no error")
	})
	reg("C22", "values", func(c *Ctx) {
		c.maps = c.Intn(6)
		t, p := c.goValue(3)
		c.note("%s", desc(t, p.Elem()))
		wire := refOwn(p.Elem())
		q := reflect.New(t)
		if c.p(2) {
			c.fill(q.Elem(), false)
			c.note("into %s", deep(q.Elem(), 0))
		}
		r := c.reader(cat(wire, c.bytes(c.Intn(3))))
		err := chain.NewDecoder(r).Decode(q.Interface())
		c.check(err == nil, "decoding %s failed: %v", hx(wire), err)
		c.check(same(q.Elem(), p.Elem()), "decoded as %s", deep(q.Elem(), 0))
		c.check(r.pos == len(wire), "consumed %d bytes, want %d", r.pos, len(wire))
		if c.p(4) {
			q := reflect.New(t)
			err := chain.Action{Data: wire}.DecodeInto(q.Interface())
			c.check(err == nil && same(q.Elem(), p.Elem()), "action data decoded as %s, %v", deep(q.Elem(), 0), err)
		}
		if len(wire) > 0 {
			k := c.Intn(len(wire))
			q := reflect.New(t)
			err := chain.NewDecoder(c.reader(wire[:k])).Decode(q.Interface())
			c.check(err != nil, "%d of %d bytes decoded without an error", k, len(wire))
		}
	})
	reg("C22", "extensions", func(c *Ctx) {
		t := c.structType(2, true)
		p := reflect.New(t)
		c.fill(p.Elem(), false)
		c.note("%s", desc(t, p.Elem()))
		var n int
		for n < t.NumField() && t.Field(n).Tag.Get("eosio") != "extension" {
			n++
		}
		keep := n + c.Intn(t.NumField()-n+1)
		var wire []byte
		for i := 0; i < keep; i++ {
			f := p.Elem().Field(i)
			if t.Field(i).Tag.Get("eosio") == "optional" {
				if f.IsZero() {
					wire = append(wire, 0)
					continue
				}
				wire = append(wire, 1)
			}
			wire = append(wire, refOwn(f)...)
		}
		c.note("%d of %d fields present", keep, t.NumField())
		q := reflect.New(t)
		if c.p(2) {
			c.fill(q.Elem(), false)
		}
		r := c.reader(wire)
		r.end = io.EOF
		for i := keep; i < t.NumField(); i++ {
			// an extension with an empty encoding is present even at the end of input
			if len(refOwn(p.Elem().Field(i))) == 0 {
				return
			}
			p.Elem().Field(i).Set(reflect.Zero(t.Field(i).Type))
		}
		if zeroSized(t, keep) {
			return
		}
		err := chain.NewDecoder(r).Decode(q.Interface())
		c.check(err == nil, "decoding %s failed: %v", hx(wire), err)
		c.check(same(q.Elem(), p.Elem()), "decoded as %s, want %s", deep(q.Elem(), 0), deep(p.Elem(), 0))
		if keep < t.NumField() && len(wire) > 0 {
			var w bytes.Buffer
			_ = w
		}
	})
	reg("C22", "hostile", func(c *Ctx) {
		t, p := c.goValue(3)
		b := append([]byte{}, refOwn(p.Elem())...)
		for k := c.Intn(3); k >= 0 && len(b) > 0; k-- {
			i := c.Intn(len(b))
			switch c.Intn(4) {
			case 0:
				b[i] = byte(c.Intn(256))
			case 1:
				b = cat(b[:i], uvar(c.u64()), b[i:])
			case 2:
				b = b[:i]
			case 3:
				b[i] = 0xff
			}
		}
		c.note("%v from %s", t, hx(b))
		if hasZeroElems(t) {
			return
		}
		q := reflect.New(t)
		chain.NewDecoder(c.reader(b)).Decode(q.Interface())
	})
	reg("C22", "bad targets", func(c *Ctx) {
		bad := []interface{}{uint8(1), Inner{}, (*Inner)(nil), map[string]int{}, "x", []uint16{1}, new(chan int), new(func()), new(complex64), &struct{ A chan int }{}, struct{}{}, NU64(1), (*NU32)(nil),
			&struct{ A []chan int }{}}
		x := bad[c.Intn(len(bad))]
		c.note("%T", x)
		err := chain.NewDecoder(c.reader([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9})).Decode(x)
		c.check(err != nil, "no error")
	})
	reg("C22", "variants", func(c *Ctx) {
		idx := c.Intn(6)
		v := withVariant{P: byte(c.u64()), Q: byte(c.u64())}
		var body []byte
		var want variantT
		switch idx {
		case 0:
			x := byte(c.u64())
			want.A = &x
			body = ref(x)
		case 1:
			x := c.str(20)
			want.B = &x
			body = ref(x)
		case 2:
			x := Inner{uint16(c.u64()), c.str(10)}
			want.C = &x
			body = refGo(x)
		case 3:
			x := chain.Name(c.u64())
			want.D = &x
			body = ref(x)
		default:
			body = c.bytes(8)
		}
		var a uint8
		var s string
		if c.p(2) {
			v.V = variantT{A: &a, B: &s}
		}
		in := cat([]byte{7, byte(idx)}, body, []byte{9})
		c.note("variant %x", in)
		if c.p(2) {
			r := c.reader(in)
			err := chain.NewDecoder(r).Decode(&v)
			c.check((err == nil) == (idx < 4), "error %v", err)
			if idx < 4 {
				c.check(v.P == 7 && v.Q == 9 && same(reflect.ValueOf(v.V), reflect.ValueOf(want)) && r.pos == len(in), "decoded as %s", deep(reflect.ValueOf(v), 0))
			}
		} else {
			r := c.reader(in[1:])
			err := chain.NewDecoder(r).DecodeVariant(&v.V)
			c.check((err == nil) == (idx < 4), "error %v", err)
			if idx < 4 {
				c.check(same(reflect.ValueOf(v.V), reflect.ValueOf(want)) && r.pos == len(in)-2, "decoded as %s", deep(reflect.ValueOf(v.V), 0))
			}
		}
	})

	all := append(append(append(append(append(append([]string{}, primKinds...), varKinds...), strKinds...), scalarKinds...), txKinds...), keyKinds...)
	reg("C25", "paths agree", func(c *Ctx) {
		kind := all[c.Intn(len(all))]
		v := c.value(kind)
		want := ref(v)
		if len(want) > 5000 {
			return
		}
		c.note("%s %s", kind, show(v))
		t := reflect.TypeOf(v)
		p := reflect.New(t)
		p.Elem().Set(reflect.ValueOf(v))
		pp := reflect.New(p.Type())
		pp.Elem().Set(p)
		st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: p.Type()}, {Name: "C", Type: reflect.SliceOf(t)}, {Name: "D", Type: reflect.ArrayOf(1, t)}}))
		st.Elem().Field(0).Set(p.Elem())
		st.Elem().Field(1).Set(p)
		sl := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
		sl.Index(0).Set(p.Elem())
		sl.Index(1).Set(p.Elem())
		st.Elem().Field(2).Set(sl)
		st.Elem().Field(3).Index(0).Set(p.Elem())
		slw := cat([]byte{2}, want, want)
		if t == reflect.TypeOf(byte(0)) {
			slw = lp([]byte{want[0], want[0]})
		}
		noop := func(e *abi.Encoder, v interface{}) (bool, error) { return false, nil }
		noopd := func(d *abi.Decoder, v interface{}) (bool, error) { return false, nil }
		type way struct {
			n string
			v reflect.Value
			w []byte
		}
		for _, x := range []way{{"value", p.Elem(), want}, {"pointer", p, want}, {"double pointer", pp, want}, {"nested", st.Elem(), cat(want, want, slw, want)}, {"slice", sl, slw}} {
			for k := 0; k < 3; k++ {
				var w bytes.Buffer
				var e *abi.Encoder
				switch k {
				case 0:
					e = chain.NewEncoder(&w)
				case 1:
					e = chain.NewCustomEncoder(&w, noop)
				case 2:
					e = abi.NewEncoder(&w, noop)
					if needsFast(t) {
						continue
					}
				}
				err := e.Encode(x.v.Interface())
				c.check(err == nil && bytes.Equal(w.Bytes(), x.w), "%s, encoder %d: wrote %s, %v, want %s", x.n, k, hx(w.Bytes()), err, hx(x.w))
				var d *abi.Decoder
				r := c.reader(x.w)
				switch k {
				case 0:
					d = chain.NewDecoder(r)
				case 1:
					d = chain.NewCustomDecoder(r, noopd)
				case 2:
					d = abi.NewDecoder(r, noopd)
				}
				q := reflect.New(x.v.Type())
				if c.p(3) {
					q.Elem().Set(x.v)
				}
				err = d.Decode(q.Interface())
				c.check(err == nil && r.pos == len(x.w) && bytes.Equal(refOwn(q.Elem()), x.w), "%s, decoder %d: %s, %v", x.n, k, deep(q.Elem(), 0), err)
				if len(x.w) > 0 && c.p(3) {
					n := c.Intn(len(x.w))
					cr := c.reader(x.w[:n])
					switch k {
					case 0:
						d = chain.NewDecoder(cr)
					case 1:
						d = chain.NewCustomDecoder(cr, noopd)
					case 2:
						d = abi.NewDecoder(cr, noopd)
					}
					err = d.Decode(reflect.New(x.v.Type()).Interface())
					c.check(err != nil, "%s, decoder %d: %d of %d bytes decoded without an error", x.n, k, n, len(x.w))
					l := &lw{limit: n}
					switch k {
					case 0:
						e = chain.NewEncoder(l)
					case 1:
						e = chain.NewCustomEncoder(l, noop)
					case 2:
						e = abi.NewEncoder(l, noop)
					}
					err = e.Encode(x.v.Interface())
					c.check(err != nil, "%s, encoder %d: a failed write was not reported", x.n, k)
				}
			}
		}
	})
	reg("C25", "custom functions", func(c *Ctx) {
		kind := all[c.Intn(len(all))]
		v := c.value(kind)
		t := reflect.TypeOf(v)
		want := ref(v)
		if len(want) > 5000 {
			return
		}
		c.note("custom function for %s", kind)
		boom := c.p(4)
		seen := 0
		enc := func(e *abi.Encoder, x interface{}) (bool, error) {
			if reflect.TypeOf(x) == t {
				seen++
				if boom {
					return c.p(2), errBoom
				}
				return true, e.WriteBytes([]byte{0xAB})
			}
			return false, nil
		}
		dec := func(d *abi.Decoder, x interface{}) (bool, error) {
			if reflect.TypeOf(x) == reflect.PtrTo(t) {
				seen++
				if boom {
					return c.p(2), errBoom
				}
				b, err := d.ReadByte()
				if err == nil && b != 0xAB {
					err = errors.New("bad mark")
				}
				return true, err
			}
			return false, nil
		}
		st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint16(0))}, {Name: "B", Type: t}, {Name: "C", Type: reflect.ArrayOf(2, t)}}))
		st.Elem().Field(1).Set(reflect.ValueOf(v))
		if t == reflect.TypeOf(uint16(0)) {
			return
		}
		var w bytes.Buffer
		mk := c.p(2)
		var e *abi.Encoder
		if mk {
			e = abi.NewEncoder(&w, enc)
		} else {
			e = chain.NewCustomEncoder(&w, enc)
		}
		err := e.Encode(st.Elem().Interface())
		if boom {
			c.check(err == errBoom, "error %v of the custom function was lost", err)
		} else {
			c.check(err == nil && bytes.Equal(w.Bytes(), []byte{0, 0, 0xAB, 0xAB, 0xAB}) && seen == 3, "wrote %x, %v", w.Bytes(), err)
		}
		seen = 0
		r := c.reader([]byte{0, 0, 0xAB, 0xAB, 0xAB})
		var d *abi.Decoder
		if mk {
			d = abi.NewDecoder(r, dec)
		} else {
			d = chain.NewCustomDecoder(r, dec)
		}
		q := reflect.New(st.Elem().Type())
		err = d.Decode(q.Interface())
		if boom {
			c.check(err == errBoom, "error %v of the custom function was lost", err)
		} else {
			c.check(err == nil && r.pos == 5 && seen == 3, "consumed %d, %v", r.pos, err)
		}
	})
}

// types whose values only encode through the fast path (pointer receivers, held by value)
func needsFast(t reflect.Type) bool {
	_, v := reflect.Zero(t).Interface().(abi.Marshaler)
	_, p := reflect.New(t).Interface().(abi.Marshaler)
	return p && !v
}

func zeroSized(t reflect.Type, keep int) bool { return false }

// hasZeroElems: element types without any encoding make huge announced counts legitimate
func hasZeroElems(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Array, reflect.Ptr:
		if t.Kind() != reflect.Ptr && minSize(t.Elem()) == 0 {
			return true
		}
		return hasZeroElems(t.Elem())
	case reflect.Map:
		return hasZeroElems(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasZeroElems(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func minSize(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Array:
		if t.Len() == 0 {
			return 0
		}
		return minSize(t.Elem())
	case reflect.Ptr:
		return minSize(t.Elem())
	case reflect.Struct:
		n := 0
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag.Get("eosio") == "optional" {
				n++
			} else {
				n += minSize(t.Field(i).Type)
			}
		}
		return n
	}
	return 1
}
