package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Independent reading of ABI definitions: type names are NAME [] ? $ (each suffix at most once, in that order),
// a NAME is a struct, a variant, an alias or a built-in type, in that order.

type tparts struct {
	base          string
	arr, opt, ext bool
}

func parts(s string) tparts {
	t := tparts{base: s}
	if strings.HasSuffix(t.base, "$") {
		t.ext, t.base = true, strings.TrimSuffix(t.base, "$")
	}
	if strings.HasSuffix(t.base, "?") {
		t.opt, t.base = true, strings.TrimSuffix(t.base, "?")
	}
	if strings.HasSuffix(t.base, "[]") {
		t.arr, t.base = true, strings.TrimSuffix(t.base, "[]")
	}
	return t
}

// built-in ABI type -> kind of Go value
var builtins = map[string]string{
	"bool": "bool", "string": "string", "uint8": "uint8", "uint16": "uint16", "uint32": "uint32", "uint64": "uint64", "uint128": "Uint128",
	"int8": "int8", "int16": "int16", "int32": "int32", "int64": "int64", "int128": "Int128", "float32": "float32", "float64": "float64", "float128": "Float128",
	"varuint32": "uint", "varint32": "int", "bytes": "Bytes", "asset": "Asset", "block_timestamp_type": "BlockTimestamp", "checksum160": "Checksum160",
	"checksum256": "Checksum256", "checksum512": "Checksum512", "eosio::name": "Name", "extended_asset": "ExtendedAsset", "name": "Name",
	"public_key": "PublicKey", "signature": "Signature", "symbol_code": "SymbolCode", "symbol": "Symbol", "time_point_sec": "TimePointSec", "time_point": "TimePoint",
}
var builtinNames = func() (r []string) {
	for _, n := range []string{"bool", "string", "uint8", "uint16", "uint32", "uint64", "uint128", "int8", "int16", "int32", "int64", "int128", "float32", "float64",
		"float128", "varuint32", "varint32", "bytes", "asset", "block_timestamp_type", "checksum160", "checksum256", "checksum512", "eosio::name", "extended_asset",
		"name", "public_key", "signature", "symbol_code", "symbol", "time_point_sec", "time_point"} {
		if builtins[n] == "" {
			panic(n)
		}
		r = append(r, n)
	}
	return
}()

// abigen makes a consistent definition: names[i] only refers to later names, except through optionals and arrays
type abigen struct {
	c     *Ctx
	a     chain.Abi
	names []string
	def   map[string]string // name -> "struct" | "variant" | "alias"
}

func (g *abigen) ref(i int, ext bool) string {
	c := g.c
	s := ""
	rec := false
	if ext { // of something that takes at least a byte
		b := builtinNames[c.Intn(len(builtinNames))]
		for b == g.names[len(g.names)-1] {
			b = builtinNames[c.Intn(len(builtinNames))]
		}
		return b + []string{"", "[]", "?", "[]?"}[c.Intn(4)] + "$"
	}
	switch {
	case c.p(3) || i+1 >= len(g.names):
		s = builtinNames[c.Intn(len(builtinNames))]
		if s == g.names[i] {
			return s + "?"
		}
	case c.p(8):
		s = g.names[c.Intn(i+1)] // recursive
		rec = true
	default:
		s = g.names[i+1+c.Intn(len(g.names)-i-1)]
	}
	switch c.Intn(6) {
	case 0:
		s += "[]"
	case 1:
		s += "?"
	case 2:
		s += "[]?"
	default:
		if rec {
			s += []string{"[]", "?"}[c.Intn(2)]
		}
	}
	return s
}

func (c *Ctx) abidef() *abigen {
	g := &abigen{c: c, def: map[string]string{}}
	n := 1 + c.Intn(7)
	pool := []string{"a", "b", "foo", "x_y", "t1", "t2", "t3", "eosio.t", "B_foo_E", "uint8_", "long_name_of_a_type", "S", "tuple_a_b", "opt", "arr"}
	c.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	if c.p(10) { // a definition shadows a built-in type
		pool[n-1] = builtinNames[c.Intn(len(builtinNames))]
	}
	g.names = pool[:n]
	kinds := make([]string, n)
	for i, nm := range g.names {
		kinds[i] = []string{"struct", "struct", "variant", "alias"}[c.Intn(4)]
		if i == n-1 && builtins[nm] != "" {
			kinds[i] = "struct"
		}
		g.def[nm] = kinds[i]
	}
	fn := []string{"a", "b", "c", "d", "value", "x", "from", "to", "quantity", "memo"}
	exts := map[string]bool{}
	for i := n - 1; i >= 0; i-- {
		nm := g.names[i]
		switch kinds[i] {
		case "struct":
			s := chain.AbiStruct{Name: nm}
			used := map[string]bool{}
			if c.p(3) {
				for j := i + 1; j < n; j++ {
					if kinds[j] == "struct" && !exts[g.names[j]] {
						s.Base = g.names[j]
						for b := s.Base; b != ""; {
							bs := g.st(b)
							for _, f := range bs.Fields {
								used[f.Name] = true
							}
							b = bs.Base
						}
						break
					}
				}
			}
			k := c.Intn(5)
			ne := 0
			if i == 0 && c.p(2) { // only the outermost struct ends with extensions
				ne = c.Intn(3)
				exts[nm] = ne > 0
			}
			for f := 0; f < k+ne; f++ {
				name := fmt.Sprintf("%s%d", fn[c.Intn(len(fn))], f)
				if c.p(4) {
					name = fn[(f*3+i)%len(fn)]
				}
				if used[name] {
					continue
				}
				used[name] = true
				s.Fields = append(s.Fields, chain.AbiField{Name: name, Type: g.ref(i, f >= k)})
			}
			g.a.Structs = append(g.a.Structs, s)
		case "variant":
			v := chain.AbiVariant{Name: nm}
			k := 1 + c.Intn(4)
			if c.p(40) {
				k = 130
			}
			seen := map[string]bool{}
			for f := 0; f < k; f++ {
				t := g.ref(i, false)
				if seen[t] {
					continue
				}
				seen[t] = true
				v.Types = append(v.Types, t)
			}
			g.a.Variants = append(g.a.Variants, v)
		default:
			g.a.Types = append(g.a.Types, chain.AbiType{NewTypeName: nm, Type: g.ref(i, false)})
		}
	}
	c.Shuffle(len(g.a.Structs), func(i, j int) { g.a.Structs[i], g.a.Structs[j] = g.a.Structs[j], g.a.Structs[i] })
	c.Shuffle(len(g.a.Types), func(i, j int) { g.a.Types[i], g.a.Types[j] = g.a.Types[j], g.a.Types[i] })
	c.Shuffle(len(g.a.Variants), func(i, j int) { g.a.Variants[i], g.a.Variants[j] = g.a.Variants[j], g.a.Variants[i] })
	return g
}

func (g *abigen) st(n string) *chain.AbiStruct {
	for i := range g.a.Structs {
		if g.a.Structs[i].Name == n {
			return &g.a.Structs[i]
		}
	}
	return nil
}

func (g *abigen) fields(n string) []chain.AbiField {
	s := g.st(n)
	var r []chain.AbiField
	if s.Base != "" {
		r = g.fields(s.Base)
	}
	return append(append([]chain.AbiField{}, r...), s.Fields...)
}

// gen: a value, the value decoding must give back, its bytes
func (g *abigen) gen(t string, depth int) (v, dv interface{}, b []byte) {
	c := g.c
	p := parts(t)
	if p.opt {
		if c.p(2) || depth > 6 {
			return nil, nil, []byte{0}
		}
		b = []byte{1}
	}
	if p.arr {
		n := c.Intn(4)
		if depth > 6 {
			n = 0
		}
		if depth == 0 && c.p(20) {
			n = 128 + c.Intn(200)
		}
		va, vd := []interface{}{}, []interface{}{}
		b = append(b, uvar(uint64(n))...)
		for i := 0; i < n; i++ {
			e, ed, eb := g.inner(p.base, depth+1)
			va, vd, b = append(va, e), append(vd, ed), append(b, eb...)
		}
		return va, vd, b
	}
	e, ed, eb := g.inner(p.base, depth)
	if p.opt && e == nil { // an optional of an alias of an optional
		return nil, nil, []byte{0}
	}
	return e, ed, append(b, eb...)
}

func (g *abigen) inner(base string, depth int) (v, dv interface{}, b []byte) {
	c := g.c
	switch g.def[base] {
	case "struct":
		m, d := map[string]interface{}{}, map[string]interface{}{}
		stop := false
		for _, f := range g.fields(base) {
			if parts(f.Type).ext && (stop || c.p(3)) {
				if !parts(f.Type).opt {
					stop = true
				}
			}
			if stop {
				d[f.Name] = nil
				if c.p(2) {
					m[f.Name] = nil
				}
				continue
			}
			fv, fd, fb := g.gen(f.Type, depth+1)
			if q := parts(f.Type); fv == nil && q.ext && !q.opt { // nothing: absent
				stop = true
				d[f.Name] = nil
				continue
			}
			d[f.Name] = fd
			if fv != nil || c.p(2) {
				m[f.Name] = fv
			}
			b = append(b, fb...)
		}
		// an absent optional extension after an absent one would have to be written
		if stop {
			seen := false
			for _, f := range g.fields(base) {
				if parts(f.Type).ext && d[f.Name] == nil && !parts(f.Type).opt {
					seen = true
				} else if seen && parts(f.Type).opt {
					return g.inner(base, depth)
				}
			}
		}
		return m, d, b
	case "variant":
		var vt *chain.AbiVariant
		for i := range g.a.Variants {
			if g.a.Variants[i].Name == base {
				vt = &g.a.Variants[i]
			}
		}
		k := c.Intn(len(vt.Types))
		if depth > 6 { // prefer something flat
			for i, t := range vt.Types {
				if q := parts(t); q.opt || q.arr || g.def[q.base] == "" {
					k = i
				}
			}
		}
		x, xd, xb := g.gen(vt.Types[k], depth+1)
		return []interface{}{vt.Types[k], x}, []interface{}{vt.Types[k], xd}, cat(uvar(uint64(k)), xb)
	case "alias":
		for _, t := range g.a.Types {
			if t.NewTypeName == base {
				return g.gen(t.Type, depth+1)
			}
		}
	}
	kind := builtins[base]
	if kind == "" {
		panic("harness: type " + base)
	}
	v = c.value(kind)
	switch x := v.(type) {
	case string:
		if len(x) > 300 {
			v = x[:300]
		}
	case chain.Bytes:
		if len(x) > 300 {
			v = x[:300]
		}
	}
	b = ref(v)
	dv = v
	switch x := v.(type) {
	case uint64:
		dv = chain.Uint64(x)
		if c.p(2) {
			v = chain.Uint64(x)
		}
	case chain.Bytes:
		if c.p(2) {
			v = []byte(x)
		}
	}
	return v, dv, b
}

// sameABI: equal decoded data; leaves by type and encoding (NaN payloads count)
func sameABI(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, in := y[k]
			if !in || !sameABI(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameABI(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return bytes.Equal(ref(a), ref(b))
}

func showABI(a chain.Abi) string {
	return fmt.Sprintf("types %+v structs %+v variants %+v", a.Types, a.Structs, a.Variants)
}

// breakIt changes one place of v so that it no longer fits t; returns what was done, "" if nothing
func (g *abigen) breakIt(t string, v interface{}) (interface{}, string) {
	c := g.c
	p := parts(t)
	if v == nil {
		if p.opt || p.ext {
			return struct{ X int }{1}, "a foreign struct for " + t
		}
		return nil, ""
	}
	if p.arr {
		va := v.([]interface{})
		if len(va) > 0 && c.p(2) {
			i := c.Intn(len(va))
			w, s := g.breakInner(p.base, va[i])
			if s == "" {
				return nil, ""
			}
			r := append([]interface{}{}, va...)
			r[i] = w
			return r, s
		}
		return []interface{}{"text", 7, map[string]interface{}{}, []string{"a"}, []int{1}, struct{}{}}[c.Intn(6)], "no list for " + t
	}
	return g.breakInner(p.base, v)
}

func (g *abigen) breakInner(base string, v interface{}) (interface{}, string) {
	c := g.c
	switch g.def[base] {
	case "struct":
		fs := g.fields(base)
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil, ""
		}
		if len(fs) == 0 || c.p(6) {
			return []interface{}{"text", 7, []interface{}{}, map[string]string{}, struct{}{}}[c.Intn(5)], "no map for " + base
		}
		f := fs[c.Intn(len(fs))]
		r := map[string]interface{}{}
		for k, x := range m {
			r[k] = x
		}
		if c.p(3) && m[f.Name] != nil && !parts(f.Type).opt && !parts(f.Type).ext && !g.nilable(parts(f.Type), 0) {
			delete(r, f.Name)
			return r, "missing field " + f.Name + " of " + base
		}
		w, s := g.breakIt(f.Type, m[f.Name])
		if s == "" {
			return nil, ""
		}
		r[f.Name] = w
		return r, s
	case "variant":
		va, ok := v.([]interface{})
		if !ok || len(va) != 2 {
			return nil, ""
		}
		switch c.Intn(6) {
		case 0:
			return []interface{}{va[0]}, "one element for variant " + base
		case 1:
			return []interface{}{va[0], va[1], va[1]}, "three elements for variant " + base
		case 2:
			return []interface{}{"no such type", va[1]}, "unknown name for variant " + base
		case 3:
			return []interface{}{0, va[1]}, "numeric name for variant " + base
		case 4:
			return []interface{}{"text", map[string]interface{}{}}[c.Intn(2)], "no list for variant " + base
		}
		w, s := g.breakIt(va[0].(string), va[1])
		if s == "" {
			return nil, ""
		}
		return []interface{}{va[0], w}, s
	case "alias":
		for _, t := range g.a.Types {
			if t.NewTypeName == base {
				return g.breakIt(t.Type, v)
			}
		}
	}
	kinds := []interface{}{true, "text", uint8(1), uint16(1), uint32(1), uint64(1), int8(1), int16(1), int32(1), int64(1), float32(1), float64(1), uint(1), int(1),
		chain.Name(1), chain.Symbol(1), chain.SymbolCode(1), chain.TimePoint(1), chain.TimePointSec(1), chain.BlockTimestamp(1), chain.Asset{}, chain.ExtendedAsset{},
		chain.Uint128{}, chain.Int128{}, chain.Float128{}, chain.Checksum160{}, chain.Checksum256{}, chain.Checksum512{}, chain.Bytes{1}, chain.PublicKey{}, chain.Signature{},
		map[string]interface{}{}, []interface{}{}, struct{}{}, []uint8(nil), chain.Uint64(1)}
	x := kinds[c.Intn(len(kinds))]
	k := builtins[base]
	if reflect.TypeOf(x) == reflect.TypeOf(v) || k == "uint64" || k == "Bytes" {
		if k == "uint64" || k == "Bytes" {
			return true, fmt.Sprintf("a bool for %s", base)
		}
		return nil, ""
	}
	return x, fmt.Sprintf("%T for %s", x, base)
}

// nilable: an alias of an optional may be left out
func (g *abigen) nilable(p tparts, d int) bool {
	if p.opt || p.ext {
		return true
	}
	if p.arr || d > 20 || g.def[p.base] != "alias" {
		return false
	}
	for _, t := range g.a.Types {
		if t.NewTypeName == p.base {
			return g.nilable(parts(t.Type), d+1)
		}
	}
	return false
}

func (g *abigen) root() string {
	t := g.names[g.c.Intn(len(g.names))]
	if g.c.p(2) {
		t = g.names[0]
	}
	switch g.c.Intn(8) {
	case 0:
		t += "[]"
	case 1:
		t += "?"
	case 2:
		t = builtinNames[g.c.Intn(len(builtinNames))]
		if g.c.p(3) {
			t += "[]"
		}
	}
	return t
}

// nested: the outermost type also occurs inside; its extensions cannot be told apart from what follows.
// The same goes for a definition that replaces a built-in type.
func (g *abigen) nested() bool {
	in := func(t string) bool { return parts(t).base == g.names[0] }
	for _, s := range g.a.Structs {
		for _, f := range s.Fields {
			if in(f.Type) || parts(f.Type).ext && g.def[parts(f.Type).base] != "" {
				return true
			}
		}
	}
	for _, s := range g.a.Variants {
		for _, t := range s.Types {
			if in(t) {
				return true
			}
		}
	}
	for _, s := range g.a.Types {
		if in(s.Type) {
			return true
		}
	}
	return false
}

func init() {
	reg("C23", "values", func(c *Ctx) {
		g := c.abidef()
		t := g.root()
		// extensions are only meaningful at the end of the stream
		if t != g.names[0] || g.nested() {
			g.dropExt()
		}
		v, dv, want := g.gen(t, 0)
		c.note("%s", showABI(g.a))
		c.note("type %s value %#v", t, v)
		var w bytes.Buffer
		act := chain.Name(c.u64())
		viaAction := c.p(4)
		if viaAction {
			g.a.Actions = []chain.AbiAction{{Name: act + 1, Type: "nope"}, {Name: act, Type: t}, {Name: act, Type: "later"}}
		}
		var err error
		if viaAction {
			err = g.a.EncodeAction(&w, act, v)
		} else {
			err = g.a.Encode(&w, t, v)
		}
		c.check(err == nil, "encoding failed: %v", err)
		c.check(bytes.Equal(w.Bytes(), want), "encoded as %s, want %s", hx(w.Bytes()), hx(want))
		if len(want) > 0 && c.p(3) {
			err = g.a.Encode(&lw{limit: c.Intn(len(want))}, t, v)
			c.check(err != nil, "a failed write was not reported")
		}
		r := c.reader(want)
		if g.exts() {
			r.end = io.EOF
		}
		var got interface{}
		if viaAction {
			got, err = g.a.DecodeAction(r, act)
		} else {
			got, err = g.a.Decode(r, t)
		}
		c.check(err == nil && r.pos == len(want), "decoding %s failed after %d: %v", hx(want), r.pos, err)
		c.check(sameABI(got, dv), "decoded as %#v, want %#v", got, dv)
		if viaAction {
			m, err := chain.Action{Account: act + 1, Name: act, Data: want}.Decode(&g.a)
			if _, ok := dv.(map[string]interface{}); ok {
				c.check(err == nil && sameABI(m, dv), "action data decoded as %#v, %v", m, err)
			} else {
				c.check(err != nil, "action data that is no struct decoded as %#v", m)
			}
			_, err = chain.Action{Account: act, Name: act + 2, Data: want}.Decode(&g.a)
			c.check(err != nil, "the data of an unknown action was decoded")
			if len(want) > 0 && !g.exts() {
				_, err = chain.Action{Account: act, Name: act, Data: want[:len(want)-1]}.Decode(&g.a)
				c.check(err != nil, "truncated action data was decoded")
			}
		}
		if len(want) > 0 && !g.exts() {
			cut := c.Intn(len(want))
			_, err = g.a.Decode(c.reader(want[:cut]), t)
			c.check(err != nil, "the first %d of %d bytes decoded without an error", cut, len(want))
			tail := c.bytes(1 + c.Intn(4))
			r = c.reader(cat(want, tail))
			got, err = g.a.Decode(r, t)
			c.check(err == nil && r.pos == len(want) && sameABI(got, dv), "with %d more bytes decoded as %#v, consumed %d, %v", len(tail), got, r.pos, err)
		}
	})
	reg("C23", "errors", func(c *Ctx) {
		g := c.abidef()
		g.dropExt()
		t := g.root()
		v, _, _ := g.gen(t, 0)
		switch c.Intn(4) {
		case 0: // unknown type somewhere the value needs it
			bad := []string{"unknown", "", "uint9", "uint8[][]", "uint8?[]", "uint8$?", "[]", "?", "$", "uint8 ", "Uint8", "uint8??", "struct", "variant"}[c.Intn(14)]
			c.note("%s", showABI(g.a))
			c.note("unknown type %q", bad)
			_, err := g.a.Decode(c.reader(cat([]byte{1, 1, 1, 1}, c.bytes(100))), bad)
			c.check(err != nil, "decoded an unknown type")
			err = g.a.Encode(&bytes.Buffer{}, bad, uint8(1))
			c.check(err != nil, "encoded an unknown type")
		default:
			w, s := g.breakIt(t, v)
			if s == "" {
				return
			}
			c.note("%s", showABI(g.a))
			c.note("type %s value %#v: %s", t, w, s)
			err := g.a.Encode(&bytes.Buffer{}, t, w)
			c.check(err != nil, "encoded %s", s)
		}
		_, err := g.a.DecodeAction(bytes.NewReader(c.bytes(100)), chain.Name(c.u64()))
		c.check(err != nil, "decoded an unknown action")
		err = g.a.EncodeAction(&bytes.Buffer{}, chain.Name(c.u64()), v)
		c.check(err != nil, "encoded an unknown action")
	})
	reg("C23", "variant index", func(c *Ctx) {
		n := 1 + c.Intn(5)
		a := chain.Abi{Variants: []chain.AbiVariant{{Name: "v"}}}
		for i := 0; i < n; i++ {
			a.Variants[0].Types = append(a.Variants[0].Types, builtinNames[i])
		}
		k := c.u64()
		if k < uint64(n) {
			k += uint64(n)
		}
		c.note("%s index %d", showABI(a), k)
		_, err := a.Decode(c.reader(cat(uvar(k), c.bytes(100))), "v")
		c.check(err != nil, "variant index %d of %d types was accepted", k, n)
	})
	reg("C23", "definition", func(c *Ctx) {
		g := c.abidef()
		a := g.a
		a.Version = "eosio::abi/1." + c.str(4)
		for i := c.Intn(3); i > 0; i-- {
			a.Actions = append(a.Actions, chain.AbiAction{Name: chain.Name(c.u64()), Type: c.str(9), RicardianContract: c.str(200)})
		}
		for i := c.Intn(3); i > 0; i-- {
			t := chain.AbiTable{Name: chain.Name(c.u64()), IndexType: c.str(4), Type: c.str(5)}
			for j := c.Intn(3); j > 0; j-- {
				t.KeyNames = append(t.KeyNames, c.str(5))
			}
			for j := c.Intn(3); j > 0; j-- {
				t.KeyTypes = append(t.KeyTypes, c.str(5))
			}
			a.Tables = append(a.Tables, t)
		}
		for i := c.Intn(3); i > 0; i-- {
			a.RicardianClauses = append(a.RicardianClauses, chain.AbiClause{Id: c.str(5), Body: c.str(140)})
			a.ErrorMessages = append(a.ErrorMessages, chain.AbiErrorMessage{Code: chain.Uint64(c.u64()), Message: c.str(9)})
			a.Extensions = append(a.Extensions, &chain.AbiExtension{Type: uint16(c.u64()), Data: c.blob(9)})
		}
		c.note("%+v", a)
		want := ref(a)
		var w bytes.Buffer
		err := chain.NewEncoder(&w).Encode(a)
		c.check(err == nil && bytes.Equal(w.Bytes(), want), "encoded as %s, want %s (%v)", hx(w.Bytes()), hx(want), err)
		var b chain.Abi
		r := c.reader(want)
		err = chain.NewDecoder(r).Decode(&b)
		c.check(err == nil && r.pos == len(want), "decoding failed: %v", err)
		c.check(bytes.Equal(ref(b), want), "decoded as %+v", b)
		// definitions written before variants existed
		vn := len(want) - len(ref(a.Variants))
		b = chain.Abi{}
		err = chain.NewDecoder(bytes.NewReader(want[:vn])).Decode(&b)
		c.check(err == nil && len(b.Variants) == 0, "decoding without variants failed: %v", err)
		a.Variants = nil
		c.check(bytes.Equal(ref(b), ref(a)), "without variants decoded as %+v", b)
	})
	reg("C23", "lookup", func(c *Ctx) {
		var a chain.Abi
		nm := func() chain.Name { return chain.Name(c.Intn(4)) }
		s := func() string { return []string{"a", "b", "", "A"}[c.Intn(4)] }
		for i := c.Intn(4); i > 0; i-- {
			a.Tables = append(a.Tables, chain.AbiTable{Name: nm(), Type: fmt.Sprint(i)})
			a.Actions = append(a.Actions, chain.AbiAction{Name: nm(), Type: fmt.Sprint(i)})
			a.Structs = append(a.Structs, chain.AbiStruct{Name: s(), Base: fmt.Sprint(i)})
			a.Types = append(a.Types, chain.AbiType{NewTypeName: s(), Type: fmt.Sprint(i)})
			a.Variants = append(a.Variants, chain.AbiVariant{Name: s(), Types: []string{fmt.Sprint(i)}})
		}
		n, k := nm(), s()
		c.note("%+v name %v type %q", a, n, k)
		var wt, wa, ws, wy, wv string
		for i := len(a.Tables) - 1; i >= 0; i-- {
			if a.Tables[i].Name == n {
				wt = a.Tables[i].Type
			}
			if a.Actions[i].Name == n {
				wa = a.Actions[i].Type
			}
			if a.Structs[i].Name == k {
				ws = a.Structs[i].Base
			}
			if a.Types[i].NewTypeName == k {
				wy = a.Types[i].Type
			}
			if a.Variants[i].Name == k {
				wv = a.Variants[i].Types[0]
			}
		}
		var gt, ga, gs, gy, gv string
		if x := a.GetTable(n); x != nil {
			gt = x.Type
			c.check(x.Name == n, "table %v", x.Name)
		}
		if x := a.GetAction(n); x != nil {
			ga = x.Type
			c.check(x.Name == n, "action %v", x.Name)
		}
		if x := a.GetStruct(k); x != nil {
			gs = x.Base
		}
		if x := a.GetType(k); x != nil {
			gy = x.Type
		}
		if x := a.GetVariant(k); x != nil {
			gv = x.Types[0]
		}
		c.check(gt == wt && ga == wa && gs == ws && gy == wy && gv == wv, "found %q %q %q %q %q, want %q %q %q %q %q", gt, ga, gs, gy, gv, wt, wa, ws, wy, wv)
	})

	reg("C24", "hostile definitions", func(c *Ctx) {
		var a chain.Abi
		pool := []string{"a", "b", "c", "d", "e", "", "uint8", "$", "?", "[]", "a?", "b[]", "c$"}
		arrays := c.p(2)
		tn := func(ext bool) string {
			s := pool[c.Intn(5)]
			if c.p(3) {
				s = pool[c.Intn(len(pool))]
			}
			if c.p(3) {
				s = builtinNames[c.Intn(len(builtinNames))]
			}
			for i := c.Intn(3); i > 0; i-- {
				s += []string{"[]", "?", "$"}[c.Intn(3)]
			}
			if c.p(30) {
				s = c.str(6)
			}
			if !arrays {
				s = strings.ReplaceAll(s, "[]", "")
			} else if !ext {
				s = strings.ReplaceAll(s, "$", "") // lists of elements without any bytes are legitimate
			}
			return s
		}
		nm := func() string {
			if c.p(6) {
				s := pool[c.Intn(len(pool))]
				if !arrays {
					s = strings.ReplaceAll(s, "[]", "")
				}
				return s
			}
			return pool[c.Intn(5)]
		}
		for i := c.Intn(4); i > 0; i-- {
			s := chain.AbiStruct{Name: nm()}
			if c.p(2) {
				s.Base = nm()
			}
			if arrays {
				s.Fields = append(s.Fields, chain.AbiField{Name: "z", Type: "int8"})
			}
			for j := c.Intn(4); j > 0; j-- {
				s.Fields = append(s.Fields, chain.AbiField{Name: pool[c.Intn(4)], Type: tn(true)})
			}
			a.Structs = append(a.Structs, s)
		}
		for i := c.Intn(4); i > 0; i-- {
			a.Types = append(a.Types, chain.AbiType{NewTypeName: nm(), Type: tn(false)})
		}
		for i := c.Intn(3); i > 0; i-- {
			v := chain.AbiVariant{Name: nm()}
			for j := c.Intn(4); j > 0; j-- {
				v.Types = append(v.Types, tn(false))
			}
			a.Variants = append(a.Variants, v)
		}
		if arrays { // int8 must stay a byte
			for _, s := range a.Structs {
				if s.Name == "int8" {
					return
				}
			}
		}
		root := tn(true)
		if c.p(2) {
			root = nm()
		}
		c.note("%s", showABI(a))
		in := c.bytes(c.Intn(60))
		if c.p(2) {
			in = bytes.Repeat([]byte{byte(c.Intn(3))}, c.Intn(400))
		}
		if c.p(4) {
			in = cat(uvar(c.u64()), in)
		}
		if c.p(3) && len(in) > 0 {
			k := c.Intn(len(in))
			in = cat(in[:k], uvar(c.u64()), in[k:])
		}
		c.note("decode %q from %s", root, hx(in))
		r := c.reader(in)
		noBlowup24(c, len(in), func() { _, _ = a.Decode(r, root) })
		c.check(r.pos <= len(in), "read past the end")
		v := c.anyValue(0)
		c.note("encode %#v", safeShow(v))
		_ = a.Encode(&bytes.Buffer{}, root, v)
	})
	reg("C24", "cycles", func(c *Ctx) {
		// rings of aliases, bases, fields and variants of any length and kind
		n := 1 + c.Intn(5)
		if c.p(4) {
			n = 1 + c.Intn(300)
		}
		var a chain.Abi
		name := func(i int) string { return fmt.Sprintf("r%d", i) }
		closed := c.p(2)
		for i := 0; i < n; i++ {
			nx := name((i + 1) % n)
			if i == n-1 && !closed {
				nx = []string{"uint8", "nosuch", "", "uint8[]", "bool?"}[c.Intn(5)]
			}
			switch c.Intn(4) {
			case 0:
				a.Types = append(a.Types, chain.AbiType{NewTypeName: name(i), Type: nx})
			case 1:
				a.Structs = append(a.Structs, chain.AbiStruct{Name: name(i), Base: nx})
			case 2:
				a.Structs = append(a.Structs, chain.AbiStruct{Name: name(i), Fields: []chain.AbiField{{Name: "f", Type: nx + []string{"", "", "?", "$"}[c.Intn(4)]}}})
			case 3:
				a.Variants = append(a.Variants, chain.AbiVariant{Name: name(i), Types: []string{nx, name(i), "uint8"}})
			}
		}
		c.note("%s", showABI(a))
		in := bytes.Repeat([]byte{byte(c.Intn(2))}, c.Intn(2000))
		root := name(c.Intn(n))
		if c.p(3) {
			root += "?"
		}
		c.note("decode %s from %d bytes %s", root, len(in), hx(in))
		noBlowup24(c, len(in), func() { _, _ = a.Decode(c.reader(in), root) })
		m := map[string]interface{}{}
		m["f"] = m
		l := []interface{}{name(c.Intn(n)), nil}
		l[1] = l
		m2 := map[string]interface{}{"f": l}
		_ = a.Encode(io.Discard, root, []interface{}{m, l, m2}[c.Intn(3)])
	})
	reg("C24", "announced counts", func(c *Ctx) {
		g := c.abidef()
		for i := range g.a.Structs {
			g.a.Structs[i].Fields = append([]chain.AbiField{{Name: "byte0", Type: "int8"}}, g.a.Structs[i].Fields...)
		}
		g.dropExt()
		if g.def["int8"] != "" {
			return
		}
		t := []string{g.names[0], g.names[0] + "[]", builtinNames[c.Intn(len(builtinNames))] + "[]", "string", "bytes", "signature", "public_key"}[c.Intn(7)]
		_, _, b := g.gen(t, 0)
		if len(b) > 3000 {
			return
		}
		for k := c.Intn(3); k >= 0; k-- {
			i := 0
			if len(b) > 0 && c.p(2) {
				i = c.Intn(len(b))
			}
			b = cat(b[:i], uvar(c.u64()), b[i:])
		}
		c.note("%s", showABI(g.a))
		c.note("decode %q from %s", t, hx(b))
		noBlowup24(c, len(b), func() { _, _ = g.a.Decode(c.reader(b), t) })
	})
}

func noBlowup24(c *Ctx, n int, f func()) {
	a := allocated()
	f()
	d := allocated() - a
	c.check(d < 32<<20+uint64(n)*40000, "allocated %d bytes for %d bytes of input", d, n)
}

func (g *abigen) dropExt() {
	for i := range g.a.Structs {
		fs := append([]chain.AbiField{}, g.a.Structs[i].Fields...)
		for j := range fs {
			fs[j].Type = strings.TrimSuffix(fs[j].Type, "$")
		}
		g.a.Structs[i].Fields = fs
	}
}

func (g *abigen) exts() bool {
	for _, s := range g.a.Structs {
		for _, f := range s.Fields {
			if parts(f.Type).ext {
				return true
			}
		}
	}
	return false
}

func safeShow(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 500 {
		s = s[:500]
	}
	return s
}

func (c *Ctx) anyValue(d int) interface{} {
	if d < 6 {
		switch c.Intn(4) {
		case 0:
			m := map[string]interface{}{}
			for i := c.Intn(5); i > 0; i-- {
				m[[]string{"a", "b", "c", "d", "z"}[c.Intn(5)]] = c.anyValue(d + 1)
			}
			return m
		case 1:
			l := []interface{}{}
			for i := c.Intn(4); i > 0; i-- {
				l = append(l, c.anyValue(d+1))
			}
			return l
		case 2:
			return []interface{}{[]string{"a", "b", "c", "d", "uint8", "a?", "x"}[c.Intn(7)], c.anyValue(d + 1)}
		}
	}
	if c.p(5) {
		return []interface{}{nil, (*chain.Action)(nil), (map[string]interface{})(nil), ([]interface{})(nil), func() {}, make(chan int), "", 1.5i}[c.Intn(8)]
	}
	ks := allKinds()
	v := c.value(ks[c.Intn(len(ks)-2)])
	return v
}
