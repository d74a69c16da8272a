package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"regexp"
	"strings"
	"time"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

// ------------------------------------------------------------------ names

const nameAlphabet = ".12345abcdefghijklmnopqrstuvwxyz"

func refName(v uint64) string {
	n := new(big.Int).SetUint64(v)
	var out [13]byte
	out[12] = nameAlphabet[v%16]
	n.Rsh(n, 4)
	for i := 11; i >= 0; i-- {
		m := new(big.Int)
		n.DivMod(n, big.NewInt(32), m)
		out[i] = nameAlphabet[m.Int64()]
	}
	return strings.TrimRight(string(out[:]), ".")
}

func refNameValue(s string) uint64 { // canonical text only
	v := new(big.Int)
	for i := 0; i < 12; i++ {
		d := 0
		if i < len(s) {
			d = strings.IndexByte(nameAlphabet, s[i])
		}
		v.Mul(v, big.NewInt(32)).Add(v, big.NewInt(int64(d)))
	}
	d := 0
	if len(s) == 13 {
		d = strings.IndexByte(nameAlphabet, s[12])
	}
	v.Mul(v, big.NewInt(16)).Add(v, big.NewInt(int64(d)))
	return v.Uint64()
}

func (c *Ctx) nameText() string {
	s := c.from(nameAlphabet, c.Intn(13))
	if c.p(3) {
		s = c.from(nameAlphabet, 12) + c.from(nameAlphabet[1:16], 1)
	}
	if c.p(3) {
		b := []byte(s)
		for i := range b {
			if i < 12 && c.p(2) {
				b[i] = ".z15a"[c.Intn(5)]
			}
		}
		s = string(b)
	}
	return strings.TrimRight(s, ".")
}

// text forms through both interfaces; the destination holds old before a failed parse
func textOf(c *Ctx, m encoding.TextMarshaler) string {
	b, err := m.MarshalText()
	c.check(err == nil, "MarshalText failed: %v", err)
	return string(b)
}

func parse(c *Ctx, u encoding.TextUnmarshaler, s string) error {
	b := []byte(s)
	err := u.UnmarshalText(b)
	c.check(string(b) == s, "the text passed in was modified: %q became %q", s, b)
	return err
}

const mutAlpha = "ABCZabz019.,- _+=/ \x00\xff"

// ------------------------------------------------------------------ symbols

func (c *Ctx) symParts() (uint8, string) {
	p := uint8(c.Intn(19))
	if c.p(6) {
		p = uint8(c.u64())
	}
	n := c.Intn(8)
	if c.p(12) {
		n = c.Intn(12)
	}
	s := c.from("ABCDEFGHIJKLMNOPQRSTUVWXYZ", n)
	if c.p(3) {
		s = c.from("AZ", n)
	}
	if c.p(5) {
		s = c.mutateText(s, "AZ@[az09 ,.")
	}
	if c.p(20) {
		s = c.str(9)
	}
	return p, s
}

func symOK(p int, s string) bool {
	if p < 0 || p > 18 || len(s) > 7 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 'A' || s[i] > 'Z' {
			return false
		}
	}
	return true
}

func symVal(p int, s string) uint64 {
	b := append([]byte{byte(p)}, s...)
	for len(b) < 8 {
		b = append(b, 0)
	}
	return binary.LittleEndian.Uint64(b)
}

var reInt8 = regexp.MustCompile(`^[+-]?[0-9]+$`)

func symText(t string) (uint64, bool) {
	f := strings.Split(t, ",")
	if len(f) != 2 || !reInt8.MatchString(f[0]) {
		return 0, false
	}
	n, ok := new(big.Int).SetString(f[0], 10)
	if !ok || n.Sign() < 0 || n.Cmp(big.NewInt(18)) > 0 || !symOK(int(n.Int64()), f[1]) {
		return 0, false
	}
	return symVal(int(n.Int64()), f[1]), true
}

func dec(n int) string { return big.NewInt(int64(n)).String() }

// ------------------------------------------------------------------ assets

func refAsset(v int64, d int, code string) string {
	s := new(big.Int).Abs(big.NewInt(v)).String()
	for len(s) <= d {
		s = "0" + s
	}
	if d > 0 {
		s = s[:len(s)-d] + "." + s[len(s)-d:]
	}
	if v < 0 {
		s = "-" + s
	}
	return s + " " + code
}

var reAmount = regexp.MustCompile(`^(-?)([0-9]*)(\.([0-9]*))?$`)

func assetText(t string) (int64, uint64, bool) {
	f := strings.Split(t, " ")
	if len(f) != 2 || f[1] == "" {
		return 0, 0, false
	}
	m := reAmount.FindStringSubmatch(f[0])
	if m == nil || len(m[2])+len(m[4]) == 0 || len(m[4]) > 18 || !symOK(len(m[4]), f[1]) {
		return 0, 0, false
	}
	n, ok := new(big.Int).SetString(m[1]+m[2]+m[4], 10)
	if !ok || !n.IsInt64() {
		return 0, 0, false
	}
	return n.Int64(), symVal(len(m[4]), f[1]), true
}

// ------------------------------------------------------------------ 128 bit

func (c *Ctx) u128() (uint64, uint64) { return c.u64(), c.u64() }

func big128(lo, hi uint64) *big.Int {
	v := new(big.Int).SetUint64(hi)
	v.Mul(v, new(big.Int).Exp(big.NewInt(2), big.NewInt(64), nil))
	return v.Add(v, new(big.Int).SetUint64(lo))
}

func signed128(v *big.Int) *big.Int {
	if v.Bit(127) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Exp(big.NewInt(2), big.NewInt(128), nil))
	}
	return v
}

var reDec = regexp.MustCompile(`^[+-]?[0-9]+$`)

func recovered(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// ------------------------------------------------------------------ base58

const b58a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refB58(b []byte) string {
	zeros := 0
	for zeros < len(b) && b[zeros] == 0 {
		zeros++
	}
	d := append([]byte{}, b...)
	var out []byte
	start := zeros
	for start < len(d) {
		rem := 0
		for i := start; i < len(d); i++ {
			x := rem*256 + int(d[i])
			d[i] = byte(x / 58)
			rem = x % 58
		}
		out = append(out, b58a[rem])
		for start < len(d) && d[start] == 0 {
			start++
		}
	}
	for i := 0; i < zeros; i++ {
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func refUnB58(s string) []byte {
	var d []byte // big endian digits base 256, little endian order
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(b58a, s[i])
		if k < 0 {
			return nil
		}
		carry := k
		for j := range d {
			x := int(d[j])*58 + carry
			d[j] = byte(x)
			carry = x >> 8
		}
		for carry > 0 {
			d = append(d, byte(carry))
			carry >>= 8
		}
	}
	n := 0
	for n < len(s) && s[n] == '1' {
		n++
	}
	out := make([]byte, n, n+len(d))
	for i := len(d) - 1; i >= 0; i-- {
		out = append(out, d[i])
	}
	return out
}

func sum4(b []byte, suffix string, eosio bool) []byte {
	if eosio {
		h := refRipemd(cat(b, []byte(suffix)))
		return h[:4]
	}
	a := sha256.Sum256(b)
	a = sha256.Sum256(a[:])
	return a[:4]
}

func refCheckDecode(s string, suffix string, eosio bool) ([]byte, bool) {
	d := refUnB58(s)
	if len(d) < 4 {
		return nil, false
	}
	p := d[:len(d)-4]
	return p, bytes.Equal(sum4(p, suffix, eosio), d[len(d)-4:])
}

func refKeyText(s string, sig bool) (t chain.KeyType, d []byte, ok bool) {
	pre := "PUB_"
	if sig {
		pre = "SIG_"
	}
	if strings.HasPrefix(s, pre) {
		if len(s) < 7 || s[6] != '_' {
			return
		}
		switch s[4:6] {
		case "K1":
			t = chain.K1
		case "P1":
			t = chain.P1
		case "WA":
			t = chain.WA
		default:
			return
		}
		d, ok = refCheckDecode(s[7:], s[4:6], true)
		return
	}
	if sig || len(s) < 50 {
		return
	}
	d, ok = refCheckDecode(s[len(s)-50:], "", true)
	return
}

func keyTag(t chain.KeyType) string { return []string{"K1", "P1", "WA"}[t] }

// ------------------------------------------------------------------ time

func (c *Ctx) timeText(ms bool) string {
	t := time.Unix(int64(c.u64()%(400*365*86400))-6e9, int64(c.Intn(1e9))).UTC()
	switch c.Intn(5) {
	case 0:
		t = time.Unix(int64(uint32(c.u64())), int64(c.Intn(2))*500e6).UTC()
	case 1:
		edges := []int64{0, 1 << 32, 946684800, 946684800 + 1<<31}
		t = time.Unix(edges[c.Intn(4)], 0).Add(time.Duration(c.Intn(4000)-2000) * time.Millisecond).UTC()
	}
	f := "2006-01-02T15:04:05.000"
	if !ms {
		f = "2006-01-02T15:04:05"
	}
	s := t.Format(f)
	if c.p(3) {
		s += "Z"
	}
	if c.p(4) {
		s = c.mutateText(s, "0123456789-T:.Z+ ")
	}
	return s
}

func (c *Ctx) zone() *time.Location { return time.FixedZone("x", c.Intn(86400)-43200) }

func refTime(s, layout string) (time.Time, bool) {
	s = strings.TrimSuffix(s, "Z")
	t, err := time.Parse(layout, s)
	return t, err == nil
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func init() {
	reg("C09", "values", func(c *Ctx) {
		v := c.u64()
		c.note("name value %#x", v)
		want := refName(v)
		s := chain.Name(v).String()
		c.check(s == want, "text is %q, want %q", s, want)
		c.check(textOf(c, chain.Name(v)) == want, "MarshalText differs: %q", textOf(c, chain.Name(v)))
		c.check(uint64(chain.NewName(s)) == v, "parsed back as %#x", uint64(chain.NewName(s)))
		c.check(uint64(chain.N(s)) == v, "N(%q) = %#x", s, uint64(chain.N(s)))
		n := chain.Name(c.u64())
		c.check(parse(c, &n, s) == nil && uint64(n) == v, "UnmarshalText(%q) = %#x", s, uint64(n))
	})
	reg("C09", "texts", func(c *Ctx) {
		s := c.nameText()
		c.note("name text %q", s)
		n := chain.NewName(s)
		c.check(uint64(n) == refNameValue(s), "value is %#x, want %#x", uint64(n), refNameValue(s))
		c.check(n.String() == s, "formatted as %q", n.String())
		var m chain.Name
		c.check(parse(c, &m, s) == nil && m == n, "UnmarshalText = %#x", uint64(m))
	})
	reg("C09", "order", func(c *Ctx) {
		a, b := c.nameText(), c.nameText()
		if c.p(2) {
			b = strings.TrimRight(a[:c.Intn(len(a)+1)]+c.from(nameAlphabet, c.Intn(3)), ".")
			if len(b) > 12 {
				b = strings.TrimRight(b[:12], ".")
			}
		}
		c.note("%q and %q", a, b)
		pad := func(s string) string { return s + strings.Repeat(".", 13-len(s)) }
		pa, pb := pad(a), pad(b)
		c.check((pa < pb) == (chain.NewName(a) < chain.NewName(b)), "order differs: %#x %#x", uint64(chain.NewName(a)), uint64(chain.NewName(b)))
	})

	reg("C10", "new", func(c *Ctx) {
		p, s := c.symParts()
		c.note("NewSymbol(%d, %q)", p, s)
		v, err := chain.NewSymbol(p, s)
		ok := symOK(int(p), s)
		c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
		if !ok {
			return
		}
		want := symVal(int(p), s)
		c.check(uint64(v) == want, "value %#x, want %#x", uint64(v), want)
		c.check(v.Decimals() == int(p) && v.Name() == s && uint64(v.Code()) == want>>8, "parts are %d %q %#x", v.Decimals(), v.Name(), uint64(v.Code()))
		p10 := 1
		for i := 0; i < int(p); i++ {
			p10 *= 10
		}
		c.check(v.Precision() == p10, "precision %d, want %d", v.Precision(), p10)
		t := dec(int(p)) + "," + s
		c.check(v.String() == t && textOf(c, v) == t, "text %q / %q, want %q", v.String(), textOf(c, v), t)
		w, err := chain.NewSymbolFromString(t)
		c.check(err == nil && w == v, "%q parsed as %#x, %v", t, uint64(w), err)
		w = chain.Symbol(c.u64())
		err = parse(c, &w, t)
		c.check(err == nil && w == v, "UnmarshalText(%q) = %#x, %v", t, uint64(w), err)
		ct := textOf(c, v.Code())
		c.check(ct == s, "code text %q, want %q", ct, s)
		sc := chain.SymbolCode(c.u64())
		err = parse(c, &sc, s)
		c.check(err == nil && uint64(sc) == want>>8, "code %q parsed as %#x, %v", s, uint64(sc), err)
	})
	reg("C10", "texts", func(c *Ctx) {
		p, s := c.symParts()
		t := dec(int(p)) + "," + s
		switch c.Intn(4) {
		case 0:
			t = c.mutateText(t, "0123456789,AZaz+- ")
		case 1:
			t = []string{"+", "0", "-", "00", " ", ""}[c.Intn(6)] + t
		case 2:
			t = c.str(20)
		}
		c.note("symbol text %q", t)
		want, ok := symText(t)
		v, err := chain.NewSymbolFromString(t)
		c.check((err == nil) == ok && (!ok || uint64(v) == want), "= %#x, %v, want %#x ok=%v", uint64(v), err, want, ok)
		old := chain.Symbol(c.u64())
		v = old
		err = parse(c, &v, t)
		c.check((err == nil) == ok, "UnmarshalText error %v, want ok=%v", err, ok)
		if ok {
			c.check(uint64(v) == want, "UnmarshalText = %#x, want %#x", uint64(v), want)
		} else {
			c.check(v == old, "a failed parse changed the destination")
		}
		so := chain.SymbolCode(c.u64())
		sc := so
		err = parse(c, &sc, s)
		ok = symOK(0, s)
		c.check((err == nil) == ok, "symbol code %q: error %v, want ok=%v", s, err, ok)
		if ok {
			c.check(uint64(sc) == symVal(0, s)>>8, "symbol code %q = %#x", s, uint64(sc))
		} else {
			c.check(sc == so, "a failed parse changed the destination")
		}
	})

	reg("C11", "values", func(c *Ctx) {
		d := c.Intn(19)
		code := c.from("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1+c.Intn(7))
		v := int64(c.u64())
		a := *chain.NewAsset(v, chain.Symbol(symVal(d, code)))
		want := refAsset(v, d, code)
		c.note("asset %d units, %d decimals, %s", v, d, code)
		c.check(a.String() == want && textOf(c, a) == want, "text %q / %q, want %q", a.String(), textOf(c, a), want)
		b, err := chain.NewAssetFromString(want)
		c.check(err == nil && *b == a, "%q parsed as %v, %v", want, b, err)
		var x chain.Asset
		c.check(parse(c, &x, want) == nil && x == a, "UnmarshalText(%q) = %#v", want, x)
		c.check(*chain.A(want) == a, "A(%q) = %#v", want, *chain.A(want))
		r, _ := new(big.Rat).SetString(strings.Fields(want)[0])
		f, _ := r.Float64()
		c.check(a.FloatValue() == f, "FloatValue = %v, want %v", a.FloatValue(), f)
	})
	reg("C11", "texts", func(c *Ctx) {
		t := refAsset(int64(c.u64()), c.Intn(20), c.from("AZBC", 1+c.Intn(7)))
		switch c.Intn(5) {
		case 0:
			t = c.from("0123456789", c.Intn(22)) + "." + c.from("0123456789", c.Intn(20)) + " EOS"
		case 1, 2:
			t = c.mutateText(t, "0123456789.- ,AZaz+")
		case 3:
			t = c.from("-.0123456789 ", c.Intn(8)) + " " + c.from("AZa ", c.Intn(4))
		}
		if c.p(15) {
			t = c.str(30)
		}
		c.note("asset text %q", t)
		v, s, ok := assetText(t)
		a, err := chain.NewAssetFromString(t)
		c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
		if ok {
			c.check(a.Value == v && uint64(a.Symbol) == s, "= %d %#x, want %d %#x", a.Value, uint64(a.Symbol), v, s)
		}
		old := chain.Asset{Value: int64(c.u64()), Symbol: chain.Symbol(c.u64())}
		x := old
		err = parse(c, &x, t)
		c.check((err == nil) == ok, "UnmarshalText error %v, want ok=%v", err, ok)
		if ok {
			c.check(x == *a, "UnmarshalText = %#v", x)
		} else {
			c.check(x == old, "a failed parse changed the destination")
			c.check(recovered(func() { chain.A(t) }) != nil, "A(%q) did not panic", t)
		}
	})

	reg("C12", "values", func(c *Ctx) {
		lo, hi := c.u128()
		c.note("hi %#x lo %#x", hi, lo)
		u, i := chain.Uint128{Lo: lo, Hi: hi}, chain.Int128{Lo: lo, Hi: hi}
		bu := big128(lo, hi)
		bi := signed128(bu)
		c.check(u.BigInt().Cmp(bu) == 0, "Uint128.BigInt = %v, want %v", u.BigInt(), bu)
		c.check(i.BigInt().Cmp(bi) == 0, "Int128.BigInt = %v, want %v", i.BigInt(), bi)
		c.check(u.String() == bu.String() && textOf(c, u) == bu.String(), "Uint128 text %q", u.String())
		c.check(i.String() == bi.String() && textOf(c, i) == bi.String(), "Int128 text %q, want %q", i.String(), bi)
		keep := new(big.Int).Set(bi)
		c.check(chain.NewUint128(bu) == u, "NewUint128(%v) = %#v", bu, chain.NewUint128(bu))
		c.check(chain.NewInt128(bi) == i, "NewInt128(%v) = %#v", bi, chain.NewInt128(bi))
		c.check(keep.Cmp(bi) == 0, "the argument was changed to %v", bi)
		gu, err := chain.NewUint128FromString(bu.String())
		c.check(err == nil && gu == u, "NewUint128FromString(%v) = %#v, %v", bu, gu, err)
		gi, err := chain.NewInt128FromString(bi.String())
		c.check(err == nil && gi == i, "NewInt128FromString(%v) = %#v, %v", bi, gi, err)
		be := cat(rev(le(hi, 8)), rev(le(lo, 8)))
		c.check(bytes.Equal(u.Bytes(binary.BigEndian), be) && bytes.Equal(u.Bytes(binary.LittleEndian), rev(be)), "Uint128.Bytes %x %x", u.Bytes(binary.BigEndian), u.Bytes(binary.LittleEndian))
		c.check(bytes.Equal(i.Bytes(binary.BigEndian), be) && bytes.Equal(i.Bytes(binary.LittleEndian), rev(be)), "Int128.Bytes %x %x", i.Bytes(binary.BigEndian), i.Bytes(binary.LittleEndian))
	})
	reg("C12", "texts", func(c *Ctx) {
		lo, hi := c.u128()
		n := signed128(big128(lo, hi))
		switch c.Intn(4) {
		case 0:
			n = big128(lo, hi)
		case 1:
			n = new(big.Int).Lsh(big.NewInt(1), uint(126+c.Intn(4)))
			n.Add(n, big.NewInt(int64(c.Intn(3)-1)))
			if c.p(2) {
				n.Neg(n)
			}
		}
		t := n.String()
		if c.p(3) {
			t = c.mutateText(t, "0123456789+-_ xe.")
		}
		if c.p(20) {
			t = c.str(45)
		}
		c.note("text %q", t)
		m, ok := new(big.Int).SetString(t, 10)
		ok = ok && reDec.MatchString(t)
		uok := ok && m.Sign() >= 0 && m.BitLen() <= 128
		lim := new(big.Int).Lsh(big.NewInt(1), 127)
		iok := ok && m.Cmp(lim) < 0 && m.Cmp(new(big.Int).Neg(lim)) >= 0
		var u chain.Uint128
		err := parse(c, &u, t)
		c.check((err == nil) == uok && (!uok || u.BigInt().Cmp(m) == 0), "Uint128: %#v, %v, want ok=%v", u, err, uok)
		u, err = chain.NewUint128FromString(t)
		c.check((err == nil) == uok && (!uok || u.BigInt().Cmp(m) == 0), "NewUint128FromString: %#v, %v, want ok=%v", u, err, uok)
		var i chain.Int128
		err = parse(c, &i, t)
		c.check((err == nil) == iok && (!iok || i.BigInt().Cmp(m) == 0), "Int128: %#v, %v, want ok=%v", i, err, iok)
		if ok && m.Sign() >= 0 && m.BitLen() > 128 {
			c.check(recovered(func() { chain.NewUint128(m) }) != nil, "NewUint128 accepted %v", m)
		}
		if ok && !iok {
			c.check(recovered(func() { chain.NewInt128(m) }) != nil, "NewInt128 accepted %v", m)
		}
	})

	reg("C13", "counters", func(c *Ctx) {
		u := c.u64()
		tp := chain.TimePoint(int64(u))
		c.note("counter %d", int64(u))
		t := tp.Time()
		c.check(t.UnixMicro() == int64(u) && t.Nanosecond()%1000 == 0, "TimePoint(%d).Time() = %v", int64(u), t)
		c.check(chain.NewTimePoint(t.In(c.zone())) == tp, "NewTimePoint = %d", chain.NewTimePoint(t))
		if y := t.UTC().Year(); y >= 0 && y <= 9999 {
			s := tp.String()
			want := floorDiv(int64(u), 1000) * 1000
			c.check(s == t.UTC().Format("2006-01-02T15:04:05.000") && textOf(c, tp) == s, "text %q", s)
			g, err := chain.NewTimePointFromString(s + []string{"", "Z"}[c.Intn(2)])
			c.check(err == nil && int64(g) == want, "%q parsed as %d, %v, want %d", s, g, err, want)
		}
		s32 := uint32(u)
		ts := chain.TimePointSec(s32)
		c.check(ts.Time().Unix() == int64(s32) && ts.Time().Nanosecond() == 0 && chain.NewTimePointSec(ts.Time().In(c.zone())) == ts, "TimePointSec(%d).Time() = %v", s32, ts.Time())
		st := ts.String()
		c.check(st == time.Unix(int64(s32), 0).UTC().Format("2006-01-02T15:04:05") && textOf(c, ts) == st, "TimePointSec text %q", st)
		gs, err := chain.NewTimePointSecFromString(st + []string{"", "Z"}[c.Intn(2)])
		c.check(err == nil && gs == ts, "%q parsed as %d, %v", st, gs, err)
		bt := chain.BlockTimestamp(s32)
		ms := int64(s32)*500 + 946684800000
		c.check(bt.Time().UnixMilli() == ms && bt.Time().Nanosecond()%1e6 == 0 && chain.NewBlockTimestamp(bt.Time().In(c.zone())) == bt, "BlockTimestamp(%d).Time() = %v", s32, bt.Time())
		near := bt.Time().Add(time.Duration(c.Intn(499)-249) * time.Millisecond)
		c.check(chain.NewBlockTimestamp(near) == bt, "NewBlockTimestamp(%v) = %d, want %d", near, chain.NewBlockTimestamp(near), bt)
		sb := bt.String()
		c.check(sb == time.UnixMilli(ms).UTC().Format("2006-01-02T15:04:05.000") && textOf(c, bt) == sb, "BlockTimestamp text %q", sb)
		gb, err := chain.NewBlockTimestampFromString(sb + []string{"", "Z"}[c.Intn(2)])
		c.check(err == nil && gb == bt, "%q parsed as %d, %v", sb, gb, err)
	})
	reg("C13", "texts", func(c *Ctx) {
		ms := c.p(2)
		s := c.timeText(ms)
		if c.p(20) {
			s = c.str(30)
		}
		c.note("text %q", s)
		t, ok := refTime(s, "2006-01-02T15:04:05.000")
		otp := chain.TimePoint(c.u64())
		tp := otp
		err := parse(c, &tp, s)
		c.check((err == nil) == ok, "TimePoint error %v, want ok=%v", err, ok)
		if ok {
			c.check(int64(tp) == t.UnixMicro(), "TimePoint %d, want %d", tp, t.UnixMicro())
		} else {
			c.check(tp == otp, "a failed parse changed the destination")
		}
		obt := chain.BlockTimestamp(c.u64())
		bt := obt
		var want int64
		if ok {
			d := t.UnixMilli() - 946684800000
			want = floorDiv(d+250, 500)
		}
		bok := ok && want >= 0 && want < 1<<32
		err = parse(c, &bt, s)
		c.check((err == nil) == bok, "BlockTimestamp error %v, want ok=%v", err, bok)
		if bok {
			c.check(int64(bt) == want, "BlockTimestamp %d, want %d", bt, want)
		} else {
			c.check(bt == obt, "a failed parse changed the destination")
		}
		t, ok = refTime(s, "2006-01-02T15:04:05")
		ok = ok && t.Unix() >= 0 && t.Unix() < 1<<32
		ots := chain.TimePointSec(c.u64())
		ts := ots
		err = parse(c, &ts, s)
		c.check((err == nil) == ok, "TimePointSec error %v, want ok=%v", err, ok)
		if ok {
			c.check(int64(ts) == t.Unix(), "TimePointSec %d, want %d", ts, t.Unix())
		} else {
			c.check(ts == ots, "a failed parse changed the destination")
		}
	})

	reg("C14", "hex values", func(c *Ctx) {
		b := c.blob(400)
		want := refHex(b)
		c.note("bytes %s", want)
		c.check(chain.Bytes(b).Hex() == want && textOf(c, chain.Bytes(b)) == want, "text %q / %q", chain.Bytes(b).Hex(), textOf(c, chain.Bytes(b)))
		g := chain.Bytes(c.blob(20))
		c.check(parse(c, &g, want) == nil && bytes.Equal(g, b), "parsed as %x", []byte(g))
		c.check(parse(c, &g, strings.ToUpper(want)) == nil && bytes.Equal(g, b), "upper case parsed as %x", []byte(g))
		var c1, d1 chain.Checksum160
		copy(c1[:], c.bytes(20))
		c.check(c1.String() == refHex(c1[:]) && textOf(c, c1) == refHex(c1[:]), "checksum160 %q", c1.String())
		c.check(parse(c, &d1, refHex(c1[:])) == nil && c1 == d1, "checksum160 %x parsed as %x", c1[:], d1[:])
		var c2, d2 chain.Checksum256
		copy(c2[:], c.bytes(32))
		c.check(c2.String() == refHex(c2[:]) && textOf(c, c2) == refHex(c2[:]), "checksum256 %q", c2.String())
		c.check(parse(c, &d2, refHex(c2[:])) == nil && c2 == d2, "checksum256 %x parsed as %x", c2[:], d2[:])
		var c5, d5 chain.Checksum512
		copy(c5[:], c.bytes(64))
		c.check(c5.String() == refHex(c5[:]) && textOf(c, c5) == refHex(c5[:]), "checksum512 %q", c5.String())
		c.check(parse(c, &d5, refHex(c5[:])) == nil && c5 == d5, "checksum512 %x parsed as %x", c5[:], d5[:])
		var f, h chain.Float128
		copy(f.Data[:], c.bytes(16))
		c.check(textOf(c, f) == refHex(f.Data[:]), "float128 %q", textOf(c, f))
		c.check(parse(c, &h, refHex(f.Data[:])) == nil && f == h, "float128 %x parsed as %x", f.Data, h.Data)
	})
	reg("C14", "hex texts", func(c *Ctx) {
		n := []int{0, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, c.Intn(80)}[c.Intn(14)]
		s := refHex(c.bytes(n))
		if c.p(2) {
			s = c.mutateText(s, "0123456789abcdefABCDEFgG/:@` \n")
		}
		c.note("hex text %q", s)
		b, ok := refUnhex(s)
		old := append([]byte{}, c.blob(10)...)
		g := chain.Bytes(append([]byte{}, old...))
		al := g
		err := parse(c, &g, s)
		c.check((err == nil) == ok, "Bytes: error %v, want ok=%v", err, ok)
		if ok {
			c.check(bytes.Equal(g, b), "Bytes = %x", []byte(g))
		} else {
			c.check(bytes.Equal(g, old), "a failed parse changed the destination")
		}
		c.check(bytes.Equal(al, old), "earlier data was overwritten")
		fixed := func(name string, size int, dst []byte, u encoding.TextUnmarshaler) {
			old := c.bytes(size)
			copy(dst, old)
			err := parse(c, u, s)
			fok := ok && len(b) == size
			c.check((err == nil) == fok, "%s: error %v, want ok=%v", name, err, fok)
			if fok {
				c.check(bytes.Equal(dst, b), "%s = %x", name, dst)
			} else {
				c.check(bytes.Equal(dst, old), "%s: a failed parse changed the destination", name)
			}
		}
		var c1 chain.Checksum160
		fixed("checksum160", 20, c1[:], &c1)
		var c2 chain.Checksum256
		fixed("checksum256", 32, c2[:], &c2)
		var c5 chain.Checksum512
		fixed("checksum512", 64, c5[:], &c5)
		var f chain.Float128
		fixed("float128", 16, f.Data[:], &f)
	})
	reg("C14", "base64", func(c *Ctx) {
		b := c.blob(300)
		want := refB64(b)
		c.note("blob %x", b)
		c.check(chain.Blob(b).Base64() == want && textOf(c, chain.Blob(b)) == want, "text %q / %q, want %q", chain.Blob(b).Base64(), textOf(c, chain.Blob(b)), want)
		g := chain.Blob(c.blob(10))
		c.check(parse(c, &g, want) == nil && bytes.Equal(g, b), "%q parsed as %x", want, []byte(g))
		np := strings.TrimRight(want, "=")
		c.check(parse(c, &g, np) == nil && bytes.Equal(g, b), "%q parsed as %x", np, []byte(g))
		s := c.mutateText(want, "ABCabc019+/=-_ \n")
		if c.p(2) {
			s = c.mutateText(np, "ABCabc019+/=-_ \n")
		}
		c.note("base64 text %q", s)
		s2 := s + []string{"", "", "==", "="}[len(s)%4]
		d, er := base64.StdEncoding.DecodeString(s2)
		old := c.blob(10)
		g = append(chain.Blob{}, old...)
		al := g
		// spare capacity behind the text must not be touched
		buf := append([]byte(s), "1234"...)
		err := g.UnmarshalText(buf[:len(s)])
		c.check(string(buf) == s+"1234", "the buffer behind the text was modified")
		c.check((err == nil) == (er == nil), "error %v, want %v", err, er)
		if er == nil {
			c.check(bytes.Equal(g, d), "= %x, want %x", []byte(g), d)
		} else {
			c.check(bytes.Equal(g, old), "a failed parse changed the destination")
		}
		c.check(bytes.Equal(al, old), "earlier data was overwritten")
	})

	reg("C15", "bytes", func(c *Ctx) {
		b := c.blob(300)
		if c.p(3) {
			b = cat(make([]byte, c.Intn(5)), b)
		}
		keep := append([]byte{}, b...)
		c.note("bytes %x", b)
		s := base58.Encode(b)
		c.check(bytes.Equal(b, keep), "the input was modified")
		c.check(s == refB58(b), "text %q, want %q", s, refB58(b))
		c.check(bytes.Equal(base58.Decode(s), b), "decoded as %x", base58.Decode(s))
	})
	reg("C15", "powers", func(c *Ctx) {
		n := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(c.Intn(60))), nil)
		n.Mul(n, big.NewInt(int64(1+c.Intn(58))))
		n.Add(n, big.NewInt(int64(c.Intn(3)-1)))
		b := cat(make([]byte, c.Intn(3)), n.Bytes())
		c.note("bytes %x", b)
		s := base58.Encode(b)
		c.check(s == refB58(b), "text %q, want %q", s, refB58(b))
		c.check(bytes.Equal(base58.Decode(s), b), "decoded as %x", base58.Decode(s))
	})
	reg("C15", "texts", func(c *Ctx) {
		s := c.from(b58a, c.length(200))
		if c.p(3) {
			s = c.from("1", c.Intn(14)) + s
		}
		if c.p(3) {
			s = c.from("1z", c.Intn(40))
		}
		if c.p(3) {
			s = c.mutateText(s, b58a+"0OIl ")
		}
		if c.p(20) {
			s = c.str(60)
		}
		c.note("text %q", s)
		g := base58.Decode(s)
		c.check(bytes.Equal(g, refUnB58(s)), "decoded as %x, want %x", g, refUnB58(s))
	})

	reg("C16", "encode", func(c *Ctx) {
		b := c.blob(120)
		suf := []string{"", "K1", "P1", "WA", string(c.bytes(c.Intn(100)))}[c.Intn(5)]
		// spare capacity behind the payload must not be touched
		buf := append(append([]byte{}, b...), 1, 2, 3, 4, 5, 6, 7, 8)
		c.note("payload %x suffix %q", b, suf)
		s := base58.CheckEncodeEosio(buf[:len(b)], suf)
		c.check(s == refB58(cat(b, sum4(b, suf, true))), "eosio text %q", s)
		t := base58.CheckEncode(buf[:len(b)])
		c.check(t == refB58(cat(b, sum4(b, "", false))), "text %q", t)
		c.check(bytes.Equal(buf, cat(b, []byte{1, 2, 3, 4, 5, 6, 7, 8})), "the input was modified")
		g, err := base58.CheckDecodeEosio(s, suf)
		c.check(err == nil && bytes.Equal(g, b), "%q decoded as %x, %v", s, g, err)
		g, err = base58.CheckDecode(t)
		c.check(err == nil && bytes.Equal(g, b), "%q decoded as %x, %v", t, g, err)
	})
	reg("C16", "decode", func(c *Ctx) {
		b := c.blob(80)
		suf := []string{"", "K1", "P1", string(c.bytes(c.Intn(100)))}[c.Intn(4)]
		eos := c.p(2)
		sum := sum4(b, suf, eos)
		switch c.Intn(6) {
		case 0:
			sum[c.Intn(4)] ^= byte(1 << uint(c.Intn(8)))
		case 1:
			sum = sum[:c.Intn(4)]
		case 2:
			if len(b) > 0 {
				b = append([]byte{}, b...)
				b[c.Intn(len(b))] ^= byte(1 << uint(c.Intn(8)))
			}
		case 3:
			b = b[:0]
		}
		s := refB58(cat(b, sum))
		if c.p(3) {
			s = c.mutateText(s, b58a)
		}
		if c.p(10) {
			s = c.from(b58a, c.Intn(8))
		}
		c.note("text %q suffix %q eosio %v", s, suf, eos)
		want, ok := refCheckDecode(s, suf, eos)
		var g []byte
		var err error
		if eos {
			g, err = base58.CheckDecodeEosio(s, suf)
		} else {
			g, err = base58.CheckDecode(s)
		}
		c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
		if ok {
			c.check(bytes.Equal(g, want), "payload %x, want %x", g, want)
		} else {
			c.check(len(g) == 0, "a payload was returned with the error: %x", g)
		}
	})

	reg("C17", "public keys", func(c *Ctx) {
		c.small = true
		t, d := c.keyData(false)
		if c.p(4) {
			d = c.blob(60)
		}
		k := chain.NewPublicKey(t, d)
		c.note("key type %d data %x", t, d)
		want := "PUB_" + keyTag(t) + "_" + refB58(cat(d, sum4(d, keyTag(t), true)))
		c.check(k.String() == want && textOf(c, *k) == want && textOf(c, k) == want, "text %q / %q, want %q", k.String(), textOf(c, *k), want)
		g, err := chain.NewPublicKeyFromString(want)
		c.check(err == nil && g.Type == t && bytes.Equal(g.Data, d), "%q parsed as %v, %v", want, g, err)
		js, err := json.Marshal(*k)
		c.check(err == nil && string(js) == `"`+want+`"`, "JSON %s, %v", js, err)
		if t == chain.K1 {
			pre := []string{"EOS", "", "FIO", "ABCDEF", "PUB"}[c.Intn(5)]
			if len(d) == 33 {
				d = append([]byte{}, d...)
				d[0] = byte(2 + c.Intn(2))
			}
			k = chain.NewPublicKey(t, d)
			lw := pre + refB58(cat(d, sum4(d, "", true)))
			c.check(k.LegacyString(pre) == lw, "legacy text %q, want %q", k.LegacyString(pre), lw)
			if len(d) == 33 && d[0] >= 2 {
				g, err := chain.NewPublicKeyFromString(lw)
				c.check(err == nil && g.Type == chain.K1 && bytes.Equal(g.Data, d), "%q parsed as %v, %v", lw, g, err)
			}
		} else {
			c.check(recovered(func() { k.LegacyString("EOS") }) != nil, "legacy text of a key that is not K1")
		}
	})
	reg("C17", "signatures", func(c *Ctx) {
		c.small = true
		t, d := c.keyData(true)
		if c.p(4) {
			d = c.blob(90)
		}
		k := chain.NewSignature(t, d)
		c.note("signature type %d data %x", t, d)
		want := "SIG_" + keyTag(t) + "_" + refB58(cat(d, sum4(d, keyTag(t), true)))
		c.check(k.String() == want && textOf(c, *k) == want, "text %q / %q, want %q", k.String(), textOf(c, *k), want)
		g, err := chain.NewSignatureString(want)
		c.check(err == nil && g.Type == t && bytes.Equal(g.Data, d), "%q parsed as %v, %v", want, g, err)
		js, err := json.Marshal(*k)
		c.check(err == nil && string(js) == `"`+want+`"`, "JSON %s, %v", js, err)
	})
	reg("C17", "texts", func(c *Ctx) {
		sig := c.p(2)
		c.small = true
		t, d := c.keyData(sig)
		if c.p(2) {
			d = c.bytes(c.Intn(40))
		}
		tag := keyTag(t)
		s := []string{"PUB_", "SIG_"}[c.Intn(2)] + tag + "_" + refB58(cat(d, sum4(d, tag, true)))
		switch c.Intn(7) {
		case 0:
			s = "EOS" + refB58(cat(d, sum4(d, "", true)))
		case 1:
			s = s[:c.Intn(len(s)+1)]
		case 2:
			bad := []string{"R1", "XX", "K2", "k1", "", "K", strings.ToLower(tag), string([]byte{tag[0], tag[1] ^ 32}), string([]byte{tag[0] ^ 32, tag[1]}), string([]byte{tag[1], tag[0]}), c.from("KPWA1R2", 2)}[c.Intn(11)]
			over := tag
			if c.p(2) {
				over = bad
			}
			s = []string{"PUB_", "SIG_"}[c.Intn(2)] + bad + "_" + refB58(cat(d, sum4(d, over, true)))
		case 4: // other prefix or separators, checksum right
			b := []byte(s)
			switch c.Intn(3) {
			case 0:
				b[[]int{3, 6}[c.Intn(2)]] = "-_ .:/K1"[c.Intn(8)]
			case 1:
				b[c.Intn(3)] ^= 32
			default:
				b[c.Intn(7)] = "PUBSIG_pubsig-K1WAwak"[c.Intn(21)]
			}
			s = string(b)
		case 3:
			dd := append([]byte{2}, c.bytes(32)...)
			s = c.from("EOSab_", c.Intn(8)) + refB58(cat(dd, sum4(dd, "", true)))
		}
		if c.p(3) {
			s = c.mutateText(s, b58a+"_")
		}
		if c.p(20) {
			s = c.str(80)
		}
		c.note("signature %v text %q", sig, s)
		wt, wd, ok := refKeyText(s, sig)
		if sig {
			g, err := chain.NewSignatureString(s)
			c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
			c.check(!ok || g.Type == wt && bytes.Equal(g.Data, wd), "= %v", g)
			x := chain.Signature{Type: 7, Data: []byte{1, 2}}
			err = parse(c, &x, s)
			c.check((err == nil) == ok, "UnmarshalText error %v, want ok=%v", err, ok)
			c.check(!ok || x.Type == wt && bytes.Equal(x.Data, wd), "UnmarshalText = %v", x)
			c.check(ok || x.Type == 7 && bytes.Equal(x.Data, []byte{1, 2}), "a failed parse changed the destination")
		} else {
			g, err := chain.NewPublicKeyFromString(s)
			c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
			c.check(!ok || g.Type == wt && bytes.Equal(g.Data, wd), "= %v", g)
			x := chain.PublicKey{Type: 7, Data: []byte{1, 2}}
			err = parse(c, &x, s)
			c.check((err == nil) == ok, "UnmarshalText error %v, want ok=%v", err, ok)
			c.check(!ok || x.Type == wt && bytes.Equal(x.Data, wd), "UnmarshalText = %v", x)
			c.check(ok || x.Type == 7 && bytes.Equal(x.Data, []byte{1, 2}), "a failed parse changed the destination")
		}
	})

	reg("C18", "splits", func(c *Ctx) {
		h := ripemd160.New()
		var msg []byte
		for k := c.Intn(8); k >= 0; k-- {
			switch c.Intn(8) {
			case 0:
				h.Reset()
				msg = nil
				c.note("reset")
			case 1:
				pre := c.bytes(c.Intn(5))
				buf := append(append(make([]byte, 0, 64), pre...), 9)[:len(pre)]
				s := h.Sum(buf)
				w := refRipemd(msg)
				c.note("sum")
				c.check(bytes.Equal(s, cat(pre, w[:])), "sum %x, want %x%x", s, pre, w)
			default:
				b := c.blob(300)
				if c.p(2) {
					b = c.bytes([]int{1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129}[c.Intn(12)])
				}
				keep := append([]byte{}, b...)
				n, err := h.Write(b)
				c.note("write %x", b)
				c.check(n == len(b) && err == nil, "Write = %d, %v", n, err)
				c.check(bytes.Equal(b, keep), "the input was modified")
				msg = append(msg, b...)
			}
		}
		s := h.Sum(nil)
		w := refRipemd(msg)
		c.check(bytes.Equal(s, w[:]), "hash of %x is %x, want %x", msg, s, w)
		c.check(h.Size() == 20 && h.BlockSize() == 64, "size %d block size %d", h.Size(), h.BlockSize())
	})
	reg("C18", "one write", func(c *Ctx) {
		b := c.blob(300)
		c.note("message %x", b)
		h := ripemd160.New()
		h.Write(b)
		s := h.Sum(nil)
		w := refRipemd(b)
		c.check(bytes.Equal(s, w[:]), "hash is %x, want %x", s, w)
	})

	reg("C19", "messages", func(c *Ctx) {
		b := c.blob(1000)
		keep := append([]byte{}, b...)
		c.note("message %x", b)
		c.check(chain.Checksum160Digest(b) == chain.Checksum160(refRipemd(b)), "checksum160 %x", chain.Checksum160Digest(b))
		c.check(chain.Checksum256Digest(b) == chain.Checksum256(sha256.Sum256(b)), "checksum256 %x", chain.Checksum256Digest(b))
		c.check(chain.Checksum512Digest(b) == chain.Checksum512(sha512.Sum512(b)), "checksum512 %x", chain.Checksum512Digest(b))
		c.check(bytes.Equal(b, keep), "the message was modified")
	})
	reg("C19", "actions", func(c *Ctx) {
		a := c.action(c.p(2))
		c.note("action %#v", a)
		w := ref(a)
		d := a.Digest()
		c.check(d == chain.Checksum256(sha256.Sum256(w)), "digest %x", d)
		c.check(bytes.Equal(ref(a), w), "the action was modified")
	})

	reg("C20", "values", func(c *Ctx) {
		u := c.u64()
		c.note("value %d", u)
		want := new(big.Int).SetUint64(u).String()
		js := want
		if u > 1<<32-1 {
			js = `"` + js + `"`
		}
		b, err := chain.Uint64(u).MarshalJSON()
		c.check(err == nil && string(b) == js, "JSON %s, %v, want %s", b, err, js)
		b, err = json.Marshal(map[string]chain.Uint64{"a": chain.Uint64(u)})
		c.check(err == nil && string(b) == `{"a":`+js+`}`, "JSON %s, %v", b, err)
		for _, s := range []string{want, `"` + want + `"`} {
			g := chain.Uint64(c.u64())
			err = json.Unmarshal([]byte(s), &g)
			c.check(err == nil && uint64(g) == u, "%s read as %d, %v", s, g, err)
		}
		n := chain.BlockNum(u)
		b, err = n.MarshalJSON()
		w := new(big.Int).SetUint64(uint64(n)).String()
		c.check(err == nil && string(b) == w, "block number JSON %s, %v", b, err)
		for _, s := range []string{w, `"` + w + `"`} {
			g := chain.BlockNum(c.u64())
			err = json.Unmarshal([]byte(s), &g)
			c.check(err == nil && g == n, "%s read as block number %d, %v", s, uint32(g), err)
		}
		p := w
		for len(p) < 10 {
			p = "0" + p
		}
		c.check(n.String() == p, "block number text %q, want %q", n.String(), p)
	})
	reg("C20", "tokens", func(c *Ctx) {
		s := new(big.Int).SetUint64(c.u64()).String()
		if c.p(4) {
			n := new(big.Int).Lsh(big.NewInt(1), []uint{32, 64, 65}[c.Intn(3)])
			s = n.Add(n, big.NewInt(int64(c.Intn(3)-1))).String()
		}
		if c.p(3) {
			s = `"` + s + `"`
		}
		if c.p(2) {
			s = c.mutateText(s, `0123456789"+-_.e `)
		}
		if c.p(20) {
			s = c.str(30)
		}
		c.note("token %q", s)
		t := s
		if len(t) > 1 && t[0] == '"' && t[len(t)-1] == '"' {
			t = t[1 : len(t)-1]
		}
		m, ok := new(big.Int).SetString(t, 10)
		ok = ok && reDigits.MatchString(t) && m.IsUint64()
		old := chain.Uint64(c.u64())
		g := old
		in := []byte(s)
		err := g.UnmarshalJSON(in)
		c.check(string(in) == s, "the input was modified")
		c.check((err == nil) == ok, "error %v, want ok=%v", err, ok)
		if ok {
			c.check(uint64(g) == m.Uint64(), "= %d", g)
		} else {
			c.check(g == old, "a failed parse changed the destination")
		}
		bok := ok && m.BitLen() <= 32
		ob := chain.BlockNum(c.u64())
		b := ob
		err = b.UnmarshalJSON([]byte(s))
		c.check((err == nil) == bok, "block number error %v, want ok=%v", err, bok)
		if bok {
			c.check(uint64(b) == m.Uint64(), "block number = %d", uint32(b))
		} else {
			c.check(b == ob, "a failed parse changed the destination")
		}
	})
}

var reDigits = regexp.MustCompile(`^[0-9]+$`)

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func refHex(b []byte) string {
	var s []byte
	for _, x := range b {
		s = append(s, "0123456789abcdef"[x/16], "0123456789abcdef"[x%16])
	}
	return string(s)
}

func refUnhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	var b []byte
	for i := 0; i < len(s); i += 2 {
		h, l := strings.IndexByte("0123456789abcdef", lower(s[i])), strings.IndexByte("0123456789abcdef", lower(s[i+1]))
		if h < 0 || l < 0 {
			return nil, false
		}
		b = append(b, byte(h*16+l))
	}
	return b, true
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'F' {
		return c + 32
	}
	return c
}

func refB64(b []byte) string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var s []byte
	for i := 0; i < len(b); i += 3 {
		var g [3]byte
		n := copy(g[:], b[i:])
		v := int(g[0])<<16 | int(g[1])<<8 | int(g[2])
		q := []byte{a[v>>18], a[v>>12&63], a[v>>6&63], a[v&63]}
		for k := n + 1; k < 4; k++ {
			q[k] = '='
		}
		s = append(s, q...)
	}
	return string(s)
}

// refRipemd: RIPEMD-160 from its specification, on a complete message
func refRipemd(msg []byte) [20]byte {
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = append(m, le(uint64(len(msg))*8, 8)...)
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	rho := [16]int{7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8}
	var r, rp [80]int
	for i := 0; i < 16; i++ {
		r[i] = i
		rp[i] = (9*i + 5) % 16
	}
	for i := 16; i < 80; i++ {
		r[i] = rho[r[i-16]]
		rp[i] = rho[rp[i-16]]
	}
	// shifts by round and message word
	sh := [5][16]uint{
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
		{12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
		{14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5},
	}
	k := [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	kp := [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
	f := func(j int, x, y, z uint32) uint32 {
		switch j {
		case 0:
			return x ^ y ^ z
		case 1:
			return x&y | ^x&z
		case 2:
			return (x | ^y) ^ z
		case 3:
			return x&z | y&^z
		}
		return x ^ (y | ^z)
	}
	rol := func(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }
	for ; len(m) > 0; m = m[64:] {
		var w [16]uint32
		for i := range w {
			w[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		A, B, C, D, E := a, b, c, d, e
		for i := 0; i < 80; i++ {
			j := i / 16
			t := rol(a+f(j, b, c, d)+w[r[i]]+k[j], sh[j][r[i]]) + e
			a, e, d, c, b = e, d, rol(c, 10), b, t
			t = rol(A+f(4-j, B, C, D)+w[rp[i]]+kp[j], sh[j][rp[i]]) + E
			A, E, D, C, B = E, D, rol(C, 10), B, t
		}
		t := h[1] + c + D
		h[1], h[2], h[3], h[4], h[0] = h[2]+d+E, h[3]+e+A, h[4]+a+B, h[0]+b+C, t
	}
	var out [20]byte
	for i, x := range h {
		binary.LittleEndian.PutUint32(out[4*i:], x)
	}
	return out
}
