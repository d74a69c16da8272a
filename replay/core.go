// Native replay and search: runs the real code of /repo against independently written oracles.
// It replays counterexamples of the verifier (hints), validates the trusted models on every run,
// and stands in (bounded) for functions the verifier cannot reach.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type Hints struct {
	Ints  []string `json:"ints"`  // decimal
	Strs  []string `json:"strs"`  // latin-1 text
	Blobs [][]int  `json:"blobs"` // byte strings
}

type Failure struct {
	Property string   `json:"property"`
	Oracle   string   `json:"oracle"`
	Case     int64    `json:"case"`
	Message  string   `json:"message"`
	Input    []string `json:"input"`
	Hints    *Hints   `json:"hints,omitempty"`
}

type Oracle struct {
	Prop, Name string
	F          func(c *Ctx)
}

var oracles []Oracle

func reg(prop, name string, f func(c *Ctx)) { oracles = append(oracles, Oracle{prop, name, f}) }

type Ctx struct {
	*rand.Rand
	ints  []uint64
	strs  []string
	blobs [][]byte
	mu    sync.Mutex
	notes []string
	start time.Time
	it    int
	maps  int
	small bool
}

type failure string

func (c *Ctx) note(f string, a ...interface{}) {
	c.mu.Lock()
	if len(c.notes) < 20 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		c.notes = append(c.notes, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) failf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	panic(failure(s))
}

func (c *Ctx) check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.failf(f, a...)
	}
}

// ------------------------------------------------------------------ generators

func (c *Ctx) p(n int) bool { return c.Intn(n) == 0 }

func (c *Ctx) u64() uint64 {
	switch c.Intn(8) {
	case 0, 1:
		if len(c.ints) > 0 {
			v := c.ints[c.Intn(len(c.ints))]
			switch c.Intn(4) {
			case 0:
				return v + 1
			case 1:
				return v - 1
			}
			return v
		}
		fallthrough
	case 2:
		v := uint64(1) << uint(c.Intn(64))
		return v + uint64(c.Intn(3)) - 1
	case 3:
		return uint64(c.Intn(300))
	case 4:
		return ^uint64(0) - uint64(c.Intn(300))
	case 5:
		return c.Uint64() >> uint(c.Intn(64))
	case 6:
		// each byte independently extreme
		var v uint64
		for i := 0; i < 8; i++ {
			v = v<<8 | uint64([]byte{0, 1, 0x7f, 0x80, 0xff, byte(c.Intn(256))}[c.Intn(6)])
		}
		return v
	}
	return c.Uint64()
}

func (c *Ctx) length(max int) int {
	var n int
	switch c.Intn(10) {
	case 0:
		n = []int{126, 127, 128, 129, 255, 256, 257}[c.Intn(7)]
	case 1:
		n = c.Intn(600)
	case 2:
		n = 1 << uint(c.Intn(12))
	case 3:
		if len(c.ints) > 0 {
			v := c.ints[c.Intn(len(c.ints))]
			if v < 70000 {
				n = int(v) + c.Intn(3) - 1
				if n < 0 {
					n = 0
				}
			}
		}
	default:
		n = c.Intn(20)
	}
	if n > max {
		n = c.Intn(max + 1)
	}
	return n
}

func (c *Ctx) bytes(n int) []byte {
	b := make([]byte, n)
	c.Read(b)
	if n > 0 {
		switch c.Intn(6) {
		case 0:
			for i := 0; i < c.Intn(n+1); i++ {
				b[i] = 0
			}
		case 1:
			x := byte(c.Intn(256))
			for i := range b {
				b[i] = x
			}
		case 2:
			for i := range b {
				b[i] = []byte{0, 0xff, 0x80, 0x7f, 1}[c.Intn(5)]
			}
		}
	}
	return b
}

func (c *Ctx) blob(max int) []byte {
	if len(c.blobs) > 0 && c.p(5) {
		b := append([]byte{}, c.blobs[c.Intn(len(c.blobs))]...)
		if len(b) > max {
			b = b[:max]
		}
		return b
	}
	return c.bytes(c.length(max))
}

func (c *Ctx) str(max int) string {
	if len(c.strs) > 0 && c.p(4) {
		s := c.strs[c.Intn(len(c.strs))]
		if len(s) <= max {
			return s
		}
	}
	return string(c.blob(max))
}

func (c *Ctx) from(alphabet string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[c.Intn(len(alphabet))]
	}
	return string(b)
}

// mutate a text: insert, delete, replace, swap, repeat
func (c *Ctx) mutateText(s string, alphabet string) string {
	b := []byte(s)
	for k := 1 + c.Intn(3); k > 0; k-- {
		i := 0
		if len(b) > 0 {
			i = c.Intn(len(b))
		}
		ch := byte(c.Intn(256))
		if !c.p(3) {
			ch = alphabet[c.Intn(len(alphabet))]
		}
		switch c.Intn(5) {
		case 0:
			b = append(b[:i:i], append([]byte{ch}, b[i:]...)...)
		case 1:
			if len(b) > 0 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			if len(b) > 0 {
				b[i] = ch
			}
		case 3:
			b = append(b, ch)
		case 4:
			if len(b) > 1 {
				j := c.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			}
		}
	}
	return string(b)
}

// ------------------------------------------------------------------ readers and writers

var errBoom = errors.New("verif: injected failure")

type cr struct {
	b     []byte
	pos   int
	style int
	rnd   *rand.Rand
	end   error
}

func (r *cr) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.b) {
		return 0, r.end
	}
	n := len(p)
	switch r.style {
	case 1:
		n = 1
	case 2:
		n = 1 + r.rnd.Intn(n)
	}
	if n > len(r.b)-r.pos {
		n = len(r.b) - r.pos
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.style == 3 && r.pos == len(r.b) {
		return n, r.end // data and end of stream together
	}
	return n, nil
}

func (c *Ctx) reader(b []byte) *cr {
	end := io.EOF
	if c.p(10) {
		end = errBoom
	}
	return &cr{b: b, style: c.Intn(5), rnd: c.Rand, end: end}
}

// writer that accepts limit bytes; style 0: partial write then error, 1: rejects the whole write
type lw struct {
	buf   bytes.Buffer
	limit int
	style int
	hit   bool
}

func (w *lw) Write(p []byte) (int, error) {
	if w.hit {
		return 0, errBoom
	}
	if w.limit >= 0 && w.buf.Len()+len(p) > w.limit {
		w.hit = true
		n := 0
		if w.style == 0 {
			n = w.limit - w.buf.Len()
			w.buf.Write(p[:n])
		}
		return n, errBoom
	}
	return w.buf.Write(p)
}

// writer that fails exactly one write and works again afterwards
type glitch struct {
	buf bytes.Buffer
	at  int
	n   int
	hit bool
}

func (w *glitch) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.at {
		w.hit = true
		return 0, errBoom
	}
	return w.buf.Write(p)
}

func hx(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%x...(%d bytes)", b[:600], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// ------------------------------------------------------------------ main

type splitmix struct{ s uint64 }

func (x *splitmix) Seed(v int64) { x.s = uint64(v) }
func (x *splitmix) Uint64() uint64 {
	x.s += 0x9E3779B97F4A7C15
	z := x.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (x *splitmix) Int63() int64 { return int64(x.Uint64() >> 1) }

func mix(seed int64, i int64) int64 {
	x := uint64(seed)*0x9E3779B97F4A7C15 + uint64(i)*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return int64(x >> 1)
}

func runCase(o Oracle, c *Ctx, cs int64) (f *Failure) {
	c.Rand.Seed(cs)
	c.mu.Lock()
	c.notes, c.maps, c.small = nil, 0, false
	c.start = time.Now()
	c.mu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			if s, ok := r.(failure); ok {
				msg = string(s)
			} else {
				st := string(debug.Stack())
				var lines []string
				for _, l := range strings.Split(st, "\n") {
					if strings.Contains(l, "/repo/") {
						lines = append(lines, strings.TrimSpace(l))
					}
				}
				if len(lines) > 6 {
					lines = lines[:6]
				}
				msg = fmt.Sprintf("panic: %v\n%s", r, strings.Join(lines, "\n"))
			}
			f = &Failure{o.Prop, o.Name, cs, msg, append([]string{}, c.notes...), nil}
		}
	}()
	o.F(c)
	return nil
}

func main() {
	prop := flag.String("prop", "", "")
	only := flag.String("oracle", "", "")
	seed := flag.Int64("seed", 1, "")
	dur := flag.Duration("dur", 3*time.Second, "")
	one := flag.Int64("case", -1, "")
	hf := flag.String("hints", "", "")
	out := flag.String("out", "", "")
	max := flag.Int64("max", 1<<60, "")
	probe := flag.String("probe", "", "")
	flag.Parse()
	if *probe != "" {
		f := probes[*probe]
		if f == nil {
			os.Exit(4)
		}
		if f() {
			fmt.Println("fails")
		}
		os.Exit(0)
	}
	time.Local = time.FixedZone("odd", -(5*3600 + 1800 + 7)) // texts may not depend on the local zone
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	c := &Ctx{Rand: rand.New(&splitmix{1}), start: time.Now()}
	var h Hints
	if *hf != "" {
		b, err := os.ReadFile(*hf)
		if err == nil {
			var wrap struct {
				Hints *Hints `json:"hints"`
			}
			if json.Unmarshal(b, &wrap) == nil && wrap.Hints != nil {
				h = *wrap.Hints
			} else {
				json.Unmarshal(b, &h)
			}
		}
	}
	for _, s := range h.Ints {
		var v uint64
		var n int64
		if _, e := fmt.Sscan(s, &v); e == nil {
			c.ints = append(c.ints, v)
		} else if _, e := fmt.Sscan(s, &n); e == nil {
			c.ints = append(c.ints, uint64(n))
		}
	}
	for _, s := range h.Strs {
		var b []byte
		for _, r := range s {
			b = append(b, byte(r))
		}
		c.strs = append(c.strs, string(b))
	}
	for _, s := range h.Blobs {
		var b []byte
		for _, x := range s {
			b = append(b, byte(x))
		}
		c.blobs = append(c.blobs, b)
	}
	var os_ []Oracle
	for _, o := range oracles {
		if o.Prop == *prop && (*only == "" || o.Name == *only) {
			os_ = append(os_, o)
		}
	}
	if len(os_) == 0 {
		fmt.Println("no oracles for", *prop)
		os.Exit(4)
	}
	var cur *os.File
	if *out != "" {
		cur, _ = os.Create(*out + ".cur")
	}
	report := func(f *Failure) {
		f.Hints = &h
		if *out != "" {
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(*out, b, 0644)
		}
		fmt.Printf("FAIL %s/%s case %d: %s\n", f.Property, f.Oracle, f.Case, f.Message)
		for _, n := range f.Input {
			fmt.Println("   ", n)
		}
	}
	var curO string
	var curC int64
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c.mu.Lock()
			if time.Since(c.start) > 40*time.Second {
				f := &Failure{*prop, curO, curC, "does not terminate (40 s)", append([]string{}, c.notes...), nil}
				report(f)
				os.Exit(1)
			}
			c.mu.Unlock()
		}
	}()
	if *one >= 0 {
		for _, o := range os_ {
			curO, curC = o.Name, *one
			if f := runCase(o, c, *one); f != nil {
				report(f)
				os.Exit(1)
			}
		}
		fmt.Println("ok")
		return
	}
	t0 := time.Now()
	counts := map[string]int64{}
	var i int64
	for i = 0; i < *max; i++ {
		if time.Since(t0) > *dur {
			break
		}
		o := os_[int(i)%len(os_)]
		c.it = int(i) / len(os_)
		cs := mix(*seed, i)
		c.mu.Lock()
		curO, curC = o.Name, cs
		c.mu.Unlock()
		if cur != nil {
			s := fmt.Sprintf("%-40s %20d\n", o.Name, cs)
			cur.WriteAt([]byte(s), 0)
		}
		counts[o.Name]++
		if f := runCase(o, c, cs); f != nil {
			report(f)
			os.Exit(1)
		}
	}
	var ks []string
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b, _ := json.Marshal(counts)
	fmt.Printf("OK %s\n", b)
}
