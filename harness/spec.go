package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Bits numbers the bits of a field from 1, most significant first, as the standards do.
type Bits []byte

// U is the unsigned value of bits a..z.
func (b Bits) U(a, z int) int64 {
	var v int64
	for i := a; i <= z; i++ {
		v = v<<1 | int64(b[(i-1)/8]>>(7-uint(i-1)%8)&1)
	}
	return v
}

// Set writes v into bits a..z.
func (b Bits) Set(a, z int, v int64) {
	for i := z; i >= a; i-- {
		m := byte(1) << (7 - uint(i-1)%8)
		if v&1 == 1 {
			b[(i-1)/8] |= m
		} else {
			b[(i-1)/8] &^= m
		}
		v >>= 1
	}
}

func clone(b []byte) []byte { c := make([]byte, len(b)); copy(c, b); return c }

// F is one reported field: the leaf it must appear at, the bits that carry it and its value.
type F struct {
	Path string
	A, Z int
	V    func(b Bits) interface{} // float64 or string
}

func fU(path string, a, z int) F {
	return F{path, a, z, func(b Bits) interface{} { return float64(b.U(a, z)) }}
}
func fB(path string, a int) F { return fU(path, a, a) }
func fK(path string, v float64) F {
	return F{path, 0, 0, func(Bits) interface{} { return v }}
}

// fL: value = raw * scale + offset
func fL(path string, a, z int, scale, off float64) F {
	return F{path, a, z, func(b Bits) interface{} { return float64(b.U(a, z))*scale + off }}
}

// fS: two's complement with a sign bit at s and the rest in a..z
func fS(path string, s, a, z int, scale float64) F {
	return F{path, s, z, func(b Bits) interface{} {
		v := float64(b.U(a, z))
		if b.U(s, s) == 1 {
			v -= float64(int64(1) << uint(z-a+1))
		}
		return v * scale
	}}
}
func fX(path string, a, z int, v func(b Bits) float64) F {
	return F{path, a, z, func(b Bits) interface{} { return v(b) }}
}
func fStr(path string, a, z int, v func(b Bits) string) F {
	return F{path, a, z, func(b Bits) interface{} { return v(b) }}
}

// Reg is the layout of one register or message variant.
type Reg struct {
	Name   string // short name, for observation classes
	Type   string // suffix of the Go type name of the message
	Len    int
	Fields []F
	More   func(b Bits) []F      // fields that depend on the content
	Zero   [][2]int              // bits that must be zero to be accepted
	Accept func(b Bits) bool     // further conditions for acceptance
	Ident  [][3]int              // bits a..z have value v: what makes it this register
	Gen    func(r *Rand, b Bits) // adjusts generated content (optional)
}

func (g *Reg) accepts(b Bits) bool {
	for _, z := range g.Zero {
		if b.U(z[0], z[1]) != 0 {
			return false
		}
	}
	for _, z := range g.Ident {
		if b.U(z[0], z[1]) != int64(z[2]) {
			return false
		}
	}
	return g.Accept == nil || g.Accept(b)
}

func (g *Reg) ident(b Bits) {
	for _, z := range g.Ident {
		b.Set(z[0], z[1], int64(z[2]))
	}
}

func (g *Reg) normalise(r *Rand, b Bits) {
	for _, z := range g.Zero {
		b.Set(z[0], z[1], 0)
	}
	g.ident(b)
	if g.Gen != nil {
		g.Gen(r, b)
	}
}

func (g *Reg) length() int {
	if g.Len == 0 {
		return 7
	}
	return g.Len
}

func (g *Reg) fields(b Bits) []F {
	f := g.Fields
	if g.More != nil {
		f = append(append([]F{}, f...), g.More(b)...)
	}
	return f
}

func numOf(v interface{}) (float64, bool, bool) { // value, is numeric, is float
	switch x := v.(type) {
	case int64:
		return float64(x), true, false
	case float64:
		return x, true, true
	case bool:
		if x {
			return 1, true, false
		}
		return 0, true, false
	}
	return 0, false, false
}

func sameValue(got interface{}, want interface{}) bool {
	if s, ok := want.(string); ok {
		g, ok := got.(string)
		return ok && g == s
	}
	w := want.(float64)
	g, num, isf := numOf(got)
	if !num {
		return false
	}
	if !isf {
		return g == w
	}
	return math.Abs(g-w) <= 1e-5*math.Max(1, math.Abs(w))
}

// compareLeaves checks every field of the layout against the decoded message.
func compareLeaves(c *Ctx, where string, msg interface{}, fields []F, b Bits) {
	compareSome(c, where, msg, fields, b)
	n := 0
	for i := range fields {
		if fields[i].V != nil {
			n++
		}
	}
	if c.strict && n != len(Flatten(msg)) {
		c.Fail("strict: %s: %d specified: %s", where, n, leafString(Flatten(msg)))
	}
}

// compareSome checks the given fields against the decoded message.
func compareSome(c *Ctx, where string, msg interface{}, fields []F, b Bits) {
	leaves := Flatten(msg)
	for i := range fields {
		f := &fields[i]
		if f.V == nil {
			continue
		}
		want := f.V(b)
		ok := false
		for j := range leaves {
			if leaves[j].Path == f.Path {
				ok = true
				if !sameValue(leaves[j].Val, want) {
					c.Fail("%s: field %s is %v, the bits say %v", where, f.Path, leaves[j].Val, want)
					return
				}
				break
			}
		}
		if !ok {
			c.Fail("%s: field %s is missing from the message", where, f.Path)
			return
		}
	}
	c.NonTrivial()
}

// Reader is one public entry point that reads a field of bytes.
type Reader struct {
	Name string
	Fn   func(data []byte) (interface{}, error)
}

// readMsg calls a reader and enforces the value-xor-error convention that every oracle relies on.
func readMsg(c *Ctx, rd *Reader, data []byte) (interface{}, bool) {
	in := clone(data)
	m, err := rd.Fn(in)
	if err != nil {
		if !IsNilResult(m) {
			c.Fail("%s returns both a message and an error (%v)", rd.Name, err)
		}
		return nil, false
	}
	if IsNilResult(m) {
		c.Fail("%s returns neither a message nor an error", rd.Name)
		return nil, false
	}
	return m, true
}

// checkReg judges one reader against one layout (nil: the input must be refused).
func checkReg(c *Ctx, rd *Reader, g *Reg, data []byte) {
	m, ok := readMsg(c, rd, data)
	b := Bits(data)
	want := g != nil && len(data) == g.length() && g.accepts(b)
	if !want {
		c.Obs(rd.Name + " must refuse")
		if ok {
			c.Fail("%s accepts input that must be refused, as %s", rd.Name, TypeName(m))
		}
		return
	}
	c.Obs(rd.Name + " " + g.Name)
	if !ok {
		c.Fail("%s refuses a valid %s", rd.Name, g.Name)
		return
	}
	if g.Type != "" && !hasType(m, g.Type) {
		c.Fail("%s decodes a %s as %s", rd.Name, g.Name, typeChain(m))
		return
	}
	compareLeaves(c, rd.Name, m, g.fields(b), b)
}

// ---------------------------------------------------------------- generators of field content

var edge = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048}

// codesOf lists codes of a width-w field: all of them up to 4096, else edges and a spread.
func codesOf(w int, lim int) []int64 {
	if w > 62 {
		w = 62
	}
	max := int64(1)<<uint(w) - 1
	if max < int64(lim) {
		out := make([]int64, max+1)
		for i := range out {
			out[i] = int64(i)
		}
		return out
	}
	m := map[int64]bool{}
	var out []int64
	add := func(v int64) {
		if v >= 0 && v <= max && !m[v] {
			m[v] = true
			out = append(out, v)
		}
	}
	for k := 0; k <= w; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(int64(1)<<uint(k) + d)
		}
	}
	add(max / 3)
	add(2 * (max / 3))
	for i := 0; len(out) < lim && i < 8*lim; i++ {
		add(int64(mix(uint64(i), uint64(w))) & max)
	}
	return out
}

// interesting codes of a width-w field for pair products.
func interesting(w int) []int64 {
	if w > 62 {
		w = 62
	}
	if w <= 3 {
		return codesOf(w, 8)
	}
	max := int64(1)<<uint(w) - 1
	m := map[int64]bool{}
	var out []int64
	for _, v := range []int64{0, 1, 2, max, max - 1, max / 2, max/2 + 1, max / 3, 2 * (max / 3), max / 5, max / 7} {
		if !m[v] {
			m[v] = true
			out = append(out, v)
		}
	}
	return out
}

type span struct{ a, z int }

func (g *Reg) spans() []span {
	var out []span
	seen := map[span]bool{}
	n := g.length() * 8
	covered := make([]bool, n+2)
	for _, f := range g.Fields {
		if f.A == 0 || seen[span{f.A, f.Z}] {
			continue
		}
		seen[span{f.A, f.Z}] = true
		out = append(out, span{f.A, f.Z})
		for i := f.A; i <= f.Z; i++ {
			covered[i] = true
		}
	}
	// uncovered stretches (spare, reserved) are spans too
	for i := 1; i <= n; i++ {
		if !covered[i] {
			j := i
			for j+1 <= n && !covered[j+1] && j-i < 15 {
				j++
			}
			out = append(out, span{i, j})
			i = j
		}
	}
	return out
}

func background(r *Rand, n, kind int) Bits {
	b := make(Bits, n)
	if n == 0 {
		return b
	}
	switch kind {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xFF
		}
	case 2:
		copy(b, r.Bytes(n))
		if r.N(8) == 0 { // as received from real traffic
			if x := recorded(r, n); x != nil {
				return x
			}
		}
	case 3: // sparse
		for k := 0; k < 1+r.N(4); k++ {
			p := 1 + r.N(n*8)
			b.Set(p, p, 1)
		}
	case 4: // dense
		for i := range b {
			b[i] = 0xFF
		}
		for k := 0; k < 1+r.N(4); k++ {
			p := 1 + r.N(n*8)
			b.Set(p, p, 0)
		}
	case 5: // alternating
		for i := range b {
			b[i] = 0x55 << uint(r.N(2))
		}
	}
	return b
}

// regBlocks generates the standard workload of one layout under scenario kind k.
// scale multiplies the amount of random cases.
func regBlocks(kind string, g *Reg, ints []int64, scale int) []Block {
	n := g.length()
	spans := g.spans()
	type sc struct {
		s span
		v int64
	}
	var sweep []sc
	for _, s := range spans {
		for _, v := range codesOf(s.z-s.a+1, 4096) {
			sweep = append(sweep, sc{s, v})
		}
	}
	type pair struct{ s, t span }
	var pairs []pair
	for i := range spans {
		for j := i + 1; j < len(spans); j++ {
			pairs = append(pairs, pair{spans[i], spans[j]})
		}
	}
	mk := func(b Bits) Case { return Case{K: kind, D: b, A: ints} }
	blocks := []Block{
		{kind + " every code of every field", len(sweep), func(r *Rand, i int, emit func(Case)) {
			for bg := 0; bg < 6; bg++ {
				for rep := 0; rep < 1+3*(bg&2)/2; rep++ {
					b := background(r, n, bg)
					g.normalise(r, b)
					b.Set(sweep[i].s.a, sweep[i].s.z, sweep[i].v)
					if bg != 3 || rep > 0 {
						// keep the identity unless this very field is the identity
						g.identKeep(b, sweep[i].s)
					}
					emit(mk(b))
				}
			}
		}},
		{kind + " pairs of fields", len(pairs), func(r *Rand, i int, emit func(Case)) {
			p := pairs[i]
			for _, v := range interesting(p.s.z - p.s.a + 1) {
				for _, w := range interesting(p.t.z - p.t.a + 1) {
					b := background(r, n, []int{2, 2, 0, 3, 1}[r.N(5)])
					g.normalise(r, b)
					b.Set(p.s.a, p.s.z, v)
					b.Set(p.t.a, p.t.z, w)
					emit(mk(b))
				}
			}
		}},
		{kind + " random content", 64 * scale, func(r *Rand, i int, emit func(Case)) {
			for k := 0; k < 256; k++ {
				b := background(r, n, []int{2, 2, 2, 2, 3, 4}[r.N(6)])
				g.normalise(r, b)
				emit(mk(b))
			}
		}},
		{kind + " all fields at edge codes", 32 * scale, func(r *Rand, i int, emit func(Case)) {
			for k := 0; k < 256; k++ {
				b := make(Bits, n)
				for _, s := range spans {
					w := interesting(s.z - s.a + 1)
					b.Set(s.a, s.z, w[r.N(len(w))])
				}
				g.normalise(r, b)
				emit(mk(b))
			}
		}},
		{kind + " one bit away from valid", 8 * scale, func(r *Rand, i int, emit func(Case)) {
			for bit := 1; bit <= n*8; bit++ {
				b := background(r, n, r.N(6))
				g.normalise(r, b)
				b.Set(bit, bit, 1-b.U(bit, bit))
				emit(mk(b))
			}
		}},
		{kind + " raw bytes", 16 * scale, func(r *Rand, i int, emit func(Case)) {
			for k := 0; k < 256; k++ {
				emit(mk(background(r, n, r.N(6))))
			}
		}},
	}
	return blocks
}

func (g *Reg) identKeep(b Bits, except span) {
	for _, z := range g.Ident {
		if z[0] <= except.z && z[1] >= except.a {
			continue
		}
		b.Set(z[0], z[1], int64(z[2]))
	}
}

// badLengths emits inputs of every length except the right one.
func badLengths(kind string, right int, ints []int64, ident []byte) Block {
	return Block{kind + " wrong lengths", 64, func(r *Rand, i int, emit func(Case)) {
		for l := 0; l <= 40; l++ {
			if l == right {
				continue
			}
			b := background(r, l, r.N(6))
			if i%2 == 0 {
				copy(b, ident)
			}
			emit(Case{K: kind, D: b, A: ints})
		}
		if i < 8 {
			for _, l := range []int{64, 128, 255, 256, 263, 512, 1024, 4096, 65536, 65543} {
				b := background(r, l, r.N(6))
				copy(b, ident)
				emit(Case{K: kind, D: b, A: ints})
			}
		}
	}}
}

func hasType(m interface{}, want string) bool {
	for _, t := range typeChain(m) {
		if t == want || strings.HasSuffix(t, "."+want) {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint

func sortStrings(s []string) { sort.Strings(s) }
