// Package dst plans, executes, checks and minimises simulated runs.
package dst

import (
	"math"
	"strconv"
	"strings"

	ref "verifsim/orcref"
	"verifsim/simrt"
)

type Rand = simrt.Rand

// Data is a reproducible table: every column draws from its own stream, so
// columns and rows can be removed without changing the others.
type Data struct {
	T    *ref.Type `json:"t"`
	N    int       `json:"n"`
	Keep [][2]int  `json:"keep,omitempty"` // row ranges kept, all if empty
	Tame bool      `json:"tame,omitempty"` // no oversized values
	Long int       `json:"long,omitempty"` // some lists have up to so many elements
	// lists in lists which have as many as Long elements are empty
	Hollow bool `json:"hollow,omitempty"`
	Uniq   bool `json:"uniq,omitempty"` // no two strings are alike
	Big    bool `json:"big,omitempty"`  // values take much space, compressed or not
	// Strings of column Embed (if >0) now and then hold these bytes
	Embed []byte `json:"embed,omitempty"`

	rows  []ref.Val
	ready bool
}

func (d *Data) Rows() []ref.Val {
	if d.ready {
		return d.rows
	}
	d.T.Number()
	g := d.col(d.T, 0)
	all := make([]ref.Val, d.N)
	for i := range all {
		all[i] = g.next()
	}
	d.rows = all
	if len(d.Keep) > 0 {
		d.rows = nil
		for _, k := range d.Keep {
			for i := k[0]; i < k[1] && i < d.N; i++ {
				d.rows = append(d.rows, all[i])
			}
		}
	}
	d.ready = true
	return d.rows
}

// Cells counts the values of the table.
func (d *Data) Cells() int {
	n := 0
	var walk func(v ref.Val)
	walk = func(v ref.Val) {
		n++
		switch x := v.(type) {
		case []ref.Val:
			for _, y := range x {
				walk(y)
			}
		case ref.ListV:
			for _, y := range x {
				walk(y)
			}
		case ref.MapV:
			for i := range x.K {
				walk(x.K[i])
				walk(x.V[i])
			}
		}
	}
	for _, r := range d.Rows() {
		walk(r)
	}
	return n
}

// reseed returns other rows of the same type.
func (d *Data) reseed(seed uint64) *Data {
	var walk func(t *ref.Type) *ref.Type
	walk = func(t *ref.Type) *ref.Type {
		c := &ref.Type{Kind: t.Kind, Nulls: t.Nulls, Dict: t.Dict, Seed: simrt.Mix(t.Seed, seed) >> 16}
		for _, k := range t.Kids {
			c.Kids = append(c.Kids, walk(k))
		}
		return c
	}
	return &Data{T: walk(d.T), N: d.N, Tame: d.Tame, Long: d.Long, Hollow: d.Hollow, Uniq: d.Uniq, Big: d.Big}
}

type colGen struct {
	t     *ref.Type
	r     *Rand
	d     *Data
	depth int
	up    *colGen
	many  bool // at a list of many elements
	kids  []*colGen

	left int // of the current segment
	mode int
	a, b int64
	w    int
	cnt  int64
	all  int
	pool []string

	nleft  int
	nmode  int
	nowNul bool
}

func (d *Data) col(t *ref.Type, depth int) *colGen {
	g := &colGen{t: t, r: simrt.NewRand(simrt.Mix(t.Seed, 77)), d: d, depth: depth}
	for _, k := range t.Kids {
		k := d.col(k, depth+1)
		k.up = g
		g.kids = append(g.kids, k)
	}
	g.nmode = g.r.Intn(5)
	return g
}

var segLens = []int{1, 2, 3, 4, 5, 9, 10, 11, 12, 20, 50, 127, 128, 129, 131, 255, 257, 510, 511, 512, 513, 515, 600, 1025}

func (g *colGen) segment() {
	if g.left > 0 {
		g.left--
		return
	}
	g.left = segLens[g.r.Intn(len(segLens))]
	if g.r.Intn(3) == 0 {
		g.left = 1 + g.r.Intn(600)
	}
	g.left--
	g.cnt = 0
	g.mode = g.r.Intn(10)
	g.w = 1 + g.r.Intn(64)
	switch g.r.Intn(4) {
	case 0:
		g.a = int64(g.r.Intn(100)) - 50
	case 1:
		g.a = int64(g.r.Next()) >> uint(g.r.Intn(63))
	case 2:
		g.a = int64(g.r.Next() >> 34)
	default:
		g.a = 1 << uint(g.r.Intn(63))
		if g.r.Intn(2) == 0 {
			g.a = -g.a
		}
	}
	g.b = int64(g.r.Intn(21)) - 10
	if g.r.Intn(3) == 0 {
		g.b = int64(g.r.Next()) >> uint(10+g.r.Intn(50))
	}
}

func (g *colGen) null() bool {
	if !g.t.Nulls {
		return false
	}
	switch g.nmode {
	case 0: // few
		return g.r.Intn(20) == 0
	case 1: // half
		return g.r.Intn(2) == 0
	case 2: // runs
		if g.nleft == 0 {
			g.nleft = 1 + g.r.Intn(200)
			g.nowNul = !g.nowNul
			if g.r.Intn(3) == 0 {
				g.nleft = 1 + g.r.Intn(9)
			}
		}
		g.nleft--
		return g.nowNul
	case 3: // all, for long stretches
		if g.nleft == 0 {
			g.nleft = 100 + g.r.Intn(3000)
			g.nowNul = g.r.Intn(3) > 0
		}
		g.nleft--
		return g.nowNul
	}
	return false // declared, but none
}

// integer of the segment's shape, any 64 bit value
func (g *colGen) long() int64 {
	if g.d.Big {
		return int64(g.r.Next())
	}
	g.segment()
	i := g.cnt
	g.cnt++
	small := func(w int) int64 {
		if w >= 64 {
			return int64(g.r.Next())
		}
		return int64(g.r.Next() & (1<<uint(w) - 1))
	}
	switch g.mode {
	case 0: // constant
		return g.a
	case 1: // uniform of some width, both signs
		v := small(g.w)
		if g.r.Intn(2) == 0 {
			v = -v
		}
		return v
	case 2: // arithmetic
		return g.a + i*g.b
	case 3: // increasing
		g.a += small(1 + g.w%34)
		return g.a
	case 4: // decreasing
		g.a -= small(1 + g.w%34)
		return g.a
	case 5: // outliers
		base := g.a >> uint(7+g.w%2)
		if g.r.Intn(25) == 0 {
			return base + small(20+g.w%41)
		}
		return base + small(1+g.w%12)
	case 6: // extremes
		return []int64{math.MaxInt64, math.MinInt64, 0, -1, 1, math.MaxInt32, math.MinInt32, math.MaxInt16, math.MinInt16, 127, -128, 255, 256}[g.r.Intn(13)]
	case 7: // short repeats
		if g.r.Intn(6) == 0 {
			g.a = small(1 + g.w%20)
			if g.w > 56 { // of any size
				g.a = int64(g.r.Next()) >> uint(g.r.Intn(64))
			}
		}
		return g.a
	case 8: // lone outliers far apart
		if i%300 == 290 {
			return g.a>>8 + small(30+g.w%30)
		}
		return g.a>>8 + i&1
	}
	return int64(g.r.Intn(10))
}

var words = []string{"", "a", "b", "x", "ORC", "alpha", "beta", "gamma", "zeta", "\x00", "ünïcode", "same-prefix-1", "same-prefix-2", "\xff\xfe", "日本", " "}

func (g *colGen) str() string {
	g.segment()
	i := g.cnt
	g.cnt++
	rnd := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.r.Next())
		}
		return string(b)
	}
	if g.d.Big {
		return rnd(100 + g.r.Intn(600))
	}
	if len(g.d.Embed) > 0 && g.r.Intn(6) == 0 {
		return string(g.d.Embed)
	}
	if g.d.Uniq {
		g.all++
		return strconv.FormatUint(simrt.Mix(uint64(g.all), g.t.Seed)>>20, 36) + strconv.Itoa(g.all)
	}
	switch g.mode {
	case 0:
		return words[g.r.Intn(len(words))]
	case 1:
		if g.pool == nil || i == 0 {
			g.pool = nil
			for k := 1 + g.r.Intn(20); k > 0; k-- {
				g.pool = append(g.pool, rnd(g.r.Intn(12)))
			}
		}
		return g.pool[g.r.Intn(len(g.pool))]
	case 2:
		if g.d.Tame {
			return rnd(g.r.Intn(40))
		}
		if g.r.Intn(10) == 0 {
			return rnd(100 + g.r.Intn(900))
		}
		return rnd(g.r.Intn(100))
	case 3:
		return words[uint64(g.a)%uint64(len(words))]
	case 4:
		if !g.d.Tame && g.r.Intn(40) == 0 {
			return strings.Repeat(words[g.r.Intn(len(words))]+"r", 1+g.r.Intn(3000/4))
		}
		return strings.Repeat("r", g.r.Intn(30))
	case 5:
		return ""
	case 6:
		return "key" + string(rune('a'+i%26)) + string(rune('0'+i/26%10))
	}
	return rnd(g.r.Intn(16))
}

func (g *colGen) next() ref.Val {
	if g.null() {
		return nil
	}
	if g.d.Big {
		switch g.t.Kind {
		case ref.Float:
			return ref.F32(uint32(g.r.Next()))
		case ref.Double:
			return ref.F64(g.r.Next())
		}
	}
	switch g.t.Kind {
	case ref.Boolean:
		return g.long()&1 == 1
	case ref.Byte:
		return int64(byte(g.long()))
	case ref.Short:
		return int64(int16(g.long()))
	case ref.Int, ref.Date:
		return int64(int32(g.long()))
	case ref.Long:
		return g.long()
	case ref.Float:
		switch g.r.Intn(8) {
		case 0:
			return ref.F32([]uint32{0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0xffc00001}[g.r.Intn(8)])
		case 1:
			return ref.F32(uint32(g.r.Next()))
		}
		return ref.F32(math.Float32bits(float32(g.long()%1000) / 8))
	case ref.Double:
		switch g.r.Intn(8) {
		case 0:
			return ref.F64([]uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 1, 0x7fefffffffffffff}[g.r.Intn(7)])
		case 1:
			return ref.F64(g.r.Next())
		}
		return ref.F64(math.Float64bits(float64(g.long()%100000) / 16))
	case ref.String, ref.Varchar, ref.Char:
		return g.str()
	case ref.Binary:
		return ref.Bytes(g.str())
	case ref.Decimal:
		p := g.long()
		if g.mode%2 == 0 {
			return ref.Dec{P: p, S: int64(uint64(g.a) % 19)}
		}
		return ref.Dec{P: p, S: int64(g.r.Intn(44)) - 5}
	case ref.Timestamp:
		s := g.long() % (1 << 40)
		n := uint64(g.r.Next() % 1_000_000_000)
		switch g.r.Intn(4) {
		case 0:
			n = 0
		case 1:
			k := uint64(1)
			for z := g.r.Intn(9); z > 0; z-- {
				k *= 10
			}
			n = n / k * k
		case 2:
			n = n % 1000
		}
		return ref.TS{S: s, N: n}
	case ref.Struct:
		v := make([]ref.Val, len(g.kids))
		for i, k := range g.kids {
			v[i] = k.next()
		}
		return v
	case ref.List, ref.Map:
		n := 0
		switch g.r.Intn(5) {
		case 0:
		case 1:
			n = 1
		case 2:
			n = g.r.Intn(12)
			if g.depth > 2 {
				n = g.r.Intn(3)
			}
		default:
			n = g.r.Intn(4)
		}
		if g.d.Long > 0 && g.depth < 2 && (g.all == 0 || g.all < 3 && g.d.Long < 10000) && g.r.Intn(12) == 0 {
			g.all++
			n = g.d.Long/2 + g.r.Intn(g.d.Long)
			g.many = true
			defer func() { g.many = false }()
		}
		for up := g.up; up != nil && g.d.Hollow; up = up.up {
			if up.many {
				n = 0
			}
		}
		if g.t.Kind == ref.List {
			v := make(ref.ListV, n)
			for i := range v {
				v[i] = g.kids[0].next()
			}
			return v
		}
		m := ref.MapV{K: make([]ref.Val, n), V: make([]ref.Val, n)}
		for i := 0; i < n; i++ {
			m.K[i] = g.kids[0].next()
			m.V[i] = g.kids[1].next()
		}
		return m
	}
	return nil
}

// --- schemas ---

var primitives = []ref.Kind{ref.Boolean, ref.Byte, ref.Short, ref.Int, ref.Long, ref.Float, ref.Double, ref.String, ref.String, ref.Varchar, ref.Char, ref.Binary, ref.Decimal, ref.Date, ref.Timestamp}

type typeOpts struct {
	lists bool // lists and maps (readers only)
	cols  int  // at most
	plain bool // struct root without nulls
}

func genType(r *Rand, o typeOpts) *ref.Type {
	prim := func() *ref.Type {
		t := &ref.Type{Kind: primitives[r.Intn(len(primitives))], Seed: r.Next() >> 16}
		t.Dict = t.Kind.Text() && r.Intn(2) == 0
		t.Nulls = r.Intn(2) == 0
		return t
	}
	if !o.plain && r.Intn(15) == 0 {
		return prim()
	}
	var node func(depth int) *ref.Type
	node = func(depth int) *ref.Type {
		k := r.Intn(10)
		if depth < 3 && k == 0 {
			t := &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0}
			for i := 1 + r.Intn(3); i > 0; i-- {
				t.Kids = append(t.Kids, node(depth+1))
			}
			if t.Nulls && r.Intn(3) > 0 {
				t.Kids[0].Nulls = false
			}
			return t
		}
		if o.lists && depth < 3 && k <= 3 {
			t := &ref.Type{Kind: ref.List, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0}
			t.Kids = append(t.Kids, node(depth+1))
			if k == 3 {
				t.Kind = ref.Map
				t.Kids = append(t.Kids, node(depth+1))
			}
			if t.Nulls && r.Intn(3) > 0 {
				t.Kids[0].Nulls = false
			}
			return t
		}
		return prim()
	}
	root := &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16}
	n := 1 + r.Intn(o.cols)
	for i := 0; i < n; i++ {
		root.Kids = append(root.Kids, node(1))
	}
	if !o.plain && r.Intn(8) == 0 {
		root.Nulls = true
		if r.Intn(2) == 0 {
			root.Kids[0].Nulls = false
		}
	}
	root.Number()
	return root
}

func genRows(r *Rand, t *ref.Type) int {
	cols := len(t.Number())
	var n int
	switch k := r.Intn(100); {
	case k < 8:
		n = r.Intn(4)
	case k < 45:
		n = 4 + r.Intn(100)
	case k < 85:
		n = 100 + r.Intn(1100)
	default:
		n = 1200 + r.Intn(3000)
	}
	if cols > 4 && n > 1500 {
		n = 1500 - r.Intn(200)
	}
	return n
}

func genData(r *Rand, o typeOpts) *Data {
	d := &Data{T: genType(r, o)}
	d.N = genRows(r, d.T)
	d.Tame = r.Intn(2) == 0
	if o.lists && r.Intn(6) == 0 {
		d.Long = []int{400, 600, 1100, 5000}[r.Intn(4)]
		if r.Intn(12) == 0 {
			d.Long = 140000
			if r.Intn(2) == 0 {
				d.T = genElements(r)
				d.Hollow = r.Intn(2) == 0
			}
		}
		for d.N > 600 {
			d.N /= 2
		}
	}
	return d
}

// genWide makes a schema of hundreds of columns, or of structs in structs.
func genWide(r *Rand, lists bool) *Data {
	prim := func() *ref.Type {
		t := &ref.Type{Kind: primitives[r.Intn(len(primitives))], Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0}
		t.Dict = t.Kind.Text() && r.Intn(2) == 0
		return t
	}
	root := &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16}
	at := root
	add := func(k ref.Kind) { // goes on below
		t := &ref.Type{Kind: k, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0}
		at.Kids = append(at.Kids, t)
		at = t
	}
	d := &Data{T: root, Tame: r.Intn(2) == 0, N: r.Intn(50)}
	if r.Intn(3) == 0 { // deep
		for i := 4 + r.Intn(40); i > 0; i-- {
			if at.Kind == ref.Struct && r.Intn(4) == 0 {
				at.Kids = append(at.Kids, prim())
			}
			if lists && r.Intn(12) == 0 {
				add(ref.List)
			}
			add(ref.Struct)
		}
		at.Kids = append(at.Kids, prim())
	} else {
		for i := 100 + r.Intn(400); i > 0; i-- {
			root.Kids = append(root.Kids, prim())
			if r.Intn(60) == 0 {
				at = root
				add(ref.Struct)
				at.Kids = append(at.Kids, prim())
			}
		}
	}
	root.Number()
	return d
}

// genElements makes a schema of one list or map whose elements are structs in structs, lists or values.
func genElements(r *Rand) *ref.Type {
	prim := func() *ref.Type {
		k := []ref.Kind{ref.Byte, ref.Short, ref.Boolean, ref.Long, ref.Float, ref.String}[r.Intn(6)]
		return &ref.Type{Kind: k, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0, Dict: k.Text()}
	}
	var node func(depth int) *ref.Type
	node = func(depth int) *ref.Type {
		switch k := r.Intn(5); {
		case depth < 3 && k < 3:
			t := &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0, Kids: []*ref.Type{node(depth + 1)}}
			if r.Intn(2) == 0 {
				t.Kids = append(t.Kids, prim())
			}
			return t
		case depth < 2 && k == 3:
			t := &ref.Type{Kind: ref.List, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0}
			if r.Intn(2) == 0 {
				t.Kids = []*ref.Type{prim()}
			} else {
				t.Kids = []*ref.Type{{Kind: ref.Struct, Seed: r.Next() >> 16, Nulls: r.Intn(4) > 0, Kids: []*ref.Type{prim()}}}
			}
			return t
		}
		return prim()
	}
	t := &ref.Type{Kind: ref.List, Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0, Kids: []*ref.Type{node(1)}}
	if r.Intn(4) == 0 {
		t.Kind = ref.Map
		t.Kids = append(t.Kids, node(1))
	}
	root := &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16, Kids: []*ref.Type{t}}
	root.Number()
	return root
}

// genMany makes a table with more rows than most counters have bits to spare:
// one column of cheap values.
func genMany(r *Rand) *Data {
	t := &ref.Type{Kind: primitives[r.Intn(len(primitives))], Seed: r.Next() >> 16, Nulls: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		t.Kind = ref.String
	}
	t.Dict = t.Kind.Text() && r.Intn(4) > 0
	d := &Data{T: &ref.Type{Kind: ref.Struct, Kids: []*ref.Type{t}, Seed: r.Next() >> 16}, N: 65000 + r.Intn(8000), Tame: true, Uniq: r.Intn(4) > 0}
	if t.Nulls && r.Intn(2) == 0 {
		d.N *= 2
	}
	d.T.Number()
	return d
}
