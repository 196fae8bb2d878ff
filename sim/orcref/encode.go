package orcref

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
)

// EncOpts selects one of the many physical layouts a conformant ORC writer may
// choose for the same rows.
type EncOpts struct {
	Seed      uint64 `json:"seed"`
	Zlib      bool   `json:"zlib,omitempty"`
	Block     int    `json:"block,omitempty"`   // compression block size
	Stripes   []int  `json:"stripes,omitempty"` // rows per stripe, the rest goes to a last one
	Stride    int    `json:"stride,omitempty"`  // 0: no row index
	Bloom     bool   `json:"bloom,omitempty"`
	KeepNulls bool   `json:"keepPresent,omitempty"` // present streams also without nulls
	DropEmpty bool   `json:"dropEmpty,omitempty"`   // streams without content are not listed
	Shuffle   bool   `json:"shuffle,omitempty"`     // order of the data streams
	Gap       int    `json:"gap,omitempty"`         // padding before every other stripe
	Meta      bool   `json:"meta,omitempty"`        // metadata section
	UserMeta  int    `json:"userMeta,omitempty"`    // bytes of user metadata
	Whole     bool   `json:"whole,omitempty"`       // content length includes the header
	Rot       []Rot  `json:"rot,omitempty"`         // damage before compression and framing
	Simple    bool   `json:"simple,omitempty"`      // only plain run forms
}

type stream struct {
	kind, col int
	data      []byte
	runs      []runAt // nil: raw bytes
	offs      []int   // raw bytes: where every value starts
	out       []byte  // with compression framing
	marks     []mark  // framing: where uncompressed offsets land
}
type runAt struct{ value, off int }
type mark struct{ plain, out int }

type enc struct {
	r    *rnd
	o    EncOpts
	t    *Type
	all  []*Type
	out  []byte
	meta []*msg
	runs [4]uint64
}

type rnd struct{ s uint64 }

func (r *rnd) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rnd) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// Encode writes rows as an ORC file.
func Encode(t *Type, rows []Val, o EncOpts) []byte {
	e := &enc{r: &rnd{o.Seed ^ 0x0c0de}, o: o, t: t}
	rotten, rotAt = o.Rot, 0
	defer func() { rotten = nil }()
	if o.Block == 0 {
		e.o.Block = 262144
	}
	e.all = t.flat()
	e.out = []byte(Magic)
	type part struct{ from, to int }
	var parts []part
	at := 0
	for _, n := range o.Stripes {
		if n > len(rows)-at {
			n = len(rows) - at
		}
		parts = append(parts, part{at, at + n})
		at += n
	}
	if at < len(rows) {
		parts = append(parts, part{at, len(rows)})
	}
	ft := &msg{}
	ft.u(1, 3)
	var infos []StripeInfo
	for i, p := range parts {
		if o.Gap > 0 && i%2 == 1 {
			e.out = append(e.out, make([]byte, o.Gap)...)
		}
		infos = append(infos, e.stripe(rows[p.from:p.to]))
	}
	bodyEnd := len(e.out)
	if o.Whole {
		ft.u(2, uint64(bodyEnd))
	} else {
		ft.u(2, uint64(bodyEnd-3))
	}
	for _, s := range infos {
		m := &msg{}
		m.u(1, s.Offset).u(2, s.Index).u(3, s.Data).u(4, s.Footer).u(5, s.Rows)
		ft.sub(3, m)
	}
	for _, t := range e.all {
		m := &msg{}
		m.u(1, uint64(t.Kind))
		if len(t.Kids) > 0 {
			var ids []uint64
			for _, c := range t.Kids {
				ids = append(ids, uint64(c.ID))
			}
			if e.r.n(2) == 0 {
				m.packed(2, ids)
			} else {
				for _, id := range ids {
					m.u(2, id)
				}
			}
			if t.Kind == Struct {
				for _, n := range t.Names {
					m.bytes(3, []byte(n))
				}
			}
		}
		if t.Kind == Varchar || t.Kind == Char {
			m.u(4, 1<<20)
		}
		if t.Kind == Decimal {
			m.u(5, 18)
			m.u(6, 4)
		}
		ft.sub(4, m)
	}
	if o.UserMeta > 0 {
		val := make([]byte, o.UserMeta)
		for i := range val {
			val[i] = byte(e.r.next())
		}
		um := &msg{}
		um.bytes(1, []byte("some.key")).bytes(2, val)
		ft.sub(5, um)
	}
	ft.u(6, uint64(len(rows)))
	for _, c := range e.all {
		ft.sub(7, e.stats(c, rows))
	}
	ft.u(8, uint64(o.Stride))
	metaLen := 0
	if o.Meta {
		m := &msg{}
		for _, s := range e.meta {
			m.sub(1, s)
		}
		b, _ := e.frame(m.b)
		metaLen = len(b)
		e.out = append(e.out, b...)
	}
	fb, _ := e.frame(ft.b)
	e.out = append(e.out, fb...)
	ps := &msg{}
	ps.u(1, uint64(len(fb)))
	if o.Zlib {
		ps.u(2, 1)
	} else {
		ps.u(2, 0)
	}
	if o.Zlib || e.r.n(2) == 0 {
		ps.u(3, uint64(e.o.Block))
	}
	ps.packed(4, []uint64{0, 12})
	ps.u(5, uint64(metaLen))
	ps.u(6, uint64(e.r.n(8)))
	ps.bytes(8000, []byte(Magic))
	e.out = append(e.out, ps.b...)
	e.out = append(e.out, byte(len(ps.b)))
	return e.out
}

func (t *Type) flat() []*Type {
	var all []*Type
	var walk func(t *Type)
	walk = func(t *Type) {
		all = append(all, t)
		for _, c := range t.Kids {
			walk(c)
		}
	}
	walk(t)
	return all
}

// frame applies compression framing with arbitrary chunk boundaries.
func (e *enc) frame(b []byte) ([]byte, []mark) {
	boom := bombHere()
	b = rotBytes(b)
	if !e.o.Zlib {
		return b, nil
	}
	var out []byte
	var marks []mark
	out = append(out, boom...)
	style := e.r.n(4)
	if e.o.Simple {
		style = 0
	}
	for at := 0; at < len(b); {
		n := e.o.Block
		switch style {
		case 1:
			n = 1 + e.r.n(e.o.Block)
		case 2:
			if len(b) < 20000 {
				n = 1 + e.r.n(60)
			}
		case 3:
			n = e.o.Block/2 + 1
		}
		if n > e.o.Block {
			n = e.o.Block
		}
		if n > len(b)-at {
			n = len(b) - at
		}
		p := b[at : at+n]
		marks = append(marks, mark{at, len(out)})
		var z bytes.Buffer
		level := []int{1, 6, 9, flate.HuffmanOnly}[e.r.n(4)]
		w := flaters[level]
		if w == nil {
			w, _ = flate.NewWriter(&z, level)
			flaters[level] = w
		} else {
			w.Reset(&z)
		}
		w.Write(p)
		w.Close()
		if z.Len() >= len(p) || e.r.n(10) == 0 {
			h := len(p)<<1 | 1
			out = append(out, byte(h), byte(h>>8), byte(h>>16))
			out = append(out, p...)
		} else {
			h := z.Len() << 1
			out = append(out, byte(h), byte(h>>8), byte(h>>16))
			out = append(out, z.Bytes()...)
		}
		at += n
	}
	return out, marks
}

type colData struct {
	t       *Type
	present *stream
	streams []*stream
	enc     uint64
	dict    int
	// value index of every top level row in present / data
	nRows []int // row r starts at slot nRows[r] of this column
	nVals []int // and at value nVals[r]
}

func (e *enc) stripe(rows []Val) StripeInfo {
	si := StripeInfo{Offset: uint64(len(e.out)), Rows: uint64(len(rows))}
	cols := make([]*colData, len(e.all))
	starts := make([]int, len(rows)+1)
	for i := range starts {
		starts[i] = i
	}
	e.col(e.t, rows, starts, cols)
	var data []*stream
	for _, c := range cols {
		if c.present != nil {
			data = append(data, c.present)
		}
		data = append(data, c.streams...)
	}
	if e.o.DropEmpty {
		var k []*stream
		for _, s := range data {
			if len(s.data) > 0 {
				k = append(k, s)
			}
		}
		data = k
	}
	if e.o.Shuffle {
		for i := len(data) - 1; i > 0; i-- {
			j := e.r.n(i + 1)
			data[i], data[j] = data[j], data[i]
		}
	}
	for _, s := range data {
		s.out, s.marks = e.frame(s.data)
	}
	sf := &msg{}
	var index []byte
	addIndex := func(kind, col int, b []byte) {
		o, _ := e.frame(b)
		index = append(index, o...)
		m := &msg{}
		m.u(1, uint64(kind)).u(2, uint64(col)).u(3, uint64(len(o)))
		sf.sub(1, m)
	}
	if e.o.Stride > 0 && len(rows) > 0 {
		for _, c := range cols {
			addIndex(sRowIndex, c.t.ID, e.rowIndex(c, len(rows), rows))
			if e.o.Bloom && len(c.t.Kids) == 0 {
				m := &msg{}
				f := &msg{}
				f.u(1, 3)
				f.packed(2, []uint64{e.r.next(), 0})
				m.sub(1, f)
				addIndex(sBloom+e.r.n(2), c.t.ID, m.b)
			}
		}
	}
	for _, s := range data {
		m := &msg{}
		m.u(1, uint64(s.kind)).u(2, uint64(s.col)).u(3, uint64(len(s.out)))
		sf.sub(1, m)
	}
	for _, c := range cols {
		m := &msg{}
		m.u(1, c.enc)
		if c.enc == eDictV2 {
			m.u(2, uint64(c.dict))
		}
		sf.sub(2, m)
	}
	sf.bytes(3, []byte("UTC"))
	e.out = append(e.out, index...)
	si.Index = uint64(len(index))
	for _, s := range data {
		e.out = append(e.out, s.out...)
		si.Data += uint64(len(s.out))
	}
	fb, _ := e.frame(sf.b)
	e.out = append(e.out, fb...)
	si.Footer = uint64(len(fb))
	if e.o.Meta {
		m := &msg{}
		for _, c := range e.all {
			m.sub(1, e.stats(c, rows))
		}
		e.meta = append(e.meta, m)
	}
	return si
}

// pos appends the positions of value v of stream s.
func (e *enc) pos(ps []uint64, s *stream, v, bit int, raw bool) []uint64 {
	off, skip := 0, 0
	if raw {
		off = v
	} else {
		off = len(s.data)
		for i := len(s.runs) - 1; i >= 0; i-- {
			if s.runs[i].value <= v {
				off, skip = s.runs[i].off, v-s.runs[i].value
				break
			}
		}
	}
	if e.o.Zlib {
		co, plain := 0, 0
		for _, m := range s.marks {
			if m.plain > off {
				break
			}
			co, plain = m.out, m.plain
		}
		ps = append(ps, uint64(co), uint64(off-plain))
	} else {
		ps = append(ps, uint64(off))
	}
	if !raw {
		ps = append(ps, uint64(skip))
	}
	if bit >= 0 {
		ps = append(ps, uint64(bit))
	}
	return ps
}

func (e *enc) rowIndex(c *colData, n int, rows []Val) []byte {
	ri := &msg{}
	for at := 0; at < n; at += e.o.Stride {
		var ps []uint64
		slot, val := c.nRows[at], c.nVals[at]
		if c.present != nil {
			ps = e.pos(ps, c.present, slot/8, slot%8, false)
		}
		for _, s := range c.streams {
			switch {
			case c.t.Kind == Boolean:
				ps = e.pos(ps, s, val/8, val%8, false)
			case s.kind == sDictData, c.enc == eDictV2 && s.kind == sLength:
			case s.runs == nil:
				off := 0
				switch c.t.Kind {
				case Float:
					off = 4 * val
				case Double:
					off = 8 * val
				default: // variable sized values
					off = s.rawAt(val)
				}
				ps = e.pos(ps, s, off, -1, true)
			default:
				ps = e.pos(ps, s, val, -1, false)
			}
		}
		m := &msg{}
		if len(ps) > 0 {
			m.packed(1, ps)
		}
		to := at + e.o.Stride
		if to > n {
			to = n
		}
		m.sub(2, e.stats(c.t, rows[at:to]))
		ri.sub(1, m)
	}
	return ri.b
}

func (s *stream) rawAt(v int) int {
	if v < len(s.offs) {
		return s.offs[v]
	}
	return len(s.data)
}

// col encodes one column; vals holds its slots (parent not null).
func (e *enc) col(t *Type, vals []Val, starts []int, cols []*colData) {
	c := &colData{t: t, nRows: starts, enc: eDirect}
	cols[t.ID] = c
	nulls := false
	for _, v := range vals {
		nulls = nulls || v == nil
	}
	vi := make([]int, len(vals)+1)
	var kept []Val
	for i, v := range vals {
		vi[i] = len(kept)
		if v != nil {
			kept = append(kept, v)
		}
	}
	vi[len(vals)] = len(kept)
	if nulls || t.Nulls && e.o.KeepNulls {
		bs := make([]bool, len(vals))
		for i, v := range vals {
			bs[i] = v != nil
		}
		c.present = e.bools(t, sPresent, bs)
	}
	c.nVals = make([]int, len(starts))
	for i, s := range starts {
		c.nVals[i] = vi[s]
	}
	add := func(s *stream) *stream { c.streams = append(c.streams, s); return s }
	switch t.Kind {
	case Boolean:
		bs := make([]bool, len(kept))
		for i, v := range kept {
			bs[i] = v.(bool)
		}
		add(e.bools(t, sData, bs))
	case Byte:
		bs := make([]byte, len(kept))
		for i, v := range kept {
			bs[i] = byte(v.(int64))
		}
		add(e.byteRLE(t, sData, bs))
	case Short, Int, Long, Date:
		c.enc = eDirectV2
		vs := make([]int64, len(kept))
		for i, v := range kept {
			vs[i] = v.(int64)
		}
		add(e.longs(t, sData, vs, true))
	case Float, Double:
		s := add(&stream{kind: sData, col: t.ID})
		for _, v := range kept {
			switch x := v.(type) {
			case F32:
				s.data = binary.LittleEndian.AppendUint32(s.data, uint32(x))
			case F64:
				s.data = binary.LittleEndian.AppendUint64(s.data, uint64(x))
			}
		}
	case String, Varchar, Char, Binary:
		var ss []string
		for _, v := range kept {
			if b, ok := v.(Bytes); ok {
				ss = append(ss, string(b))
			} else {
				ss = append(ss, v.(string))
			}
		}
		if t.Kind != Binary && t.Dict && e.r.n(5) > 0 {
			e.dictionary(c, ss)
			break
		}
		c.enc = eDirectV2
		s := add(&stream{kind: sData, col: t.ID})
		var ls []int64
		var offs []int
		for _, x := range ss {
			offs = append(offs, len(s.data))
			s.data = append(s.data, x...)
			ls = append(ls, int64(len(x)))
		}
		s.offs = offs
		add(e.longs(t, sLength, rotVals(ls, int64(len(s.data))), false))
	case Decimal:
		c.enc = eDirectV2
		s := add(&stream{kind: sData, col: t.ID})
		var sc []int64
		var offs []int
		for _, v := range kept {
			d := v.(Dec)
			offs = append(offs, len(s.data))
			s.data = binary.AppendUvarint(s.data, zag(d.P))
			sc = append(sc, d.S)
		}
		s.offs = offs
		add(e.longs(t, sSecondary, rotVals(sc, 1<<31), true))
	case Timestamp:
		c.enc = eDirectV2
		var sec, nn []int64
		for _, v := range kept {
			x := v.(TS)
			sec = append(sec, x.S)
			n, z := x.N, uint64(0)
			if n != 0 && n%100 == 0 {
				n /= 100
				z = 1
				for n%10 == 0 && z < 7 {
					n /= 10
					z++
				}
			}
			nn = append(nn, int64(n<<3|z))
		}
		add(e.longs(t, sData, rotVals(sec, 1<<31), true))
		add(e.longs(t, sSecondary, rotVals(nn, 1_000_000_000), false))
	case Struct:
		for i, k := range t.Kids {
			kv := make([]Val, len(kept))
			for j, v := range kept {
				kv[j] = v.([]Val)[i]
			}
			e.col(k, kv, c.nVals, cols)
		}
	case List, Map:
		c.enc = eDirectV2
		var ls []int64
		kids := make([][]Val, len(t.Kids))
		at := make([]int, len(kept)+1)
		for j, v := range kept {
			at[j] = len(kids[0])
			switch x := v.(type) {
			case ListV:
				ls = append(ls, int64(len(x)))
				kids[0] = append(kids[0], x...)
			case MapV:
				ls = append(ls, int64(len(x.K)))
				kids[0] = append(kids[0], x.K...)
				kids[1] = append(kids[1], x.V...)
			}
		}
		at[len(kept)] = len(kids[0])
		add(e.longs(t, sLength, rotVals(ls, int64(len(kids[0]))), false))
		ks := make([]int, len(c.nVals))
		for i, v := range c.nVals {
			ks[i] = at[v]
		}
		for i, k := range t.Kids {
			e.col(k, kids[i], ks, cols)
		}
	default:
		panic(fmt.Sprint("cannot encode ", t.Kind))
	}
}

func (e *enc) dictionary(c *colData, ss []string) {
	c.enc = eDictV2
	var dict []string
	seen := map[string]bool{}
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			dict = append(dict, s)
		}
	}
	if e.r.n(3) == 0 { // entries without a row
		dict = append(dict, "unused", "")
	}
	for i := len(dict) - 1; i > 0; i-- {
		j := e.r.n(i + 1)
		dict[i], dict[j] = dict[j], dict[i]
	}
	idx := map[string]int64{}
	var ls []int64
	dd := &stream{kind: sDictData, col: c.t.ID}
	for i, s := range dict {
		idx[s] = int64(i)
		dd.data = append(dd.data, s...)
		ls = append(ls, int64(len(s)))
	}
	var vs []int64
	for _, s := range ss {
		vs = append(vs, idx[s])
	}
	c.dict = len(dict)
	vs = rotVals(vs, int64(len(dict)))
	ls = rotVals(ls, int64(len(dd.data)))
	c.streams = append(c.streams, e.longs(c.t, sData, vs, false), dd, e.longs(c.t, sLength, ls, false))
}

func (e *enc) bools(t *Type, kind int, bs []bool) *stream {
	b := make([]byte, (len(bs)+7)/8)
	for i, v := range bs {
		if v {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	if r := len(bs) % 8; r != 0 && e.r.n(3) == 0 { // unused bits
		b[len(b)-1] |= byte(e.r.next()) & (0xff >> uint(r))
	}
	return e.byteRLE(t, kind, b)
}

func (e *enc) byteRLE(t *Type, kind int, bs []byte) *stream {
	s := &stream{kind: kind, col: t.ID, runs: []runAt{}}
	for at := 0; at < len(bs); {
		s.runs = append(s.runs, runAt{at, len(s.data)})
		rep := 1
		for at+rep < len(bs) && rep < 130 && bs[at+rep] == bs[at] {
			rep++
		}
		if rep >= 3 && e.r.n(8) > 0 {
			k := rep
			if e.r.n(4) == 0 {
				k = 3 + e.r.n(rep-2)
			}
			s.data = append(s.data, byte(k-3), bs[at])
			at += k
			continue
		}
		k := 1 + e.r.n(128)
		if e.r.n(3) == 0 {
			k = 1 + e.r.n(4)
		}
		if k > len(bs)-at {
			k = len(bs) - at
		}
		s.data = append(s.data, byte(-k))
		s.data = append(s.data, bs[at:at+k]...)
		at += k
	}
	return s
}

func pack(b []byte, vs []uint64, w int) []byte {
	var cur byte
	free := 8
	for _, v := range vs {
		for left := w; left > 0; {
			take := free
			if take > left {
				take = left
			}
			x := byte(v >> uint(left-take) & (1<<uint(take) - 1))
			cur |= x << uint(free-take)
			free -= take
			left -= take
			if free == 0 {
				b = append(b, cur)
				cur, free = 0, 8
			}
		}
	}
	if free < 8 {
		b = append(b, cur)
	}
	return b
}

// longs encodes with run length v2, choosing among all forms which can
// represent the values at hand.
func (e *enc) longs(t *Type, kind int, vs []int64, signed bool) *stream {
	s := &stream{kind: kind, col: t.ID, runs: []runAt{}}
	conv := func(v int64) uint64 {
		if signed {
			return zag(v)
		}
		return uint64(v)
	}
	for at := 0; at < len(vs); {
		s.runs = append(s.runs, runAt{at, len(s.data)})
		left := vs[at:]
		if len(left) > 512 {
			left = left[:512]
		}
		if !e.o.Simple {
			switch e.r.n(6) {
			case 0:
				if k := e.shortRepeat(s, left, conv); k > 0 {
					at += k
					continue
				}
			case 1, 2:
				if k := e.delta(s, left, conv, signed); k > 0 {
					at += k
					continue
				}
			case 3, 4:
				if k := e.patched(s, left); k > 0 {
					at += k
					continue
				}
			}
		}
		k := len(left)
		if e.r.n(3) > 0 && !e.o.Simple {
			k = 1 + e.r.n(k)
		}
		var w int
		us := make([]uint64, k)
		for i := range us {
			us[i] = conv(left[i])
			if n := bits.Len64(us[i]); n > w {
				w = n
			}
		}
		w = closestFixed(w)
		if e.r.n(5) == 0 { // wider than needed
			c := codeOf(w)
			w = widthOf(c + e.r.n(32-c))
		}
		s.data = append(s.data, 1<<6|byte(codeOf(w))<<1|byte((k-1)>>8), byte(k-1))
		s.data = pack(s.data, us, w)
		e.runs[1]++
		at += k
	}
	return s
}

func (e *enc) shortRepeat(s *stream, vs []int64, conv func(int64) uint64) int {
	k := 1
	for k < len(vs) && k < 10 && vs[k] == vs[0] {
		k++
	}
	if k < 3 {
		return 0
	}
	k = 3 + e.r.n(k-2)
	u := conv(vs[0])
	w := (bits.Len64(u) + 7) / 8
	if w == 0 {
		w = 1
	}
	if e.r.n(5) == 0 {
		w += e.r.n(9 - w)
	}
	s.data = append(s.data, byte(w-1)<<3|byte(k-3))
	for i := w - 1; i >= 0; i-- {
		s.data = append(s.data, byte(u>>uint(8*i)))
	}
	e.runs[0]++
	return k
}

// delta runs without any overflow, as the reference writers produce them.
func (e *enc) delta(s *stream, vs []int64, conv func(int64) uint64, signed bool) int {
	if len(vs) < 2 {
		return 0
	}
	safe := func(a, b int64) (int64, bool) {
		d := b - a
		return d, (b^a) >= 0 || (b^d) >= 0
	}
	d0, ok := safe(vs[0], vs[1])
	if !ok || d0 == math.MinInt64 {
		return 0
	}
	k := 2
	var ds []uint64
	for k < len(vs) {
		d, ok := safe(vs[k-1], vs[k])
		if !ok || d == math.MinInt64 || d0 < 0 && d > 0 || d0 >= 0 && d < 0 {
			break
		}
		if d < 0 {
			d = -d
		}
		ds = append(ds, uint64(d))
		k++
	}
	if e.r.n(3) == 0 {
		k = 2 + e.r.n(k-1)
	}
	ds = ds[:k-2]
	if k < 3 && e.r.n(4) > 0 {
		return 0
	}
	fixed := true
	w := 0
	for _, d := range ds {
		abs := uint64(d0)
		if d0 < 0 {
			abs = uint64(-d0)
		}
		fixed = fixed && d == abs
		if n := bits.Len64(d); n > w {
			w = n
		}
	}
	code := 0
	if !fixed || len(ds) > 0 && e.r.n(4) == 0 {
		w = closestFixed(w)
		if w == 1 {
			w = 2 // width code 0 means fixed delta
		}
		code = codeOf(w)
	}
	s.data = append(s.data, 3<<6|byte(code)<<1|byte((k-1)>>8), byte(k-1))
	s.data = binary.AppendUvarint(s.data, conv(vs[0]))
	s.data = binary.AppendUvarint(s.data, zag(d0))
	if code > 0 {
		s.data = pack(s.data, ds, w)
	}
	e.runs[3]++
	return k
}

func (e *enc) patched(s *stream, vs []int64) int {
	k := len(vs)
	if k < 4 {
		return 0
	}
	if e.r.n(2) == 0 {
		k = 4 + e.r.n(k-3)
	}
	vs = vs[:k]
	base := vs[0]
	for _, v := range vs {
		if v < base {
			base = v
		}
	}
	if base == math.MinInt64 {
		return 0
	}
	us := make([]uint64, k)
	ws := make([]int, 65)
	for i, v := range vs {
		us[i] = uint64(v - base)
		ws[bits.Len64(us[i])]++
	}
	// widest values are the outliers
	max := 64
	for max > 0 && ws[max] == 0 {
		max--
	}
	if max < 2 || max > 62 {
		return 0
	}
	cut := 0
	w := max
	for w > 1 && cut+ws[w] <= 31 && cut+ws[w] <= k/4 {
		cut += ws[w]
		w--
	}
	w = closestFixed(w)
	if w >= max {
		return 0
	}
	pw := closestFixed(max - w)
	if w+pw > 64 {
		return 0
	}
	var gaps []int
	var patches []uint64
	last := 0
	maxGap := 0
	for i, u := range us {
		p := u >> uint(w)
		if p == 0 {
			continue
		}
		g := i - last
		last = i
		for g > 255 {
			gaps = append(gaps, 255)
			patches = append(patches, 0)
			g -= 255
			maxGap = 255
		}
		gaps = append(gaps, g)
		patches = append(patches, p)
		if g > maxGap {
			maxGap = g
		}
		us[i] &= 1<<uint(w) - 1
	}
	if len(gaps) == 0 || len(gaps) > 31 {
		return 0
	}
	gaps = rotGaps(gaps, k)
	for _, g := range gaps {
		if g > maxGap {
			maxGap = g
		}
	}
	pgw := bits.Len(uint(maxGap))
	if pgw == 0 {
		pgw = 1
	}
	if pw+pgw > 64 {
		return 0
	}
	neg := base < 0
	ub := uint64(base)
	if neg {
		ub = uint64(-base)
	}
	bw := bits.Len64(ub)/8 + 1
	if bw > 8 {
		return 0
	}
	if neg {
		ub |= 1 << uint(bw*8-1)
	}
	s.data = append(s.data, 2<<6|byte(codeOf(w))<<1|byte((k-1)>>8), byte(k-1),
		byte(bw-1)<<5|byte(codeOf(pw)), byte(pgw-1)<<5|byte(len(gaps)))
	for i := bw - 1; i >= 0; i-- {
		s.data = append(s.data, byte(ub>>uint(8*i)))
	}
	s.data = pack(s.data, us, w)
	es := make([]uint64, len(gaps))
	for i := range es {
		es[i] = uint64(gaps[i])<<uint(pw) | patches[i]
	}
	s.data = pack(s.data, es, closestFixed(pw+pgw))
	e.runs[2]++
	return k
}

// stats of one column over the given rows: just what readers may rely on.
func (e *enc) stats(c *Type, rows []Val) *msg {
	n, null := countCol(e.t, c, rows)
	m := &msg{}
	m.u(1, n)
	if null || e.r.n(4) > 0 || c.Nulls {
		b := uint64(0)
		if null {
			b = 1
		}
		m.u(10, b)
	}
	return m
}

func countCol(root, c *Type, rows []Val) (n uint64, null bool) {
	var walk func(t *Type, v Val)
	walk = func(t *Type, v Val) {
		if t.ID == c.ID {
			if v == nil {
				null = true
			} else {
				n++
			}
			return
		}
		if v == nil {
			return
		}
		for i, k := range t.Kids {
			if c.ID < k.ID || c.ID >= k.End {
				continue
			}
			switch x := v.(type) {
			case []Val:
				walk(k, x[i])
			case ListV:
				for _, y := range x {
					walk(k, y)
				}
			case MapV:
				ys := x.K
				if i == 1 {
					ys = x.V
				}
				for _, y := range ys {
					walk(k, y)
				}
			}
		}
	}
	for _, r := range rows {
		walk(root, r)
	}
	return
}

// Column collects the non-null values of one column below structs.
func Column(root, c *Type, rows []Val) (vals []Val, null bool) {
	var walk func(t *Type, v Val)
	walk = func(t *Type, v Val) {
		if t.ID == c.ID {
			if v == nil {
				null = true
			} else {
				vals = append(vals, v)
			}
			return
		}
		if v == nil || t.Kind != Struct {
			return
		}
		for i, k := range t.Kids {
			if c.ID >= k.ID && c.ID < k.End {
				walk(k, v.([]Val)[i])
			}
		}
	}
	for _, r := range rows {
		walk(root, r)
	}
	return
}

// compressors to reuse: they are large
var flaters = map[int]*flate.Writer{}
