package orcref

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"unicode/utf8"
)

// File is what a strict decoder recovers from the bytes of an ORC file.
type File struct {
	Type   *Type
	Types  []*Type
	Rows   []Val
	PS     *PostScript
	Footer *Footer
	// per column: total length of its streams in the data area
	ColBytes []uint64
	// every stream, in file order
	Regions []Region
	Load    []Load
	Stripes int
}

// Load is what the data streams of a stripe hold.
type Load struct{ Raw, Chunks int }

// RowIndex is the first stream kind which is stored in the index area.
const RowIndex = sRowIndex

// Region is where a stream is stored.
type Region struct {
	Stripe, Col, Kind int
	Off, Len          int64
}

// DecOpts relaxes checks which only some producers satisfy.
type DecOpts struct {
	Gaps    bool // padding between stripes is allowed
	NoStats bool // statistics may be missing
}

const Magic = "ORC"

func Decode(b []byte, o DecOpts) (f *File, err error) {
	defer func() {
		if e := recover(); e != nil {
			if d, ok := e.(decErr); ok {
				err = d.error
				return
			}
			panic(e)
		}
	}()
	return decode(b, o), nil
}

type decErr struct{ error }

func bad(f string, a ...interface{}) { panic(decErr{fmt.Errorf(f, a...)}) }
func must(err error, what string) {
	if err != nil {
		bad("%s: %v", what, err)
	}
}

func decode(b []byte, o DecOpts) *File {
	n := len(b)
	if n < 4 || string(b[:3]) != Magic {
		bad("no header magic")
	}
	psl := int(b[n-1])
	if psl+1+3 > n {
		bad("postscript length %d in a file of %d bytes", psl, n)
	}
	psb := b[n-1-psl : n-1]
	ps, err := parsePS(psb)
	must(err, "postscript")
	if ps.Magic != Magic || !bytes.HasSuffix(psb, []byte(Magic)) {
		bad("postscript does not end with the magic")
	}
	if ps.Compression > 1 {
		bad("compression kind %d", ps.Compression)
	}
	if len(ps.Version) != 2 || ps.Version[0] != 0 || ps.Version[1] != 12 {
		bad("postscript version %v", ps.Version)
	}
	if ps.Compression == 1 && (ps.Block == 0 || ps.Block > 1<<23) {
		bad("compression block size %d", ps.Block)
	}
	rest := uint64(n - 1 - psl)
	if ps.FooterLen > rest || ps.MetaLen > rest-ps.FooterLen || rest-ps.FooterLen-ps.MetaLen < 3 {
		bad("footer length %d, metadata length %d in %d bytes", ps.FooterLen, ps.MetaLen, rest)
	}
	fstart := rest - ps.FooterLen
	mstart := fstart - ps.MetaLen
	d := &dec{b: b, zlib: ps.Compression == 1, block: int(ps.Block), o: o}
	ft, err := parseFooter(d.chunks(b[fstart:rest], "footer"))
	must(err, "footer")
	if ps.MetaLen > 0 {
		_, err := parseMsg(d.chunks(b[mstart:fstart], "metadata"))
		must(err, "metadata")
	}
	f := &File{PS: ps, Footer: ft}
	d.f = f
	d.schema(ft)
	f.ColBytes = make([]uint64, len(f.Types))
	if ft.Header != 3 {
		bad("header length %d", ft.Header)
	}
	if ft.Content != mstart && ft.Content+3 != mstart {
		bad("content length %d, but the body ends at %d", ft.Content, mstart)
	}
	pos := uint64(3)
	var total uint64
	for i, si := range ft.Stripes {
		if si.Offset != pos && !(o.Gaps && si.Offset > pos) {
			bad("stripe %d starts at %d, expected %d", i, si.Offset, pos)
		}
		end := si.Offset + si.Index + si.Data + si.Footer
		if end > mstart {
			bad("stripe %d ends at %d, beyond %d", i, end, mstart)
		}
		d.stripe(i, si)
		pos = end
		total += si.Rows
	}
	f.Stripes = len(ft.Stripes)
	if pos != mstart && !o.Gaps {
		bad("%d bytes between the last stripe and the footer", mstart-pos)
	}
	if total != ft.Rows {
		bad("footer says %d rows, stripes have %d", ft.Rows, total)
	}
	if uint64(len(f.Rows)) != total {
		bad("%d rows decoded, %d promised", len(f.Rows), total)
	}
	return f
}

type dec struct {
	b     []byte
	zlib  bool
	block int
	o     DecOpts
	f     *File
	seen  int // chunks
}

// chunks undoes the compression framing.
func (d *dec) chunks(b []byte, what string) []byte {
	if !d.zlib {
		return b
	}
	var out []byte
	for len(b) > 0 {
		if len(b) < 3 {
			bad("%s: %d bytes left for a chunk header", what, len(b))
		}
		d.seen++
		h := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
		l := h >> 1
		b = b[3:]
		if l > len(b) {
			bad("%s: chunk of %d bytes, %d left", what, l, len(b))
		}
		if l > d.block {
			bad("%s: chunk of %d bytes, block size %d", what, l, d.block)
		}
		if h&1 == 1 {
			out = append(out, b[:l]...)
		} else {
			br := bytes.NewReader(b[:l])
			if inflater == nil {
				inflater = flate.NewReader(br)
			} else {
				inflater.(flate.Resetter).Reset(br, nil)
			}
			r := inflater
			p, err := io.ReadAll(r)
			if err != nil {
				bad("%s: %v", what, err)
			}
			if len(p) > d.block {
				bad("%s: chunk of %d bytes uncompressed, block size %d", what, len(p), d.block)
			}
			if br.Len() != 0 {
				bad("%s: %d bytes after the compressed data of a chunk", what, br.Len())
			}
			out = append(out, p...)
		}
		b = b[l:]
	}
	return out
}

func (d *dec) schema(ft *Footer) {
	if len(ft.Types) == 0 {
		bad("no types")
	}
	if len(ft.Stats) != len(ft.Types) && !(d.o.NoStats && len(ft.Stats) == 0) {
		bad("%d column statistics, %d types", len(ft.Stats), len(ft.Types))
	}
	next := 0
	var build func(id, depth int) *Type
	build = func(id, depth int) *Type {
		if id != next {
			bad("type ids are not in pre-order: %d, expected %d", id, next)
		}
		if id >= len(ft.Types) || depth > 200 {
			bad("type tree refers to type %d", id)
		}
		next++
		p := ft.Types[id]
		t := &Type{Kind: Kind(p.Kind), ID: id}
		if len(ft.Stats) > 0 && ft.Stats[id].HasNull != nil {
			t.Nulls = *ft.Stats[id].HasNull
		}
		switch t.Kind {
		case Struct:
			if len(p.Names) != len(p.Subs) {
				bad("struct type %d: %d names, %d subtypes", id, len(p.Names), len(p.Subs))
			}
			t.Names = p.Names
		case List:
			if len(p.Subs) != 1 {
				bad("list type %d: %d subtypes", id, len(p.Subs))
			}
		case Map:
			if len(p.Subs) != 2 {
				bad("map type %d: %d subtypes", id, len(p.Subs))
			}
		case Union:
			bad("type kind %v is not supported here", t.Kind)
		default:
			if t.Kind < 0 || t.Kind > Char {
				bad("type kind %d", p.Kind)
			}
			if len(p.Subs) != 0 || len(p.Names) != 0 {
				bad("primitive type %d has subtypes", id)
			}
		}
		for _, s := range p.Subs {
			t.Kids = append(t.Kids, build(int(s), depth+1))
		}
		t.End = next
		return t
	}
	d.f.Type = build(0, 0)
	if next != len(ft.Types) {
		bad("%d types, %d reachable", len(ft.Types), next)
	}
	var walk func(t *Type)
	walk = func(t *Type) {
		d.f.Types = append(d.f.Types, t)
		for _, c := range t.Kids {
			walk(c)
		}
	}
	walk(d.f.Type)
}

// stream kinds
const (
	sPresent = iota
	sData
	sLength
	sDictData
	sDictCount
	sSecondary
	sRowIndex
	sBloom
	sBloomUtf8
)

var streamNames = []string{"present", "data", "length", "dictionary data", "dictionary count", "secondary", "row index", "bloom", "bloom utf8"}

type skey struct{ kind, col int }

type stripeDec struct {
	d       *dec
	no      int
	streams map[skey][]byte
	used    map[skey]bool
	enc     []ColEnc
}

func (d *dec) stripe(no int, si StripeInfo) {
	fb := d.b[si.Offset+si.Index+si.Data : si.Offset+si.Index+si.Data+si.Footer]
	sf, err := parseStripeFooter(d.chunks(fb, fmt.Sprintf("stripe %d footer", no)))
	must(err, fmt.Sprintf("stripe %d footer", no))
	if len(sf.Cols) != len(d.f.Types) {
		bad("stripe %d: %d column encodings, %d columns", no, len(sf.Cols), len(d.f.Types))
	}
	sd := &stripeDec{d: d, no: no, streams: map[skey][]byte{}, used: map[skey]bool{}, enc: sf.Cols}
	ld := Load{}
	ipos, dpos := si.Offset, si.Offset+si.Index
	iend, dend := dpos, dpos+si.Data
	for _, s := range sf.Streams {
		if s.Column >= uint64(len(d.f.Types)) {
			bad("stripe %d: stream of column %d", no, s.Column)
		}
		if s.Kind > sBloomUtf8 || s.Kind == sDictCount {
			bad("stripe %d: stream kind %d", no, s.Kind)
		}
		k := skey{int(s.Kind), int(s.Column)}
		if _, dup := sd.streams[k]; dup {
			bad("stripe %d: two %s streams of column %d", no, streamNames[k.kind], k.col)
		}
		what := fmt.Sprintf("stripe %d column %d %s stream", no, k.col, streamNames[k.kind])
		if s.Kind >= sRowIndex {
			if s.Length > iend-ipos {
				bad("%s: exceeds the index area", what)
			}
			p := d.chunks(d.b[ipos:ipos+s.Length], what)
			if s.Kind == sRowIndex {
				_, err := parseMsg(p)
				must(err, what)
			}
			sd.streams[k] = nil
			sd.used[k] = true
			d.f.Regions = append(d.f.Regions, Region{no, k.col, k.kind, int64(ipos), int64(s.Length)})
			ipos += s.Length
			continue
		}
		if s.Length > dend-dpos {
			bad("%s: exceeds the data area", what)
		}
		d.seen = 0
		sd.streams[k] = d.chunks(d.b[dpos:dpos+s.Length], what)
		ld.Raw += len(sd.streams[k])
		ld.Chunks += d.seen
		d.f.Regions = append(d.f.Regions, Region{no, k.col, k.kind, int64(dpos), int64(s.Length)})
		dpos += s.Length
		d.f.ColBytes[k.col] += s.Length
	}
	if dpos != dend {
		bad("stripe %d: data area of %d bytes, streams have %d", no, si.Data, dpos-(dend-si.Data))
	}
	if ipos != iend && !d.o.Gaps {
		bad("stripe %d: index area of %d bytes, streams have %d", no, si.Index, ipos-(iend-si.Index))
	}
	vals := sd.col(d.f.Type, int(si.Rows))
	for k := range sd.streams {
		if !sd.used[k] {
			bad("stripe %d column %d: %s stream is not expected", no, k.col, streamNames[k.kind])
		}
	}
	d.f.Rows = append(d.f.Rows, vals...)
	d.f.Load = append(d.f.Load, ld)
}

func (s *stripeDec) get(kind int, t *Type) ([]byte, bool) {
	k := skey{kind, t.ID}
	b, ok := s.streams[k]
	s.used[k] = true
	return b, ok
}

// need returns a stream which must exist when values are present.
func (s *stripeDec) need(kind int, t *Type, n int) []byte {
	b, ok := s.get(kind, t)
	if !ok && n > 0 {
		bad("%s: missing for %d values", s.what(kind, t), n)
	}
	return b
}

func (s *stripeDec) what(kind int, t *Type) string {
	return fmt.Sprintf("stripe %d column %d (%v) %s stream", s.no, t.ID, t.Kind, streamNames[kind])
}

func (s *stripeDec) longs(kind int, t *Type, n int, signed bool) []int64 {
	b := s.need(kind, t, n)
	v, err := DecodeRLEv2(b, n, signed)
	must(err, s.what(kind, t))
	return v
}

func (s *stripeDec) bytesOf(kind int, t *Type, n int) []byte {
	b := s.need(kind, t, n)
	v, err := DecodeByteRLE(b, n)
	must(err, s.what(kind, t))
	return v
}

func (s *stripeDec) bools(kind int, t *Type, n int) []bool {
	b := s.bytesOf(kind, t, (n+7)/8)
	r := make([]bool, n)
	for i := range r {
		r[i] = b[i/8]>>(7-uint(i%8))&1 == 1
	}
	return r
}

func (s *stripeDec) encoding(t *Type, allowed ...uint64) uint64 {
	e := s.enc[t.ID].Kind
	for _, a := range allowed {
		if e == a {
			return e
		}
	}
	bad("stripe %d column %d (%v): encoding %d", s.no, t.ID, t.Kind, e)
	return 0
}

const (
	eDirect = iota
	eDict
	eDirectV2
	eDictV2
)

func (s *stripeDec) col(t *Type, n int) []Val {
	var present []bool
	m := n
	if _, ok := s.streams[skey{sPresent, t.ID}]; ok {
		present = s.bools(sPresent, t, n)
		m = 0
		for _, p := range present {
			if p {
				m++
			}
		}
	}
	vals := s.values(t, m)
	if present == nil {
		return vals
	}
	r := make([]Val, n)
	j := 0
	for i, p := range present {
		if p {
			r[i] = vals[j]
			j++
		}
	}
	return r
}

func (s *stripeDec) blobs(t *Type, dataKind int, n int) []string {
	ls := s.longs(sLength, t, n, false)
	b := s.need(dataKind, t, 0)
	r := make([]string, n)
	for i, l := range ls {
		if uint64(l) > uint64(len(b)) {
			bad("%s: value of %d bytes, %d left", s.what(dataKind, t), uint64(l), len(b))
		}
		r[i] = string(b[:l])
		b = b[l:]
	}
	if len(b) != 0 {
		bad("%s: %d bytes left over", s.what(dataKind, t), len(b))
	}
	return r
}

func (s *stripeDec) values(t *Type, n int) []Val {
	r := make([]Val, n)
	ints := func() {
		s.encoding(t, eDirectV2)
		for i, v := range s.longs(sData, t, n, true) {
			r[i] = v
		}
	}
	rangeCheck := func(lo, hi int64) {
		for _, v := range r {
			if v.(int64) < lo || v.(int64) > hi {
				bad("%s: %d out of range", s.what(sData, t), v)
			}
		}
	}
	switch t.Kind {
	case Boolean:
		s.encoding(t, eDirect)
		for i, v := range s.bools(sData, t, n) {
			r[i] = v
		}
	case Byte:
		s.encoding(t, eDirect)
		for i, v := range s.bytesOf(sData, t, n) {
			r[i] = int64(v)
		}
	case Short:
		ints()
		rangeCheck(-1<<15, 1<<15-1)
	case Int, Date:
		ints()
		rangeCheck(-1<<31, 1<<31-1)
	case Long:
		ints()
	case Float, Double:
		s.encoding(t, eDirect)
		w := 4
		if t.Kind == Double {
			w = 8
		}
		b := s.need(sData, t, n)
		if len(b) != n*w {
			bad("%s: %d bytes for %d values", s.what(sData, t), len(b), n)
		}
		for i := range r {
			if w == 4 {
				r[i] = F32(binary.LittleEndian.Uint32(b[i*4:]))
			} else {
				r[i] = F64(binary.LittleEndian.Uint64(b[i*8:]))
			}
		}
	case String, Varchar, Char:
		if s.encoding(t, eDirectV2, eDictV2) == eDictV2 {
			size := s.enc[t.ID].DictSize
			if size > 1<<28 {
				bad("%s: dictionary of %d", s.what(sData, t), size)
			}
			dict := s.blobs(t, sDictData, int(size))
			for i, v := range s.longs(sData, t, n, false) {
				if uint64(v) >= size {
					bad("%s: index %d into a dictionary of %d", s.what(sData, t), uint64(v), size)
				}
				r[i] = dict[v]
			}
			break
		}
		for i, v := range s.blobs(t, sData, n) {
			r[i] = v
		}
	case Binary:
		s.encoding(t, eDirectV2)
		for i, v := range s.blobs(t, sData, n) {
			r[i] = Bytes(v)
		}
	case Decimal:
		s.encoding(t, eDirectV2)
		b := s.need(sData, t, n)
		sc := s.longs(sSecondary, t, n, true)
		for i := range r {
			v, k := bigVarint(b)
			if k == 0 {
				bad("%s: bad varint", s.what(sData, t))
			}
			b = b[k:]
			if !v.IsInt64() {
				bad("%s: decimal beyond 64 bits", s.what(sData, t))
			}
			r[i] = Dec{v.Int64(), sc[i]}
		}
		if len(b) != 0 {
			bad("%s: %d bytes left over", s.what(sData, t), len(b))
		}
	case Timestamp:
		s.encoding(t, eDirectV2)
		sec := s.longs(sData, t, n, true)
		nn := s.longs(sSecondary, t, n, false)
		for i := range r {
			v := uint64(nn[i])
			z := v & 7
			v >>= 3
			if z != 0 {
				for k := uint64(0); k <= z; k++ {
					v *= 10
				}
			}
			if v >= 1e9 {
				bad("%s: %d nanoseconds", s.what(sSecondary, t), v)
			}
			r[i] = TS{sec[i], v}
		}
	case Struct:
		s.encoding(t, eDirect)
		kids := make([][]Val, len(t.Kids))
		for k, c := range t.Kids {
			kids[k] = s.col(c, n)
		}
		for i := range r {
			x := make([]Val, len(t.Kids))
			for k := range kids {
				x[k] = kids[k][i]
			}
			r[i] = x
		}
	case List, Map:
		s.encoding(t, eDirectV2)
		ls := s.longs(sLength, t, n, false)
		total := 0
		for _, l := range ls {
			if uint64(l) > 1<<28 || total > 1<<28 {
				bad("%s: %d elements", s.what(sLength, t), uint64(l))
			}
			total += int(l)
		}
		kids := make([][]Val, len(t.Kids))
		for k, c := range t.Kids {
			kids[k] = s.col(c, total)
		}
		at := 0
		for i, l := range ls {
			to := at + int(l)
			if t.Kind == List {
				r[i] = ListV(kids[0][at:to:to])
			} else {
				r[i] = MapV{kids[0][at:to:to], kids[1][at:to:to]}
			}
			at = to
		}
	default:
		bad("column %d: kind %v", t.ID, t.Kind)
	}
	return r
}

// bigVarint reads a base 128 zigzag varint of any length.
func bigVarint(b []byte) (*big.Int, int) {
	u := new(big.Int)
	for i := 0; i < len(b) && i < 40; i++ {
		p := new(big.Int).SetUint64(uint64(b[i] & 0x7f))
		u.Or(u, p.Lsh(p, uint(7*i)))
		if b[i] < 0x80 {
			v := new(big.Int).Rsh(u, 1)
			if u.Bit(0) == 1 {
				v.Neg(v).Sub(v, big.NewInt(1))
			}
			return v, i + 1
		}
	}
	return nil, 0
}

// DecodeByteRLE decodes exactly n bytes and requires all input to be used.
func DecodeByteRLE(b []byte, n int) ([]byte, error) {
	r := make([]byte, 0, n)
	for len(r) < n {
		if len(b) == 0 {
			return nil, fmt.Errorf("byte run length: %d values of %d", len(r), n)
		}
		c := int8(b[0])
		b = b[1:]
		if c >= 0 {
			if len(b) == 0 {
				return nil, errors.New("byte run length: repeat without value")
			}
			k := int(c) + 3
			for i := 0; i < k; i++ {
				r = append(r, b[0])
			}
			b = b[1:]
		} else {
			k := -int(c)
			if k > len(b) {
				return nil, errors.New("byte run length: literals cut off")
			}
			r = append(r, b[:k]...)
			b = b[k:]
		}
	}
	if len(r) != n {
		return nil, fmt.Errorf("byte run length: %d values, expected %d", len(r), n)
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("byte run length: %d bytes left over", len(b))
	}
	return r, nil
}

func widthOf(code int) int {
	switch {
	case code <= 23:
		return code + 1
	case code <= 27:
		return 26 + (code-24)*2
	}
	return 40 + (code-28)*8
}

func closestFixed(n int) int {
	switch {
	case n <= 0:
		return 1
	case n <= 24:
		return n
	case n <= 26:
		return 26
	case n <= 28:
		return 28
	case n <= 30:
		return 30
	case n <= 32:
		return 32
	case n <= 40:
		return 40
	case n <= 48:
		return 48
	case n <= 56:
		return 56
	}
	return 64
}

func codeOf(w int) int {
	for c := 0; c < 32; c++ {
		if widthOf(c) == w {
			return c
		}
	}
	panic("width")
}

// unpack reads n big-endian values of w bits, the run ends on a byte boundary.
func unpack(b []byte, n, w int) ([]uint64, []byte, error) {
	need := (n*w + 7) / 8
	if need > len(b) {
		return nil, nil, fmt.Errorf("%d values of %d bits, %d bytes left", n, w, len(b))
	}
	r := make([]uint64, n)
	bit := 0
	for i := range r {
		var v uint64
		for left := w; left > 0; {
			o := bit & 7
			take := 8 - o
			if take > left {
				take = left
			}
			x := b[bit>>3] >> uint(8-o-take) & byte(1<<uint(take)-1)
			v = v<<uint(take) | uint64(x)
			bit += take
			left -= take
		}
		r[i] = v
	}
	return r, b[need:], nil
}

// RunKinds counts the run forms met, for coverage reports.
var RunKinds [4]uint64

// DecodeRLEv2 decodes exactly n values; the last run must end at n and all
// input must be used.
func DecodeRLEv2(b []byte, n int, signed bool) ([]int64, error) {
	r := make([]int64, 0, n)
	fail := func(f string, a ...interface{}) ([]int64, error) {
		return nil, fmt.Errorf("run length at value %d: "+f, append([]interface{}{len(r)}, a...)...)
	}
	cut := func() ([]int64, error) { return fail("input ends") }
	conv := func(u uint64) int64 {
		if signed {
			return zig(u)
		}
		return int64(u)
	}
	for len(r) < n {
		if len(b) == 0 {
			return fail("input ends, %d expected", n)
		}
		h := b[0]
		RunKinds[h>>6]++
		if h>>6 == 0 {
			w := int(h>>3&7) + 1
			c := int(h&7) + 3
			if len(b) < 1+w {
				return cut()
			}
			var u uint64
			for _, x := range b[1 : 1+w] {
				u = u<<8 | uint64(x)
			}
			b = b[1+w:]
			for i := 0; i < c; i++ {
				r = append(r, conv(u))
			}
			continue
		}
		if len(b) < 2 {
			return cut()
		}
		code := int(h >> 1 & 0x1f)
		l := (int(h&1)<<8 | int(b[1])) + 1
		switch h >> 6 {
		case 1:
			us, rest, err := unpack(b[2:], l, widthOf(code))
			if err != nil {
				return fail("direct: %v", err)
			}
			b = rest
			for _, u := range us {
				r = append(r, conv(u))
			}
		case 2:
			if len(b) < 4 {
				return cut()
			}
			w := widthOf(code)
			bw := int(b[2]>>5) + 1
			pw := widthOf(int(b[2] & 0x1f))
			pgw := int(b[3]>>5) + 1
			pl := int(b[3] & 0x1f)
			b = b[4:]
			if len(b) < bw {
				return cut()
			}
			if pw+pgw > 64 {
				return fail("patched base: patch width %d + gap width %d", pw, pgw)
			}
			var u uint64
			for _, x := range b[:bw] {
				u = u<<8 | uint64(x)
			}
			b = b[bw:]
			top := uint64(1) << uint(bw*8-1)
			base := int64(u &^ top)
			if u&top != 0 {
				base = -base
			}
			us, rest, err := unpack(b, l, w)
			if err != nil {
				return fail("patched base: %v", err)
			}
			ps, rest, err := unpack(rest, pl, closestFixed(pw+pgw))
			if err != nil {
				return fail("patched base: patches: %v", err)
			}
			b = rest
			at := 0
			for _, p := range ps {
				gap := int(p >> uint(pw))
				patch := p & (1<<uint(pw) - 1)
				at += gap
				if patch == 0 && gap == 255 {
					continue
				}
				if at >= l {
					return fail("patched base: patch at %d of %d", at, l)
				}
				if patch<<uint(w)>>uint(w) != patch {
					return fail("patched base: patch %#x does not fit above %d bits", patch, w)
				}
				us[at] |= patch << uint(w)
			}
			for _, u := range us {
				r = append(r, base+int64(u))
			}
		case 3:
			w := 0
			if code > 0 {
				w = widthOf(code)
			}
			u, k := binary.Uvarint(b[2:])
			if k <= 0 {
				return fail("delta: bad base")
			}
			b = b[2+k:]
			v := conv(u)
			du, k := binary.Uvarint(b)
			if k <= 0 {
				return fail("delta: bad delta base")
			}
			b = b[k:]
			dl := zig(du)
			r = append(r, v)
			if l > 1 {
				v += dl
				r = append(r, v)
			}
			if l > 2 {
				if w == 0 {
					for i := 2; i < l; i++ {
						v += dl
						r = append(r, v)
					}
				} else {
					us, rest, err := unpack(b, l-2, w)
					if err != nil {
						return fail("delta: %v", err)
					}
					b = rest
					for _, u := range us {
						if dl < 0 {
							v -= int64(u)
						} else {
							v += int64(u)
						}
						r = append(r, v)
					}
				}
			}
		}
	}
	if len(r) != n {
		return nil, fmt.Errorf("run length: %d values, expected %d", len(r), n)
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("run length: %d bytes left over after %d values", len(b), n)
	}
	return r, nil
}

// ValidText reports whether a string is valid UTF-8 (informative only).
func ValidText(s string) bool { return utf8.ValidString(s) }

var inflater io.ReadCloser // to reuse
