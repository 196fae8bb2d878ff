package orcref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// --- protobuf wire format, just what ORC metadata needs ---

type field struct {
	num int
	wt  int
	u   uint64
	b   []byte
}

func parseMsg(b []byte) ([]field, error) {
	var fs []field
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("protobuf: bad key")
		}
		b = b[n:]
		f := field{num: int(k >> 3), wt: int(k & 7)}
		if f.num == 0 {
			return nil, errors.New("protobuf: field number 0")
		}
		switch f.wt {
		case 0:
			f.u, n = binary.Uvarint(b)
			if n <= 0 {
				return nil, errors.New("protobuf: bad varint")
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errors.New("protobuf: short fixed64")
			}
			f.u = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, errors.New("protobuf: bad length")
			}
			f.b = b[n : n+int(l)]
			b = b[n+int(l):]
		case 5:
			if len(b) < 4 {
				return nil, errors.New("protobuf: short fixed32")
			}
			f.u = uint64(binary.LittleEndian.Uint32(b))
			b = b[4:]
		default:
			return nil, fmt.Errorf("protobuf: wire type %d", f.wt)
		}
		fs = append(fs, f)
	}
	return fs, nil
}

// packed or not
func (f field) uints() ([]uint64, error) {
	if f.wt == 0 {
		return []uint64{f.u}, nil
	}
	var r []uint64
	for b := f.b; len(b) > 0; {
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("protobuf: bad packed varint")
		}
		r = append(r, v)
		b = b[n:]
	}
	return r, nil
}

func zig(u uint64) int64   { return int64(u>>1) ^ -int64(u&1) }
func zag(v int64) uint64   { return uint64(v<<1) ^ uint64(v>>63) }
func f64(u uint64) float64 { return math.Float64frombits(u) }

type msg struct{ b []byte }

func (m *msg) uvarint(v uint64) { m.b = binary.AppendUvarint(m.b, v) }
func (m *msg) u(num int, v uint64) *msg {
	m.uvarint(uint64(num) << 3)
	m.uvarint(rotUint(v))
	return m
}
func (m *msg) s(num int, v int64) *msg { return m.u(num, zag(v)) }
func (m *msg) bytes(num int, v []byte) *msg {
	m.uvarint(uint64(num)<<3 | 2)
	m.uvarint(uint64(len(v)))
	m.b = append(m.b, v...)
	return m
}
func (m *msg) sub(num int, v *msg) *msg { return m.bytes(num, v.b) }
func (m *msg) packed(num int, vs []uint64) *msg {
	var t msg
	for _, v := range vs {
		t.uvarint(rotUint(v))
	}
	return m.bytes(num, t.b)
}
func (m *msg) f64(num int, v float64) *msg {
	m.uvarint(uint64(num)<<3 | 1)
	m.b = binary.LittleEndian.AppendUint64(m.b, math.Float64bits(v))
	return m
}

// --- file metadata ---

type PostScript struct {
	FooterLen, MetaLen, Block uint64
	Compression               uint64 // 0 none 1 zlib
	Version                   []uint64
	Magic                     string
}

func parsePS(b []byte) (*PostScript, error) {
	fs, err := parseMsg(b)
	if err != nil {
		return nil, err
	}
	ps := &PostScript{}
	for _, f := range fs {
		switch f.num {
		case 1:
			ps.FooterLen = f.u
		case 2:
			ps.Compression = f.u
		case 3:
			ps.Block = f.u
		case 4:
			v, err := f.uints()
			if err != nil {
				return nil, err
			}
			ps.Version = append(ps.Version, v...)
		case 5:
			ps.MetaLen = f.u
		case 6:
		case 8000:
			ps.Magic = string(f.b)
		default:
			return nil, fmt.Errorf("postscript: unknown field %d", f.num)
		}
	}
	return ps, nil
}

type StripeInfo struct{ Offset, Index, Data, Footer, Rows uint64 }

type PType struct {
	Kind  uint64
	Subs  []uint64
	Names []string
}

// Stats are column statistics with presence.
type Stats struct {
	Num, Bytes *uint64
	HasNull    *bool
	Int        *IntStats
	Double     *DoubleStats
	Str        *StrStats
	Bucket     []uint64
	HasBucket  bool
	Dec        *StrStats // min max sum as strings in Min/Max/SumS
	Date       *IntStats
	Bin        *int64
	HasBin     bool
	TS         *TSStats
}
type IntStats struct{ Min, Max, Sum *int64 }
type DoubleStats struct{ Min, Max, Sum *float64 }
type StrStats struct {
	Min, Max, Lower, Upper, SumS *string
	Sum                          *int64
}
type TSStats struct{ Min, Max, MinUtc, MaxUtc *int64 }

func parseStats(b []byte) (*Stats, error) {
	fs, err := parseMsg(b)
	if err != nil {
		return nil, err
	}
	s := &Stats{}
	pi := func(v int64) *int64 { return &v }
	pf := func(v uint64) *float64 { x := f64(v); return &x }
	pst := func(v []byte) *string { x := string(v); return &x }
	for _, f := range fs {
		var sub []field
		if f.wt == 2 {
			if sub, err = parseMsg(f.b); err != nil {
				return nil, fmt.Errorf("column statistics: %v", err)
			}
		}
		switch f.num {
		case 1:
			v := f.u
			s.Num = &v
		case 2:
			s.Int = &IntStats{}
			for _, g := range sub {
				switch g.num {
				case 1:
					s.Int.Min = pi(zig(g.u))
				case 2:
					s.Int.Max = pi(zig(g.u))
				case 3:
					s.Int.Sum = pi(zig(g.u))
				}
			}
		case 3:
			s.Double = &DoubleStats{}
			for _, g := range sub {
				switch g.num {
				case 1:
					s.Double.Min = pf(g.u)
				case 2:
					s.Double.Max = pf(g.u)
				case 3:
					s.Double.Sum = pf(g.u)
				}
			}
		case 4:
			s.Str = &StrStats{}
			for _, g := range sub {
				switch g.num {
				case 1:
					s.Str.Min = pst(g.b)
				case 2:
					s.Str.Max = pst(g.b)
				case 3:
					s.Str.Sum = pi(zig(g.u))
				case 4:
					s.Str.Lower = pst(g.b)
				case 5:
					s.Str.Upper = pst(g.b)
				}
			}
		case 5:
			s.HasBucket = true
			for _, g := range sub {
				if g.num == 1 {
					v, err := g.uints()
					if err != nil {
						return nil, err
					}
					s.Bucket = append(s.Bucket, v...)
				}
			}
		case 6:
			s.Dec = &StrStats{}
			for _, g := range sub {
				switch g.num {
				case 1:
					s.Dec.Min = pst(g.b)
				case 2:
					s.Dec.Max = pst(g.b)
				case 3:
					s.Dec.SumS = pst(g.b)
				}
			}
		case 7:
			s.Date = &IntStats{}
			for _, g := range sub {
				switch g.num {
				case 1:
					s.Date.Min = pi(zig(g.u))
				case 2:
					s.Date.Max = pi(zig(g.u))
				}
			}
		case 8:
			s.HasBin = true
			for _, g := range sub {
				if g.num == 1 {
					s.Bin = pi(zig(g.u))
				}
			}
		case 9:
			s.TS = &TSStats{}
			for _, g := range sub {
				switch g.num {
				case 1:
					s.TS.Min = pi(zig(g.u))
				case 2:
					s.TS.Max = pi(zig(g.u))
				case 3:
					s.TS.MinUtc = pi(zig(g.u))
				case 4:
					s.TS.MaxUtc = pi(zig(g.u))
				}
			}
		case 10:
			v := f.u != 0
			s.HasNull = &v
		case 11:
			v := f.u
			s.Bytes = &v
		}
	}
	return s, nil
}

type Footer struct {
	Header, Content, Rows, Stride uint64
	Stripes                       []StripeInfo
	Types                         []PType
	Stats                         []*Stats
}

func parseFooter(b []byte) (*Footer, error) {
	fs, err := parseMsg(b)
	if err != nil {
		return nil, err
	}
	ft := &Footer{}
	for _, f := range fs {
		switch f.num {
		case 1:
			ft.Header = f.u
		case 2:
			ft.Content = f.u
		case 3:
			sub, err := parseMsg(f.b)
			if err != nil {
				return nil, err
			}
			var si StripeInfo
			for _, g := range sub {
				switch g.num {
				case 1:
					si.Offset = g.u
				case 2:
					si.Index = g.u
				case 3:
					si.Data = g.u
				case 4:
					si.Footer = g.u
				case 5:
					si.Rows = g.u
				default:
					return nil, fmt.Errorf("stripe information: field %d", g.num)
				}
			}
			ft.Stripes = append(ft.Stripes, si)
		case 4:
			sub, err := parseMsg(f.b)
			if err != nil {
				return nil, err
			}
			var t PType
			hasKind := false
			for _, g := range sub {
				switch g.num {
				case 1:
					t.Kind = g.u
					hasKind = true
				case 2:
					v, err := g.uints()
					if err != nil {
						return nil, err
					}
					t.Subs = append(t.Subs, v...)
				case 3:
					t.Names = append(t.Names, string(g.b))
				}
			}
			if !hasKind {
				return nil, errors.New("type without kind")
			}
			ft.Types = append(ft.Types, t)
		case 5:
		case 6:
			ft.Rows = f.u
		case 7:
			st, err := parseStats(f.b)
			if err != nil {
				return nil, err
			}
			ft.Stats = append(ft.Stats, st)
		case 8:
			ft.Stride = f.u
		case 9, 10, 11, 12:
		default:
			return nil, fmt.Errorf("footer: unknown field %d", f.num)
		}
	}
	return ft, nil
}

type StreamInfo struct{ Kind, Column, Length uint64 }
type ColEnc struct{ Kind, DictSize uint64 }

type StripeFooter struct {
	Streams []StreamInfo
	Cols    []ColEnc
}

func parseStripeFooter(b []byte) (*StripeFooter, error) {
	fs, err := parseMsg(b)
	if err != nil {
		return nil, err
	}
	sf := &StripeFooter{}
	for _, f := range fs {
		switch f.num {
		case 1:
			sub, err := parseMsg(f.b)
			if err != nil {
				return nil, err
			}
			var s StreamInfo
			for _, g := range sub {
				switch g.num {
				case 1:
					s.Kind = g.u
				case 2:
					s.Column = g.u
				case 3:
					s.Length = g.u
				}
			}
			sf.Streams = append(sf.Streams, s)
		case 2:
			sub, err := parseMsg(f.b)
			if err != nil {
				return nil, err
			}
			var c ColEnc
			for _, g := range sub {
				switch g.num {
				case 1:
					c.Kind = g.u
				case 2:
					c.DictSize = g.u
				}
			}
			sf.Cols = append(sf.Cols, c)
		case 3:
		default:
			return nil, fmt.Errorf("stripe footer: unknown field %d", f.num)
		}
	}
	return sf, nil
}

// ParseStats reads one ColumnStatistics message.
func ParseStats(b []byte) (*Stats, error) { return parseStats(b) }
