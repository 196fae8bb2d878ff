package dst

import (
	"fmt"
	"math"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"

	ref "verifsim/orcref"
)

// WOpts are the options of a file writer.
type WOpts struct {
	Zlib   bool `json:"zlib,omitempty"`
	Chunk  int  `json:"chunk"`
	Stripe int  `json:"stripe"`
	EncBuf int  `json:"encBuf"`
	Index  bool `json:"index,omitempty"`
	Stride int  `json:"stride"`
}

func (o *WOpts) opts() config.WriterOptions {
	c := config.DefaultWriterOptions()
	c.CompressionKind = pb.CompressionKind_NONE
	if o.Zlib {
		c.CompressionKind = pb.CompressionKind_ZLIB
	}
	c.ChunkSize = o.Chunk
	c.StripeSize = o.Stripe
	c.EncoderBufferSize = o.EncBuf
	c.WriteIndex = o.Index
	c.IndexStride = o.Stride
	return c
}

// schema builds the description a user would.
func schema(t *ref.Type) *api.TypeDescription {
	td := &api.TypeDescription{Kind: pb.Type_Kind(t.Kind), HasNulls: t.Nulls}
	switch t.Kind {
	case ref.Boolean, ref.Byte, ref.Float, ref.Double, ref.Struct:
		td.Encoding = pb.ColumnEncoding_DIRECT
	case ref.String, ref.Varchar, ref.Char:
		td.Encoding = pb.ColumnEncoding_DIRECT_V2
		if t.Dict {
			td.Encoding = pb.ColumnEncoding_DICTIONARY_V2
		}
	default:
		td.Encoding = pb.ColumnEncoding_DIRECT_V2
	}
	for i, k := range t.Kids {
		c := schema(k)
		if t.Kind == ref.Struct {
			td.ChildrenNames = append(td.ChildrenNames, t.Names[i])
		}
		td.Children = append(td.Children, c)
	}
	return td
}

// vector builds an empty batch by hand, for at most n rows.
func vector(td *api.TypeDescription, inc map[int]bool, n int) *api.ColumnVector {
	cv := &api.ColumnVector{Id: td.Id, Kind: td.Kind}
	if td.Kind != pb.Type_STRUCT || td.HasNulls {
		cv.Vector = make([]api.Value, 0, n)
	}
	for _, c := range td.Children {
		if inc == nil || inc[int(c.Id)] {
			cv.Children = append(cv.Children, vector(c, inc, n))
		}
	}
	return cv
}

// creatable mirrors the documented restriction of CreateVector.
func creatable(td *api.TypeDescription) bool {
	var any func(td *api.TypeDescription) bool
	any = func(td *api.TypeDescription) bool {
		for _, c := range td.Children {
			if td.HasNulls && c.HasNulls || !any(c) {
				return false
			}
		}
		return true
	}
	return any(td)
}

// 2015-01-01 00:00:00 UTC, from which ORC counts the seconds of timestamps
const base2015 = 1420070400

func apiVal(t *ref.Type, v ref.Val) interface{} {
	switch x := v.(type) {
	case bool, string:
		return x
	case int64:
		switch t.Kind {
		case ref.Byte:
			return byte(x)
		case ref.Short:
			return int16(x)
		case ref.Int:
			return int32(x)
		case ref.Date:
			y, m, d := time.Unix(x*86400, 0).UTC().Date()
			return api.NewDate(y, m, d)
		}
		return x
	case ref.F32:
		return math.Float32frombits(uint32(x))
	case ref.F64:
		return math.Float64frombits(uint64(x))
	case ref.Bytes:
		return []byte(x)
	case ref.Dec:
		return api.Decimal64{Precision: x.P, Scale: int(x.S)}
	case ref.TS:
		return api.GetTimestamp(time.Unix(base2015+x.S, int64(x.N)).UTC())
	}
	panic(fmt.Sprintf("no api value for %T", v))
}

// fill appends rows to a batch.
func fill(t *ref.Type, cv *api.ColumnVector, rows []ref.Val) {
	for _, v := range rows {
		fill1(t, cv, v)
	}
}

func fill1(t *ref.Type, cv *api.ColumnVector, v ref.Val) {
	if t.Kind == ref.Struct {
		if t.Nulls {
			cv.Vector = append(cv.Vector, api.Value{Null: v == nil})
		}
		for i, k := range t.Kids {
			var kv ref.Val
			if v != nil {
				kv = v.([]ref.Val)[i]
				fill1(k, cv.Children[i], kv)
			} else {
				blank(k, cv.Children[i])
			}
		}
		return
	}
	if v == nil {
		cv.Vector = append(cv.Vector, api.Value{Null: true})
		return
	}
	cv.Vector = append(cv.Vector, api.Value{V: apiVal(t, v)})
}

// blank is the place holder below a null parent.
func blank(t *ref.Type, cv *api.ColumnVector) {
	if t.Kind != ref.Struct || t.Nulls {
		cv.Vector = append(cv.Vector, api.Value{Null: t.Nulls})
	}
	for i, k := range t.Kids {
		blank(k, cv.Children[i])
	}
}

// scribble overwrites everything a caller owns in a batch.
func scribble(cv *api.ColumnVector) {
	for i := range cv.Vector {
		if b, ok := cv.Vector[i].V.([]byte); ok {
			for j := range b {
				b[j] = 0x5A
			}
		}
		cv.Vector[i].V = "scribbled"
		cv.Vector[i].Null = !cv.Vector[i].Null
	}
	for _, c := range cv.Children {
		scribble(c)
	}
}

// kept remembers a returned value which shares memory with the library.
type kept struct {
	b    []byte
	s    string
	copy string
}

type extractor struct {
	keep *[]kept
	err  string
}

func (x *extractor) fail(f string, a ...interface{}) {
	if x.err == "" {
		x.err = fmt.Sprintf(f, a...)
	}
}

// batchLen is the number of rows of a batch.
func batchLen(t *ref.Type, cv *api.ColumnVector) int {
	if len(cv.Vector) > 0 || t.Kind != ref.Struct || len(cv.Children) == 0 {
		return len(cv.Vector)
	}
	return batchLen(t.Kids[0], cv.Children[0])
}

// rows extracts n slots.
func (x *extractor) rows(t *ref.Type, cv *api.ColumnVector, n int) []ref.Val {
	if int(cv.Id) != t.ID || ref.Kind(cv.Kind) != t.Kind {
		x.fail("vector of column %d (%v), expected column %d (%v)", cv.Id, cv.Kind, t.ID, t.Kind)
		return nil
	}
	if len(cv.Children) != len(t.Kids) {
		x.fail("column %d: %d child vectors, expected %d", t.ID, len(cv.Children), len(t.Kids))
		return nil
	}
	if t.Kind == ref.Struct && len(cv.Vector) == 0 {
		// no nulls
	} else if len(cv.Vector) != n {
		x.fail("column %d (%v): %d values, expected %d", t.ID, t.Kind, len(cv.Vector), n)
		return nil
	}
	r := make([]ref.Val, n)
	switch t.Kind {
	case ref.Struct:
		kids := make([][]ref.Val, len(t.Kids))
		for k, c := range t.Kids {
			if kids[k] = x.rows(c, cv.Children[k], n); x.err != "" {
				return nil
			}
		}
		for i := range r {
			if len(cv.Vector) > 0 && cv.Vector[i].Null {
				continue
			}
			v := make([]ref.Val, len(t.Kids))
			for k := range kids {
				v[k] = kids[k][i]
			}
			r[i] = v
		}
	case ref.List, ref.Map:
		ls := make([]int, n)
		total := 0
		for i := range ls {
			if cv.Vector[i].Null {
				continue
			}
			l, ok := toInt(cv.Vector[i].V)
			if !ok || l < 0 || l > 1<<28 {
				x.fail("column %d (%v): length %T %v", t.ID, t.Kind, cv.Vector[i].V, cv.Vector[i].V)
				return nil
			}
			ls[i] = int(l)
			total += int(l)
		}
		kids := make([][]ref.Val, len(t.Kids))
		for k, c := range t.Kids {
			if kids[k] = x.rows(c, cv.Children[k], total); x.err != "" {
				return nil
			}
		}
		at := 0
		for i := range r {
			to := at + ls[i]
			if cv.Vector[i].Null {
				continue
			}
			if t.Kind == ref.List {
				r[i] = ref.ListV(kids[0][at:to:to])
			} else {
				r[i] = ref.MapV{K: kids[0][at:to:to], V: kids[1][at:to:to]}
			}
			at = to
		}
	default:
		for i := range r {
			if !cv.Vector[i].Null {
				r[i] = x.val(t, cv.Vector[i].V)
			}
		}
	}
	return r
}

func toInt(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case uint32:
		return int64(x), true
	case uint64:
		return int64(x), true
	case uint:
		return int64(x), true
	}
	return 0, false
}

func (x *extractor) val(t *ref.Type, v interface{}) ref.Val {
	switch t.Kind {
	case ref.Boolean:
		if y, ok := v.(bool); ok {
			return y
		}
	case ref.Byte:
		if y, ok := v.(byte); ok {
			return int64(y)
		}
	case ref.Short:
		if y, ok := v.(int16); ok {
			return int64(y)
		}
	case ref.Int:
		if y, ok := v.(int32); ok {
			return int64(y)
		}
	case ref.Long:
		if y, ok := v.(int64); ok {
			return y
		}
	case ref.Float:
		if y, ok := v.(float32); ok {
			return ref.F32(math.Float32bits(y))
		}
	case ref.Double:
		if y, ok := v.(float64); ok {
			return ref.F64(math.Float64bits(y))
		}
	case ref.String, ref.Varchar, ref.Char:
		if y, ok := v.(string); ok {
			c := string(append([]byte(nil), y...))
			if x.keep != nil && len(y) > 0 {
				*x.keep = append(*x.keep, kept{s: y, copy: c})
			}
			return c
		}
	case ref.Binary:
		if y, ok := v.([]byte); ok {
			c := string(y)
			if x.keep != nil && len(y) > 0 {
				*x.keep = append(*x.keep, kept{b: y, copy: c})
			}
			return ref.Bytes(c)
		}
	case ref.Decimal:
		if y, ok := v.(api.Decimal64); ok {
			return ref.Dec{P: y.Precision, S: int64(y.Scale)}
		}
	case ref.Date:
		if y, ok := v.(api.Date); ok {
			// the calendar day the user sees
			yy, m, d := time.Time(y).Date()
			s := time.Date(yy, m, d, 0, 0, 0, 0, time.UTC).Unix()
			return s / 86400 // exact
		}
	case ref.Timestamp:
		if y, ok := v.(api.Timestamp); ok {
			w := y.Time()
			return ref.TS{S: w.Unix() - base2015, N: uint64(w.Nanosecond())}
		}
	}
	x.fail("column %d (%v): unexpected value %T %v", t.ID, t.Kind, v, v)
	return nil
}

// changed reports whether a retained value is no longer what was returned.
func changed(ks []kept) string {
	for i := range ks {
		k := &ks[i]
		now := k.s
		if k.b != nil {
			now = string(k.b)
		}
		if now != k.copy {
			return fmt.Sprintf("value %q became %q", clipS(k.copy), clipS(now))
		}
	}
	return ""
}

func clipS(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}
