package dst

import (
	"math"
	"math/big"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc"

	ref "verifsim/orcref"
	os "verifsim/simos"
)

// stats compares the statistics of a finished file with its rows, both as the
// bytes of the footer say and as Reader.GetStatistics returns them.
func (t *task) stats(op *Op) {
	e := t.e
	if !e.done[op.F] {
		return
	}
	b, _ := os.D.Get(e.p.Files[op.F].Path)
	f, err := ref.Decode(b, ref.DecOpts{})
	if err != nil {
		e.o.Skipped = "file is not valid: " + err.Error()
		return
	}
	root := e.types[op.F]
	all := root.Number()
	if len(f.Footer.Stats) != len(all) {
		t.viol("stats", "%d column statistics, %d columns", len(f.Footer.Stats), len(all))
		return
	}
	for i, c := range all {
		t.columnStats("footer", root, c, e.expect[op.F], f.Footer.Stats[i], f.ColBytes[i])
	}
	var r orc.Reader
	if !t.call("NewOSFileReader", func() { r, err = orc.NewOSFileReader(e.p.Files[op.F].Path) }) {
		return
	}
	if err != nil {
		e.o.Skipped = "cannot be opened: " + err.Error()
		return
	}
	t.call("GetStatistics", func() {
		ss := r.GetStatistics()
		if len(ss) != len(all) {
			t.viol("stats", "GetStatistics: %d columns, the file has %d", len(ss), len(all))
			return
		}
		for i, c := range all {
			b, err := proto.Marshal(ss[i])
			if err != nil {
				panic("harness: " + err.Error())
			}
			s, err := ref.ParseStats(b)
			if err != nil {
				panic("harness: " + err.Error())
			}
			t.columnStats("GetStatistics", root, c, e.expect[op.F], s, f.ColBytes[i])
		}
	})
	t.call("Reader.Close", func() { r.Close() })
}

func (t *task) columnStats(where string, root, c *ref.Type, rows []ref.Val, s *ref.Stats, onDisk uint64) {
	vals, null := ref.Column(root, c, rows)
	bad := func(f string, a ...interface{}) {
		t.viol("stats", "%s, column %d (%v, %d values): "+f, append([]interface{}{where, c.ID, c.Kind, len(vals)}, a...)...)
	}
	t.e.o.Probe["column statistics"]++
	if null && (s.HasNull == nil || !*s.HasNull) {
		bad("null flag is not set, but there are nulls")
	}
	if s.Bytes == nil || *s.Bytes != onDisk {
		bad("bytes on disk %v, the streams have %d", pu(s.Bytes), onDisk)
	}
	if c.Kind == ref.Struct {
		return
	}
	if s.Num == nil || *s.Num != uint64(len(vals)) {
		bad("number of values %v", pu(s.Num))
	}
	switch c.Kind {
	case ref.Boolean:
		n := uint64(0)
		for _, v := range vals {
			if v.(bool) {
				n++
			}
		}
		if len(s.Bucket) != 1 && (len(vals) > 0 || len(s.Bucket) > 1) || len(s.Bucket) == 1 && s.Bucket[0] != n {
			bad("true count %v, written %d", s.Bucket, n)
		}
	case ref.Byte:
		if s.HasBin && s.Bin != nil && *s.Bin != int64(len(vals)) {
			bad("sum %d", *s.Bin)
		}
	case ref.Short, ref.Int, ref.Long, ref.Date:
		is := s.Int
		if c.Kind == ref.Date {
			is = s.Date
		}
		if is == nil {
			if len(vals) > 0 && c.Kind != ref.Date {
				bad("no integer statistics")
			}
			break
		}
		sum := new(big.Int)
		over, lo, hi := false, false, false
		for _, v := range vals {
			x := v.(int64)
			if is.Min != nil && x < *is.Min || is.Max != nil && x > *is.Max {
				bad("minimum %v, maximum %v exclude %d", pi(is.Min), pi(is.Max), x)
				break
			}
			lo, hi = lo || is.Min != nil && x == *is.Min, hi || is.Max != nil && x == *is.Max
			sum.Add(sum, big.NewInt(x))
			over = over || !sum.IsInt64()
		}
		if len(vals) > 0 && (is.Min != nil && !lo || is.Max != nil && !hi) {
			bad("minimum %v, maximum %v are not values of the column", pi(is.Min), pi(is.Max))
		}
		if c.Kind == ref.Date {
			break
		}
		switch {
		case is.Sum == nil:
			if !over && len(vals) > 0 {
				bad("no sum, written %v", sum)
			}
		case big.NewInt(*is.Sum).Cmp(sum) != 0:
			bad("sum %d, written %v", *is.Sum, sum)
		}
	case ref.Float, ref.Double:
		if s.Double == nil {
			break
		}
		ordered, lo, hi := false, false, false
		for _, v := range vals {
			var x float64
			if f, ok := v.(ref.F32); ok {
				x = float64(math.Float32frombits(uint32(f)))
			} else {
				x = math.Float64frombits(uint64(v.(ref.F64)))
			}
			if s.Double.Min != nil && x < *s.Double.Min || s.Double.Max != nil && x > *s.Double.Max {
				bad("minimum or maximum excludes %v", x)
				break
			}
			ordered = ordered || x == x
			lo, hi = lo || s.Double.Min != nil && x == *s.Double.Min, hi || s.Double.Max != nil && x == *s.Double.Max
		}
		if ordered && (s.Double.Min != nil && !lo || s.Double.Max != nil && !hi) {
			bad("minimum %v, maximum %v are not values of the column", pf(s.Double.Min), pf(s.Double.Max))
		}
	case ref.String, ref.Varchar, ref.Char:
		if s.Str == nil {
			break
		}
		isLo, isHi := false, false
		for _, v := range vals {
			x := v.(string)
			isLo, isHi = isLo || s.Str.Min != nil && x == *s.Str.Min, isHi || s.Str.Max != nil && x == *s.Str.Max
			lo, hi := s.Str.Min, s.Str.Max
			if lo == nil {
				lo = s.Str.Lower
			}
			if hi == nil {
				hi = s.Str.Upper
			}
			if lo != nil && x < *lo || hi != nil && x > *hi ||
				s.Str.Lower != nil && x < *s.Str.Lower || s.Str.Upper != nil && x > *s.Str.Upper {
				bad("minimum or maximum excludes %q", clipS(x))
				break
			}
		}
		if len(vals) > 0 && (s.Str.Min != nil && !isLo || s.Str.Max != nil && !isHi) {
			bad("minimum or maximum is not a value of the column")
		}
		total := int64(0)
		for _, v := range vals {
			total += int64(len(v.(string)))
		}
		if s.Str.Sum == nil && total != 0 || s.Str.Sum != nil && *s.Str.Sum != total {
			bad("total length %v, written %d", pi(s.Str.Sum), total)
		}
	case ref.Binary:
		total := int64(0)
		for _, v := range vals {
			total += int64(len(v.(ref.Bytes)))
		}
		if s.HasBin && (s.Bin == nil && total != 0 || s.Bin != nil && *s.Bin != total) {
			bad("total length %v, written %d", pi(s.Bin), total)
		}
	case ref.Decimal:
		if s.Dec == nil || len(vals) == 0 {
			break
		}
		rat := func(p *string) *big.Rat {
			if p == nil {
				return nil
			}
			r, ok := new(big.Rat).SetString(*p)
			if !ok {
				bad("%q is no number", clipS(*p))
				return nil
			}
			return r
		}
		lo, hi, sm := rat(s.Dec.Min), rat(s.Dec.Max), rat(s.Dec.SumS)
		sum := new(big.Rat)
		isLo, isHi := false, false
		ten := big.NewInt(10)
		for _, v := range vals {
			d := v.(ref.Dec)
			x := new(big.Rat).SetInt64(d.P)
			k := d.S
			if k < 0 {
				k = -k
			}
			pow := new(big.Rat).SetInt(new(big.Int).Exp(ten, big.NewInt(k), nil))
			if d.S >= 0 {
				x.Quo(x, pow)
			} else {
				x.Mul(x, pow)
			}
			if lo != nil && x.Cmp(lo) < 0 || hi != nil && x.Cmp(hi) > 0 {
				bad("minimum %v or maximum %v excludes %v", lo, hi, x)
				break
			}
			isLo, isHi = isLo || lo != nil && x.Cmp(lo) == 0, isHi || hi != nil && x.Cmp(hi) == 0
			sum.Add(sum, x)
		}
		if lo != nil && !isLo || hi != nil && !isHi {
			bad("minimum %v or maximum %v is not a value of the column", lo, hi)
		}
		if sm != nil && sm.Cmp(sum) != 0 {
			bad("sum %v, written %v", sm, sum)
		}
	case ref.Timestamp:
		if s.TS == nil {
			break
		}
		var is [4]bool
		for _, v := range vals {
			x := v.(ref.TS)
			ms := (x.S+1420070400)*1000 + int64(x.N/1_000_000)
			for i, p := range [4]*int64{s.TS.Min, s.TS.Max, s.TS.MinUtc, s.TS.MaxUtc} {
				is[i] = is[i] || p == nil || ms == *p
			}
			for _, p := range [][2]*int64{{s.TS.Min, s.TS.Max}, {s.TS.MinUtc, s.TS.MaxUtc}} {
				if p[0] != nil && ms < *p[0] || p[1] != nil && ms > *p[1] {
					bad("minimum %v or maximum %v excludes %d ms", pi(p[0]), pi(p[1]), ms)
					return
				}
			}
		}
		if len(vals) > 0 && is != [4]bool{true, true, true, true} {
			bad("minimum %v/%v or maximum %v/%v is not a value of the column", pi(s.TS.Min), pi(s.TS.MinUtc), pi(s.TS.Max), pi(s.TS.MaxUtc))
		}
	}
}

func pf(p *float64) interface{} {
	if p == nil {
		return nil
	}
	return *p
}

func pu(p *uint64) interface{} {
	if p == nil {
		return "absent"
	}
	return *p
}
func pi(p *int64) interface{} {
	if p == nil {
		return "absent"
	}
	return *p
}
