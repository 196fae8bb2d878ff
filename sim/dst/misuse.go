package dst

import (
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"

	ref "verifsim/orcref"
	"verifsim/simrt"
)

// Misuse of the API: arguments which do not fit the schema or make no sense.

var (
	badBatches = []string{"value", "value", "value", "nil", "drop", "dup", "extra", "id", "nilkid", "short", "long", "novec", "leafkid"}
	badSchemas = []string{"swapids", "gapids", "zeroids", "encoding", "encoding", "names", "kind", "chunk", "chunk", "compression", "stripe", "stride"}
	badNexts   = []string{"nil", "drop", "dup", "id", "nilkid", "swap", "cap", "cap", "novec", "kind", "nocap"}
	badMks     = []string{"rowsize", "orphan", "unknown"}
)

// badSchema spoils what is passed to NewOSFileWriter. Whatever that is good
// for, the file must be right if no call returns an error.
func badSchema(op *Op, td *api.TypeDescription, o *config.WriterOptions) {
	r := simrt.NewRand(op.Arg)
	var all []*api.TypeDescription
	var walk func(td *api.TypeDescription)
	walk = func(td *api.TypeDescription) {
		all = append(all, td)
		for _, c := range td.Children {
			walk(c)
		}
	}
	walk(td)
	x := all[r.Intn(len(all))]
	switch op.Miss {
	case "swapids":
		y := all[r.Intn(len(all))]
		x.Id, y.Id = y.Id, x.Id
	case "gapids":
		for i := r.Intn(len(all)); i < len(all); i++ {
			all[i].Id += 1 + uint32(r.Intn(3))
		}
	case "zeroids":
		for _, y := range all {
			y.Id = 0
		}
	case "encoding":
		x.Encoding = pb.ColumnEncoding_Kind(r.Intn(5))
	case "names":
		if n := len(td.ChildrenNames); n > 0 {
			td.ChildrenNames = td.ChildrenNames[:r.Intn(n)]
		}
	case "kind":
		x.Kind = []pb.Type_Kind{pb.Type_UNION, pb.Type_LIST, pb.Type_MAP, 18, 99, -1}[r.Intn(6)]
	case "chunk":
		o.ChunkSize = []int{0, -1, -1 << 20, 1<<23 - 1, 1 << 23, 1<<23 + 1, 1 << 24}[r.Intn(7)]
	case "compression":
		o.CompressionKind = pb.CompressionKind(2 + r.Intn(5))
	case "stripe":
		o.StripeSize = []int{0, -1, -1 << 40}[r.Intn(3)]
	case "stride":
		o.WriteIndex = true
		o.IndexStride = []int{0, -1, -1 << 40}[r.Intn(3)]
	}
}

// vectors lists the vectors of a batch with their columns.
func vectors(t *ref.Type, cv *api.ColumnVector) (ts []*ref.Type, cvs []*api.ColumnVector) {
	ts, cvs = append(ts, t), append(cvs, cv)
	for i, k := range t.Kids {
		a, b := vectors(k, cv.Children[i])
		ts, cvs = append(ts, a...), append(cvs, b...)
	}
	return
}

// badBatch spoils a batch of rows; false if there is no way to.
func badBatch(op *Op, t *ref.Type, cv **api.ColumnVector, rows []ref.Val) bool {
	r := simrt.NewRand(op.Arg)
	ts, cvs := vectors(t, *cv)
	switch op.Miss {
	case "value": // of another type
		type place struct {
			t *ref.Type
			v *api.Value
		}
		var ps []place
		var walk func(t *ref.Type, cv *api.ColumnVector, i int)
		walk = func(t *ref.Type, cv *api.ColumnVector, i int) {
			if cv.Vector != nil && cv.Vector[i].Null {
				return
			}
			for j, k := range t.Kids {
				walk(k, cv.Children[j], i)
			}
			if t.Kind != ref.Struct {
				ps = append(ps, place{t, &cv.Vector[i]})
			}
		}
		for i := 0; i < len(rows) && i < 2000; i++ {
			walk(t, *cv, i)
		}
		if len(ps) == 0 {
			return false
		}
		p := ps[r.Intn(len(ps))]
		p.v.V = wrong(p.t, int(r.Next()>>16))
		return true
	case "nil":
		*cv = nil
		return true
	}
	if len(rows) == 0 {
		return false
	}
	k := r.Intn(len(cvs))
	for i := range cvs { // the first one it can be done to
		c, ct := cvs[(k+i)%len(cvs)], ts[(k+i)%len(cvs)]
		if misshape(op.Miss, r, c, ct, cvs) {
			return true
		}
	}
	return false
}

// misshape spoils one vector of a batch.
func misshape(miss string, r *Rand, c *api.ColumnVector, ct *ref.Type, cvs []*api.ColumnVector) bool {
	n := len(c.Children)
	switch miss {
	case "drop":
		if n == 0 {
			return false
		}
		j := r.Intn(n)
		c.Children = append(c.Children[:j:j], c.Children[j+1:]...)
	case "dup":
		if n == 0 {
			return false
		}
		c.Children = append(c.Children, c.Children[r.Intn(n)])
	case "extra":
		c.Children = append(c.Children, &api.ColumnVector{Id: uint32(len(cvs) + r.Intn(3)), Kind: pb.Type_LONG, Vector: make([]api.Value, len(c.Vector))})
	case "leafkid":
		if ct.Kind == ref.Struct {
			return false
		}
		y := cvs[r.Intn(len(cvs))]
		c.Children = append(c.Children, &api.ColumnVector{Id: y.Id, Kind: y.Kind, Vector: y.Vector})
	case "id":
		id := uint32(r.Intn(len(cvs) + 2))
		if r.Intn(4) == 0 {
			id = uint32(r.Next() >> 32)
		}
		if id == c.Id {
			id++
		}
		c.Id = id
	case "nilkid":
		if n == 0 {
			return false
		}
		c.Children[r.Intn(n)] = nil
	case "short", "long":
		with := 0
		for _, y := range cvs {
			if len(y.Vector) > 0 {
				with++
			}
		}
		if with < 2 || len(c.Vector) == 0 {
			return false
		}
		if miss == "long" {
			c.Vector = append(c.Vector, c.Vector[r.Intn(len(c.Vector))])
		} else {
			c.Vector = c.Vector[:r.Intn(len(c.Vector))]
		}
	case "novec":
		with := 0
		for _, y := range cvs {
			if y.Vector != nil {
				with++
			}
		}
		if c.Vector == nil || with < 2 {
			return false
		}
		c.Vector = nil
	default:
		panic("harness: unknown misuse " + miss)
	}
	return true
}

// wrong is a value of a type that a column does not hold.
func wrong(t *ref.Type, k int) interface{} {
	v := int64(1)
	pool := []interface{}{nil, int(3), v, int32(7), int16(4), uint64(9), uint32(1), byte(2), float64(1.5), float32(2), true, "text", []byte("bytes"),
		api.Decimal64{Precision: 1}, api.NewDate(2020, 1, 1), api.Timestamp{}, &v, struct{}{}, api.Value{V: v}, time.Unix(0, 0), []interface{}{v}}
	right := map[ref.Kind]int{ref.Boolean: 10, ref.Byte: 7, ref.Short: 4, ref.Int: 3, ref.Long: 2, ref.Float: 9, ref.Double: 8, ref.String: 11, ref.Varchar: 11,
		ref.Char: 11, ref.Binary: 12, ref.Decimal: 13, ref.Date: 14, ref.Timestamp: 15}[t.Kind]
	if k %= len(pool) - 1; k >= right {
		k++
	}
	return pool[k]
}

// badNext passes a batch that does not fit to Next.
func (t *task) badNext(op *Op) {
	e := t.e
	b := e.bs[op.H]
	if b == nil || b.failed || b.unsure || b.lost {
		return
	}
	if op.Miss == "closed" {
		if !b.closed {
			return
		}
	} else if b.closed {
		return
	}
	r := simrt.NewRand(op.Arg)
	td := b.r.r.GetSchema()
	cv := vector(td, b.inc, b.cap)
	ts, cvs := vectors(b.t, cv)
	var undo func()
	max := b.cap
	k := r.Intn(len(cvs))
	c := cvs[k]
	elems := element(b.t, ts[k]) // sized by the reader
	must := true                 // be rejected
	switch op.Miss {
	case "nil":
		cv = nil
	case "closed":
		must = false
	case "nocap":
		for _, c := range cvs {
			c.Vector = nil
		}
	case "cap":
		if len(cvs) < 2 || c.Vector == nil {
			return
		}
		n := r.Intn(b.cap + 1)
		c.Vector = make([]api.Value, 0, n)
		must = false
		if !elems && ts[k].Kind != ref.Struct {
			max = n
		}
	case "kind":
		was := c.Kind
		if c.Kind = pb.Type_Kind(r.Intn(20)); c.Kind == was {
			return
		}
		undo, must = func() { c.Kind = was }, false
	case "swap":
		if len(c.Children) < 2 {
			return
		}
		i := r.Intn(len(c.Children) - 1)
		s := func() { c.Children[i], c.Children[i+1] = c.Children[i+1], c.Children[i] }
		s()
		undo, must = s, false
	default:
		must = op.Miss != "novec" || !elems
		if !misshape(op.Miss, r, c, ts[k], cvs) {
			return
		}
	}
	left := len(b.rows) - b.pos
	var end bool
	var err error
	if !t.call("Next", func() { end, err = b.br.Next(cv) }) {
		return
	}
	t.log("next misused (%s) %v %s", op.Miss, end, errS(err))
	if err != nil {
		e.o.Probe["misuse rejected"]++
		b.unsure = true
		return
	}
	if left == 0 && end {
		return
	}
	if must {
		t.viol("accepted", "Next at row %d of %d accepted a batch which does not fit its columns: %s", b.pos, len(b.rows), op.Miss)
		t.dead = true
		return
	}
	e.o.Probe["misuse accepted"]++
	if undo != nil {
		undo()
	}
	n := batchLen(b.t, cv)
	x := &extractor{}
	got := x.rows(b.t, cv, n)
	if x.err != "" || n > left || n > max {
		t.viol("values", "Next at row %d of %d with a batch which does not fit (%s) delivered %d rows (capacity %d, end %v): %s", b.pos, len(b.rows), op.Miss, n, max, end, x.err)
		t.dead = true
		return
	}
	for i := 0; i < n; i++ {
		if !ref.Equal(got[i], b.rows[b.pos+i]) {
			t.viol("values", "row %d is %s, expected %s, with a batch which does not fit (%s)", b.pos+i, ref.Format(got[i]), ref.Format(b.rows[b.pos+i]), op.Miss)
			t.dead = true
			return
		}
	}
	b.pos += n
	if end != (b.pos == len(b.rows)) {
		t.viol("end", "end flag is %v at row %d of %d", end, b.pos, len(b.rows))
	}
}

// element tells whether x is part of the elements of a list or map in t.
func element(t, x *ref.Type) bool {
	for _, k := range t.Kids {
		if has(k, x) && (t.Kind == ref.List || t.Kind == ref.Map) || element(k, x) {
			return true
		}
	}
	return false
}

func has(t, x *ref.Type) bool {
	in := t == x
	for _, k := range t.Kids {
		in = in || has(k, x)
	}
	return in
}

// badMk passes senseless options to CreateBatchReader and CreateVector.
func (t *task) badMk(op *Op) {
	e := t.e
	rh := e.rs[op.R]
	if rh == nil || rh.closed {
		return
	}
	r := simrt.NewRand(op.Arg)
	all := e.types[rh.f].Number()
	bo := &api.BatchOption{RowSize: 10}
	must := false
	switch op.Miss {
	case "rowsize":
		bo.RowSize = -r.Intn(3)
		must = true
	case "unknown":
		bo.Includes = []uint32{0, uint32(len(all) + r.Intn(3))}
		if r.Intn(2) == 0 {
			bo.Includes = bo.Includes[1:]
		}
	case "orphan":
		x := all[r.Intn(len(all))]
		if x.ID == 0 {
			return
		}
		bo.Includes = []uint32{uint32(x.ID)}
		must = true
	}
	td := rh.r.GetSchema()
	var br orc.BatchReader
	var cv *api.ColumnVector
	var err, err2 error
	if !t.call("CreateVector", func() { cv, err2 = td.CreateVector(bo) }) {
		return
	}
	if !t.call("CreateBatchReader", func() { br, err = rh.r.CreateBatchReader(bo) }) {
		return
	}
	t.log("mk misused (%s) %s %s", op.Miss, errS(err), errS(err2))
	if err != nil {
		e.o.Probe["misuse rejected"]++
		return
	}
	if must && len(e.expect[rh.f]) > 0 {
		t.viol("accepted", "CreateBatchReader accepted senseless options: %s %+v", op.Miss, bo)
	}
	if cv != nil && err2 == nil {
		var end bool
		if !t.call("Next", func() { end, err = br.Next(cv) }) {
			return
		}
		t.log("next %v %v", end, err)
	}
	if !t.call("BatchReader.Close", func() { br.Close() }) {
		return
	}
}
