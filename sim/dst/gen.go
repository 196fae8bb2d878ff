package dst

import (
	"fmt"
	"sort"
	"strconv"

	ref "verifsim/orcref"
	os "verifsim/simos"
	"verifsim/simrt"
)

// Prop ties a property to its workload, its judgement and the violation
// classes which belong to it.
type Prop struct {
	ID      string
	Gen     func(r *Rand, g *GenOpts) *Plan
	Check   func(p *Plan) *Outcome
	Classes []string
}

type GenOpts struct {
	Thorough bool
}

func (p *Prop) Owns(class string) bool {
	for _, c := range p.Classes {
		if c == class {
			return true
		}
	}
	return false
}

// Judge executes a plan and returns the outcome with only the violations of
// this property.
func (p *Prop) Judge(pl *Plan) *Outcome {
	o := p.Check(pl)
	var vs []Violation
	if o.Skipped == "" {
		for _, v := range o.Viol {
			if p.Owns(v.Class) {
				vs = append(vs, v)
			}
		}
	}
	o.Viol = vs
	return o
}

func plain(p *Plan) *Outcome { return p.Exec() }

var readClasses = []string{"values", "end", "error", "panic", "hang", "accepted", "sticky"}

// Props lists every property decided by simulation.
var Props = []*Prop{
	{ID: "C01", Gen: genC01, Check: plain, Classes: readClasses},
	{ID: "C02", Gen: genC02, Check: plain, Classes: []string{"format"}},
	{ID: "C03", Gen: genC03, Check: plain, Classes: readClasses},
	{ID: "C04", Gen: genC04, Check: plain, Classes: readClasses},
	{ID: "C05", Gen: genC05, Check: plain, Classes: readClasses},
	{ID: "C06", Gen: genC06, Check: plain, Classes: readClasses},
	{ID: "C07", Gen: genC07, Check: plain, Classes: []string{"ack", "accepted", "format", "panic", "hang"}},
	{ID: "C08", Gen: genC08, Check: plain, Classes: readClasses},
	{ID: "C09", Gen: genC09, Check: plain, Classes: []string{"misread", "panic", "hang", "error", "values", "end"}},
	{ID: "C10", Gen: genC10, Check: checkSolo, Classes: []string{"differs"}},
	{ID: "C11", Gen: genC11, Check: checkSolo, Classes: []string{"differs"}},
	{ID: "C12", Gen: genC12, Check: plain, Classes: []string{"leak", "misuse"}},
	{ID: "C13", Gen: genC13, Check: plain, Classes: []string{"stats"}},
	{ID: "C14", Gen: genC14, Check: checkC14, Classes: []string{"alias"}},
	{ID: "C17", Gen: genC17, Check: plain, Classes: []string{"panic", "hang", "memory", "leak", "misuse"}},
	{ID: "C15", Gen: genC15, Check: checkC15, Classes: []string{"bytes", "scan"}},
	{ID: "C18", Gen: genC18, Check: plain, Classes: []string{"stripes"}},
	{ID: "C19", Gen: genC19, Check: plain, Classes: readClasses},
	{ID: "C22", Gen: genC22, Check: plain, Classes: []string{"resources"}},
	{ID: "C21", Gen: genC21, Check: plain, Classes: append([]string{"modified"}, readClasses...)},
	{ID: "C20", Gen: genC20, Check: plain, Classes: append([]string{"format", "ack"}, readClasses...)},
}

func PropByID(id string) *Prop {
	for _, p := range Props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// --- building blocks ---

var itoa = strconv.Itoa

func genW(r *Rand) *WOpts {
	w := &WOpts{Zlib: r.Intn(10) < 6, EncBuf: 8192, Stride: 1 + r.Intn(600), Index: r.Intn(3) == 0}
	switch r.Intn(8) {
	case 0:
		w.Chunk = 262144
	case 1:
		w.Chunk = 16 + r.Intn(48)
	default:
		w.Chunk = 32 << uint(r.Intn(8))
		if r.Intn(2) == 0 {
			w.Chunk += r.Intn(w.Chunk)
		}
	}
	switch r.Intn(4) {
	case 0:
		w.Stripe = 256 << 20
	case 1:
		w.Stripe = 100 + r.Intn(900)
	default:
		w.Stripe = 200 << uint(r.Intn(8))
	}
	if r.Intn(8) == 0 {
		w.Stride = 1000
	}
	return w
}

func genF(r *Rand, d *Data) *ref.EncOpts {
	o := &ref.EncOpts{Seed: r.Next() >> 16, Zlib: r.Intn(2) == 0, KeepNulls: r.Intn(2) == 0, DropEmpty: r.Intn(4) == 0,
		Shuffle: r.Intn(4) == 0, Meta: r.Intn(3) == 0, Whole: r.Intn(2) == 0, Simple: r.Intn(6) == 0}
	o.Block = 32 << uint(r.Intn(14))
	if r.Intn(3) == 0 {
		o.Block += r.Intn(o.Block)
	}
	if r.Intn(2) == 0 {
		o.Stride = 1 + r.Intn(400)
		o.Bloom = r.Intn(3) == 0
	}
	if r.Intn(6) == 0 {
		o.Gap = 1 + r.Intn(300)
	}
	if r.Intn(6) == 0 {
		o.UserMeta = r.Intn(40000)
	}
	n := len(d.Rows())
	for left := n; left > 0 && len(o.Stripes) < 12; {
		k := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			k = 1 + r.Intn(1+n/4)
		}
		if r.Intn(25) == 0 {
			k = 0
		}
		if k > left {
			k = left
		}
		o.Stripes = append(o.Stripes, k)
		left -= k
	}
	if r.Intn(3) == 0 {
		o.Stripes = nil
	}
	return o
}

func genDisk(r *Rand) os.Spec {
	s := os.Spec{Seed: r.Next() >> 16}
	if r.Intn(3) > 0 {
		s.ShortRead = []int{50, 300, 900}[r.Intn(3)]
	}
	if r.Intn(2) == 0 {
		s.LatMax = 1 + r.Intn(3000)
	}
	if r.Intn(6) == 0 {
		s.Faults = append(s.Faults, os.Fault{Op: "any", Nth: r.Intn(60), Kind: "slow", Arg: 1 + r.Intn(20000)})
	}
	return s
}

// splits of n rows into batches
func genSplits(r *Rand, n int) []int {
	var s []int
	style := r.Intn(4)
	for left := n; left > 0; {
		k := left
		switch style {
		case 1:
			k = 1 + r.Intn(n)
		case 2:
			k = 1 + r.Intn(200)
		case 3:
			k = 1 + r.Intn(7)
			if n > 300 {
				k = 1 + r.Intn(64)
			}
		}
		if k > left {
			k = left
		}
		s = append(s, k)
		left -= k
	}
	if r.Intn(8) == 0 {
		s = append(s, 0)
	}
	return s
}

func writeOps(r *Rand, f, h int, d *Data) []Op {
	ops := []Op{{K: "create", F: f, H: h}}
	for _, n := range genSplits(r, len(d.Rows())) {
		op := Op{K: "write", H: h, N: n}
		if r.Intn(4) == 0 {
			op.Mut = 2
		}
		ops = append(ops, op)
	}
	return append(ops, Op{K: "closew", H: h})
}

func genCap(r *Rand, n int) int {
	if n > 60000 {
		return 100 + r.Intn(n)
	}
	switch r.Intn(8) {
	case 0:
		return 1 + r.Intn(3)
	case 1:
		return 1 + n
	case 2:
		if n > 0 {
			return n
		}
	case 3:
		return 10000
	case 4:
		return []int{8, 10, 64, 100, 128, 511, 512, 513, 1000, 1024}[r.Intn(10)]
	}
	return 1 + r.Intn(1+n)
}

// genInc selects a subset of the columns closed under ancestors; lists and
// maps come whole.
func genInc(r *Rand, root *ref.Type) []int {
	if root.Kind != ref.Struct || r.Intn(6) == 0 {
		return nil
	}
	var ids []int
	var whole func(t *ref.Type)
	whole = func(t *ref.Type) {
		ids = append(ids, t.ID)
		for _, k := range t.Kids {
			whole(k)
		}
	}
	var pick func(t *ref.Type)
	pick = func(t *ref.Type) {
		if t.Kind != ref.Struct {
			whole(t)
			return
		}
		ids = append(ids, t.ID)
		must := r.Intn(len(t.Kids))
		for i, k := range t.Kids {
			if i == must || r.Intn(3) == 0 {
				pick(k)
			}
		}
	}
	pick(root)
	if r.Intn(5) == 0 { // the order should not matter
		for i := len(ids) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	} else {
		sort.Ints(ids)
	}
	return ids
}

// genPre makes a file which exists from the start.
func genPre(r *Rand, path string, small bool) FileSpec {
	foreign := r.Intn(2) == 0
	d := genData(r, typeOpts{lists: foreign, cols: 5})
	if small && d.N > 400 {
		d.N = 50 + r.Intn(350)
	}
	wide := !small && r.Intn(150) == 0
	if wide {
		d = genWide(r, foreign)
	}
	f := FileSpec{Path: path, Data: d, Pre: true}
	if foreign {
		f.F = genF(r, d)
	} else {
		f.W = genW(r)
	}
	if wide { // every column has buffers
		f.narrow()
	}
	return f
}

// genLong is a file with more rows than 16 bits count, mostly in one stripe.
func genLong(r *Rand, path string) FileSpec {
	d := genMany(r)
	f := FileSpec{Path: path, Data: d, Pre: true}
	if r.Intn(2) == 0 {
		f.F = genF(r, d)
		if r.Intn(2) == 0 {
			f.F.Stripes = nil
		}
		f.F.Stride *= 50
		f.F.Block |= 4096
	} else {
		f.W = genW(r)
		f.W.Chunk = 1024 << uint(r.Intn(9))
		f.W.Stripe = 1 << uint(16+r.Intn(12))
		f.W.Index = false
	}
	return f
}

func (f *FileSpec) narrow() {
	if f.W != nil {
		f.W.Chunk = min(f.W.Chunk, 8192)
		f.W.Stripe = max(f.W.Stripe, 1000)
	}
	if f.F != nil {
		f.F.Block = min(f.F.Block, 8192)
	}
}

func genSched(r *Rand) simrt.SchedSpec {
	sp := simrt.SchedSpec{Seed: r.Next() >> 16, Quantum: []int{5, 30, 200, 2000, 20000}[r.Intn(5)]}
	if r.Intn(3) != 0 {
		sp.Hot = []int{1, 2, 5, 20}[r.Intn(4)]
		if r.Intn(2) == 0 {
			sp.Quantum = 1000000
		}
	}
	if r.Intn(2) == 0 {
		sp.Trap = []int{1, 5, 20, 60}[r.Intn(4)]
		if r.Intn(3) == 0 {
			sp.Shared, sp.Trap = true, 1+r.Intn(2)*3
		}
		if r.Intn(3) > 0 {
			sp.Quantum, sp.Hot = 1000000, 0
		}
	}
	return sp
}

// --- properties ---

func writePlan(prop string, r *Rand, many bool) *Plan {
	d := genData(r, typeOpts{cols: 5})
	w := genW(r)
	if many && r.Intn(400) == 0 {
		d = genMany(r)
		w.Chunk = 1024 << uint(r.Intn(9))
		w.Stripe = 1 << uint(16+r.Intn(12))
		if r.Intn(2) == 0 {
			w.Stripe = 256 << 20
		}
	}
	wide := many && r.Intn(150) == 0
	if wide {
		d = genWide(r, false)
	}
	junk := 0
	if r.Intn(6) == 0 { // overwrites a file
		junk = 1 + r.Intn(1<<uint(4+r.Intn(16)))
	}
	f := FileSpec{Path: "/data/a.orc", Data: d, W: w, Junk: junk}
	if wide {
		f.narrow()
	}
	return &Plan{Prop: prop, Files: []FileSpec{f},
		Lives: []Life{{Disk: genDisk(r), Tasks: [][]Op{writeOps(r, 0, 1, d)}}}}
}

func genC01(r *Rand, g *GenOpts) *Plan {
	p := writePlan("C01", r, true)
	n := p.Files[0].Data.N
	read := []Op{{K: "open", F: 0, H: 11}, {K: "mk", R: 11, H: 21, N: genCap(r, n), C: r.Intn(4) / 3}, {K: "drain", H: 21}, {K: "closeb", H: 21}, {K: "closer", H: 11}}
	if r.Intn(2) == 0 { // in a new process
		p.Lives = append(p.Lives, Life{Disk: genDisk(r), Tasks: [][]Op{read}})
	} else {
		p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], read...)
	}
	return p
}

func genC02(r *Rand, g *GenOpts) *Plan {
	p := writePlan("C02", r, true)
	p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], Op{K: "refcheck", F: 0})
	return p
}

func genC13(r *Rand, g *GenOpts) *Plan {
	p := writePlan("C13", r, true)
	p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], Op{K: "stats", F: 0})
	return p
}

func genC03(r *Rand, g *GenOpts) *Plan {
	d := genData(r, typeOpts{lists: true, cols: 5})
	if r.Intn(300) == 0 {
		d = genMany(r)
	}
	wide := r.Intn(150) == 0
	if wide {
		d = genWide(r, true)
	}
	f := genF(r, d)
	if wide {
		f.Block = min(f.Block, 8192)
	}
	if d.N > 60000 {
		if r.Intn(2) == 0 {
			f.Stripes = nil
		}
		f.Stride *= 50
		f.Block |= 4096
	}
	p := &Plan{Prop: "C03", Files: []FileSpec{{Path: "/data/a.orc", Data: d, Pre: true, F: f}}}
	ops := []Op{{K: "open", F: 0, H: 11}}
	for i := 0; i < 1+r.Intn(2); i++ {
		h := 21 + i
		ops = append(ops, Op{K: "mk", R: 11, H: h, N: genCap(r, d.N), C: r.Intn(4) / 3}, Op{K: "drain", H: h}, Op{K: "closeb", H: h})
	}
	ops = append(ops, Op{K: "closer", H: 11})
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	return p
}

func genC04(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C04", Files: []FileSpec{genPre(r, "/data/a.orc", false)}}
	if r.Intn(400) == 0 {
		p.Files[0] = genLong(r, "/data/a.orc")
	}
	n := p.Files[0].Data.N
	ops := []Op{{K: "open", F: 0, H: 11}}
	for i := 0; i < 1+r.Intn(3); i++ {
		h := 21 + i
		ops = append(ops, Op{K: "mk", R: 11, H: h, N: genCap(r, n), C: r.Intn(4) / 3}, Op{K: "drain", H: h, N: r.Intn(4)}, Op{K: "closeb", H: h})
	}
	ops = append(ops, Op{K: "closer", H: 11})
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	return p
}

// genHist is a history of Next and Seek calls on one batch reader.
func genHist(r *Rand, f *FileSpec, h, calls int) []Op {
	n := len(f.Data.Rows())
	var marks []int
	if f.F != nil {
		at := 0
		for _, k := range f.F.Stripes {
			at += k
			marks = append(marks, at)
		}
		if f.F.Stride > 0 {
			marks = append(marks, f.F.Stride)
		}
	} else if f.W != nil {
		marks = append(marks, f.W.Stride)
	}
	marks = append(marks, 0, n, 512, 128, 130)
	if n > 65536 {
		marks = append(marks, 65536)
	}
	row := func() int {
		switch r.Intn(10) {
		case 0:
			return 0
		case 1:
			if n > 0 {
				return n - 1
			}
			return 0
		case 2, 3, 4:
			k := marks[r.Intn(len(marks))] + r.Intn(3) - 1
			if k >= 0 && k < n {
				return k
			}
		case 5:
			if r.Intn(3) == 0 { // beyond the end
				return []int{n, n + 1, n + 1 + r.Intn(1000), 1 << 40}[r.Intn(4)]
			}
		}
		return r.Intn(n + 1)
	}
	var ops []Op
	for i := 0; i < calls; i++ {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			ops = append(ops, Op{K: "seek", H: h, N: row()})
			if r.Intn(3) > 0 {
				ops = append(ops, Op{K: "next", H: h})
			}
		case 4:
			if n < 3000 {
				ops = append(ops, Op{K: "drain", H: h, N: r.Intn(3)})
			}
		default:
			ops = append(ops, Op{K: "next", H: h})
		}
	}
	if r.Intn(2) == 0 {
		ops = append(ops, Op{K: "seek", H: h, N: row()}, Op{K: "drain", H: h, N: 1})
	}
	return ops
}

func genC05(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C05", Files: []FileSpec{genPre(r, "/data/a.orc", false)}}
	if r.Intn(400) == 0 {
		p.Files[0] = genLong(r, "/data/a.orc")
	}
	f := &p.Files[0]
	c := genCap(r, f.Data.N)
	if r.Intn(3) > 0 && c > 100 && f.Data.N < 60000 {
		c = 1 + r.Intn(100)
	}
	ops := []Op{{K: "open", F: 0, H: 11}, {K: "mk", R: 11, H: 21, N: c, C: r.Intn(4) / 3}}
	ops = append(ops, genHist(r, f, 21, 4+r.Intn(24))...)
	ops = append(ops, Op{K: "closeb", H: 21}, Op{K: "closer", H: 11})
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	return p
}

func genC06(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C06", Files: []FileSpec{genPre(r, "/data/a.orc", false)}}
	f := &p.Files[0]
	n := f.Data.N
	ops := []Op{{K: "open", F: 0, H: 11}}
	for i := 0; i < 2+r.Intn(3); i++ {
		h := 21 + i
		ops = append(ops, Op{K: "mk", R: 11, H: h, N: genCap(r, n), Inc: genInc(r, f.Data.T), C: r.Intn(4) / 3})
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "drain", H: h, N: r.Intn(2)})
		} else {
			ops = append(ops, genHist(r, f, h, 3+r.Intn(8))...)
		}
		ops = append(ops, Op{K: "closeb", H: h})
	}
	ops = append(ops, Op{K: "closer", H: 11})
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	return p
}

// genFaults places faults on operations which a fault free run of the plan
// issues.
func genFaults(r *Rand, counts, early map[string]int, ops []string, kinds map[string][]string, max int) []os.Fault {
	var fs []os.Fault
	for i := 1 + r.Intn(max); i > 0; i-- {
		op := ops[r.Intn(len(ops))]
		if counts[op] == 0 {
			continue
		}
		ks := kinds[op]
		f := os.Fault{Op: op, Nth: r.Intn(counts[op]), Kind: ks[r.Intn(len(ks))], Arg: r.Intn(5000), Sticky: r.Intn(3) == 0}
		if e := early[op]; e < counts[op] && r.Intn(8) > 0 { // not while the file is being opened
			f.Nth = e + r.Intn(counts[op]-e)
		}
		if r.Intn(4) == 0 && counts[op] > 3 { // near the end
			f.Nth = counts[op] - 1 - r.Intn(3)
		}
		fs = append(fs, f)
	}
	return fs
}

func genC07(r *Rand, g *GenOpts) *Plan {
	p := writePlan("C07", r, false)
	d := p.Files[0].Data
	ops := p.Lives[0].Tasks[0]
	if r.Intn(5) == 0 { // a null where none is allowed
		var cols []int
		for _, t := range d.T.Number() {
			if !t.Nulls && t.Kind != ref.Struct {
				cols = append(cols, t.ID)
			}
		}
		if len(cols) > 0 {
			at := 1 + r.Intn(len(ops))
			if at == len(ops) {
				at--
			}
			op := Op{K: "writenull", H: 1, N: 1 + r.Intn(40), C: cols[r.Intn(len(cols))]}
			ops = append(ops[:at:at], append([]Op{op}, ops[at:]...)...)
		}
	}
	// whatever the caller tries next
	for i := r.Intn(3); i > 0; i-- {
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "write", H: 1, N: 1 + r.Intn(20)})
		} else {
			ops = append(ops, Op{K: "closew", H: 1, N: 1})
		}
	}
	ops = append(ops, Op{K: "refcheck", F: 0})
	p.Lives[0].Tasks[0] = ops
	if r.Intn(10) == 0 {
		return p
	}
	o := p.Exec()
	l := &p.Lives[0]
	if len(o.Counts) == 0 {
		return p
	}
	if r.Intn(5) == 0 {
		total := 0
		for _, f := range o.Files {
			total += len(f)
		}
		l.Disk.Capacity = int64(1 + r.Intn(total+1))
		return p
	}
	l.Disk.Faults = append(l.Disk.Faults, genFaults(r, o.Counts[0], map[string]int{"write": 1}, []string{"write", "write", "write", "write", "write", "write", "write", "write", "close", "close", "create"},
		map[string][]string{"write": {"eio", "enospc", "short", "torn"}, "close": {"eio", "enospc"}, "create": {"eacces", "emfile", "enospc"}}, 2)...)
	return p
}

var readFaults = map[string][]string{"read": {"eio", "eio", "eof", "short"}, "seek": {"eio"}, "open": {"emfile", "eio", "eacces", "enoent"}, "stat": {"eio"}, "close": {"eio"}}

func genC08(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C08", Files: []FileSpec{genPre(r, "/data/a.orc", false)}}
	f := &p.Files[0]
	c := genCap(r, f.Data.N)
	if r.Intn(3) > 0 && c > 100 {
		c = 1 + r.Intn(100)
	}
	var inc []int
	if r.Intn(3) == 0 {
		inc = genInc(r, f.Data.T)
	}
	mk := Op{K: "mk", R: 11, H: 21, N: c, Inc: inc}
	ops := []Op{{K: "open", F: 0, H: 11}, mk}
	for i := 1 + r.Intn(4); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			ops = append(ops, Op{K: "drain", H: 21, N: r.Intn(4)})
		default:
			ops = append(ops, genHist(r, f, 21, 2+r.Intn(8))...)
		}
	}
	// recovery: seek until it works, then read on
	for i := 0; i < 2+r.Intn(3); i++ {
		if n := len(f.Data.Rows()); n > 0 {
			ops = append(ops, Op{K: "seek", H: 21, N: r.Intn(n)}, Op{K: "next", H: 21}, Op{K: "next", H: 21})
		}
	}
	ops = append(ops, Op{K: "drain", H: 21, N: 1})
	if r.Intn(4) == 0 { // another batch reader of the same reader
		mk.H = 22
		ops = append(ops, mk, Op{K: "drain", H: 22, N: 1})
	}
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	o := p.Exec()
	if len(o.Counts) == 0 {
		return p
	}
	opening := p.Clone()
	opening.Lives[0].Tasks[0] = opening.Lives[0].Tasks[0][:1]
	var early map[string]int
	if o := opening.Exec(); len(o.Counts) > 0 {
		early = o.Counts[0]
	}
	l := &p.Lives[0]
	l.Disk.Faults = append(l.Disk.Faults, genFaults(r, o.Counts[0], early, []string{"read", "read", "read", "read", "read", "read", "read", "read", "seek", "seek", "seek", "open", "open", "stat"}, readFaults, 3)...)
	for i := range l.Disk.Faults { // otherwise nothing ever succeeds again
		if r.Intn(4) > 0 {
			l.Disk.Faults[i].Sticky = false
		}
	}
	return p
}

func genC09(r *Rand, g *GenOpts) *Plan {
	p := writePlan("C09", r, false)
	f := &p.Files[0]
	if f.Data.N > 600 {
		f.Data.N = r.Intn(600)
	}
	if r.Intn(3) == 0 { // values which look like the end of a file
		small := &Data{T: &ref.Type{Kind: ref.Struct, Kids: []*ref.Type{{Kind: ref.Int, Seed: r.Next() >> 16}}}, N: 1 + r.Intn(3)}
		f.Data.Embed = ref.Encode(small.T, small.Rows(), ref.EncOpts{Seed: r.Next() >> 16, Zlib: f.W.Zlib && r.Intn(2) == 0, Block: 1024, Simple: true})
		f.Data.T.Kids = append(f.Data.T.Kids, &ref.Type{Kind: ref.String, Seed: r.Next() >> 16})
		if f.Data.T.Kind != ref.Struct {
			f.Data.T = &ref.Type{Kind: ref.Struct, Kids: []*ref.Type{{Kind: ref.Binary, Seed: r.Next() >> 16}}}
		}
		f.Data.T.Number()
		if r.Intn(2) == 0 {
			f.W.Zlib = false
		}
	}
	f.Data.ready = false
	if r.Intn(3) == 0 {
		f.Junk, f.Was = 0, genData(r, typeOpts{cols: 3})
		if f.Was.N > 1500 {
			f.Was.N = 100 + r.Intn(1400)
			f.Was.ready = false
		}
	}
	l := &p.Lives[0]
	l.Tasks[0] = writeOps(r, 0, 1, f.Data)
	capR := genCap(r, f.Data.N)
	switch r.Intn(3) {
	case 0: // a crash at any instant, then a reader
		o := p.Exec()
		if len(o.Counts) == 0 || len(o.Counts[0]) == 0 {
			return p
		}
		op := "write"
		if r.Intn(6) == 0 {
			op = "any"
		}
		c := o.Counts[0][op]
		ft := os.Fault{Op: op, Kind: "crash", Nth: r.Intn(c), Arg: r.Intn(100000)}
		if r.Intn(2) == 0 { // in the tail of the file
			ft.Nth = c - 1 - r.Intn(4)
			if ft.Nth < 0 {
				ft.Nth = 0
			}
		}
		l.Disk.Faults = append(l.Disk.Faults, ft)
		p.Lives = append(p.Lives, Life{Disk: genDisk(r), Tasks: [][]Op{{{K: "poll", F: 0, N: capR}}}})
		// power failure: part of what was written is lost or zeroed as well
		for i := r.Intn(4); i > 0; i-- {
			dm := Damage{F: 0, Len: -r.Intn(80)}
			if r.Intn(2) == 0 {
				dm.Zero = r.Intn(60)
			}
			p.Lives = append(p.Lives, Life{Disk: genDisk(r), Damage: []Damage{dm}, Tasks: [][]Op{{{K: "poll", F: 0, N: capR}}}})
		}
	case 1: // every kind of surviving prefix of a complete file
		o := p.Exec()
		full := o.Files[f.Path]
		n := len(full)
		if o.Skipped != "" || n == 0 {
			return p
		}
		// positions, descending: each life cuts further
		pos := map[int]bool{}
		for i := 0; i < 12; i++ {
			pos[r.Intn(n)] = true
			pos[n-1-r.Intn(60)%n] = true
		}
		if e := f.Data.Embed; len(e) > 0 {
			for at := 0; at+len(e) <= n; at++ {
				if full[at:at+len(e)] == string(e) && len(pos) < 40 {
					pos[at+len(e)] = true
				}
			}
		}
		var ps []int
		for k := range pos {
			ps = append(ps, k)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(ps)))
		p.Lives = append(p.Lives, Life{Disk: genDisk(r), Tasks: [][]Op{{{K: "poll", F: 0, N: capR}}}})
		for _, k := range ps {
			p.Lives = append(p.Lives, Life{Damage: []Damage{{F: 0, Len: k}}, Tasks: [][]Op{{{K: "poll", F: 0, N: capR}}}})
		}
	default: // a reader polls while the writer is at work
		var polls []Op
		for i := 0; i < 6+r.Intn(20); i++ {
			polls = append(polls, Op{K: "poll", F: 0, N: capR}, Op{K: "sleep", N: r.Intn(3000)})
		}
		if l.Disk.LatMax == 0 {
			l.Disk.LatMax = 1 + r.Intn(3000)
		}
		l.Tasks = append(l.Tasks, polls)
		l.Tasks[0] = append(l.Tasks[0], Op{K: "sleep", N: 100})
		l.Sched = genSched(r)
		p.Lives = append(p.Lives, Life{Tasks: [][]Op{{{K: "poll", F: 0, N: capR}}}})
	}
	return p
}

func genC10(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C10"}
	l := Life{Disk: genDisk(r), Sched: genSched(r)}
	l.Disk.Faults = nil
	k := 2 + r.Intn(3)
	zip, alike := r.Intn(2) == 0, r.Intn(2) == 0
	for i := 0; i < k; i++ {
		path := fmt.Sprintf("/data/t%d.orc", i)
		h := i + 1
		var ops []Op
		if r.Intn(3) < 2 {
			d := genData(r, typeOpts{cols: 4})
			if d.N > 300 {
				d.N = 1 + r.Intn(300)
			}
			if alike && i > 0 && p.Files[0].W != nil { // the same code at work in all tasks, on other rows
				d = p.Files[0].Data.reseed(r.Next() >> 16)
			}
			w := genW(r)
			w.Zlib = w.Zlib || zip
			p.Files = append(p.Files, FileSpec{Path: path, Data: d, W: w})
			for j := r.Intn(3); j > 0; j-- {
				ops = append(ops, Op{K: "schema", F: i, H: h})
			}
			ops = append(ops, writeOps(r, i, h, d)...)
			ops = append(ops, Op{K: "open", F: i, H: 10 + h}, Op{K: "mk", R: 10 + h, H: 20 + h, N: genCap(r, d.N)}, Op{K: "drain", H: 20 + h})
		} else {
			p.Files = append(p.Files, genPre(r, path, true))
			f := &p.Files[i]
			if o := &p.Files[0]; alike && i > 0 && o.Pre {
				d := o.Data.reseed(r.Next() >> 16)
				*f = *o
				f.Path, f.Data = path, d
			}
			if f.W != nil {
				f.W.Zlib = f.W.Zlib || zip
			} else {
				f.F.Zlib = f.F.Zlib || zip
			}
			ops = append(ops, Op{K: "open", F: i, H: 10 + h}, Op{K: "mk", R: 10 + h, H: 20 + h, N: genCap(r, f.Data.N), Inc: genInc(r, f.Data.T)})
			ops = append(ops, genHist(r, f, 20+h, 2+r.Intn(8))...)
			ops = append(ops, Op{K: "closeb", H: 20 + h}, Op{K: "closer", H: 10 + h})
		}
		l.Tasks = append(l.Tasks, ops)
	}
	if r.Intn(3) == 0 { // each of them may meet faults of its own
		l.Disk.ShortRead = 0
		l.Disk.LatMax = 1 + r.Intn(3000)
		for i := range p.Files {
			if r.Intn(2) == 0 {
				continue
			}
			op := []string{"read", "read", "seek", "open"}[r.Intn(4)]
			kind := readFaults[op][r.Intn(len(readFaults[op]))]
			if p.Files[i].W != nil && !p.Files[i].Pre && r.Intn(3) > 0 {
				op = []string{"write", "close", "create"}[r.Intn(12)/5]
				kind = []string{"eio", "enospc", "short"}[r.Intn(3)]
			}
			n := r.Intn(1 << uint(r.Intn(9)))
			if op == "create" || op == "close" && r.Intn(2) == 0 {
				n = 0
			}
			l.Disk.Faults = append(l.Disk.Faults, os.Fault{Op: op, Nth: n, Path: p.Files[i].Path, Kind: kind, Arg: r.Intn(5000), Sticky: r.Intn(3) == 0})
		}
	}
	p.Lives = []Life{l}
	return p
}

func genC11(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C11", Files: []FileSpec{genPre(r, "/data/a.orc", true)}}
	f := &p.Files[0]
	l := Life{Disk: genDisk(r), Sched: genSched(r), Setup: []Op{{K: "open", F: 0, H: 11}}}
	l.Disk.Faults = nil
	k := 2 + r.Intn(3)
	hist := func(h int) []Op {
		ops := []Op{{K: "mk", R: 11, H: h, N: genCap(r, f.Data.N), Inc: genInc(r, f.Data.T), C: r.Intn(4) / 3}}
		if r.Intn(3) == 0 {
			ops = append(ops, Op{K: "drain", H: h, N: 1})
		} else {
			ops = append(ops, genHist(r, f, h, 3+r.Intn(10))...)
		}
		if r.Intn(3) > 0 {
			ops = append(ops, Op{K: "closeb", H: h})
		}
		return ops
	}
	if r.Intn(3) == 0 { // alternately, in one task
		var hs [][]Op
		for i := 0; i < k; i++ {
			hs = append(hs, hist(21+i))
		}
		var ops []Op
		for len(hs) > 0 {
			i := r.Intn(len(hs))
			n := 1 + r.Intn(3)
			for n > 0 && len(hs[i]) > 0 {
				ops = append(ops, hs[i][0])
				hs[i] = hs[i][1:]
				n--
			}
			if len(hs[i]) == 0 {
				hs = append(hs[:i], hs[i+1:]...)
			}
		}
		l.Tasks = [][]Op{ops}
	} else {
		for i := 0; i < k; i++ {
			ops := hist(21 + 2*i)
			if r.Intn(3) == 0 {
				ops = append(ops, hist(22+2*i)...)
			}
			l.Tasks = append(l.Tasks, ops)
		}
	}
	if r.Intn(4) == 0 { // parts of the file cannot be read
		var cols []int
		for _, t := range f.Data.T.Number() {
			cols = append(cols, t.ID)
		}
		genBad(r, f, cols, r.Intn(4) == 0)
		l.Setup = append(l.Setup, Op{K: "break", F: 0})
		l.Disk.ShortRead = 0
	}
	p.Lives = []Life{l}
	return p
}

func genC12(r *Rand, g *GenOpts) *Plan {
	var p *Plan
	kinds := map[string][]string{"write": {"eio", "enospc", "short"}, "create": {"eacces"}}
	for k, v := range readFaults {
		kinds[k] = v
	}
	if r.Intn(3) == 0 {
		p = writePlan("C12", r, false)
		for i := r.Intn(3); i > 0; i-- { // whatever the caller tries next
			op := Op{K: "closew", H: 1, N: 1}
			if r.Intn(3) == 0 {
				op = Op{K: "write", H: 1, N: 1 + r.Intn(20)}
			}
			p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], op)
		}
		p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], Op{K: "open", F: 0, H: 11}, Op{K: "mk", R: 11, H: 21, N: 100}, Op{K: "next", H: 21})
	} else {
		p = &Plan{Prop: "C12", Files: []FileSpec{genPre(r, "/data/a.orc", true)}}
		f := &p.Files[0]
		ops := []Op{{K: "open", F: 0, H: 11}}
		for i := 0; i < 1+r.Intn(3); i++ {
			h := 21 + i
			ops = append(ops, Op{K: "mk", R: 11, H: h, N: genCap(r, f.Data.N), Inc: genInc(r, f.Data.T)})
			ops = append(ops, genHist(r, f, h, 1+r.Intn(6))...)
		}
		closes := []Op{{K: "closeb", H: 21}, {K: "closeb", H: 22}, {K: "closeb", H: 23}, {K: "closer", H: 11}}
		for i := len(closes) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			closes[i], closes[j] = closes[j], closes[i]
		}
		p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{append(ops, closes...)}}}
	}
	if r.Intn(4) == 0 {
		return p
	}
	o := p.Exec()
	if len(o.Counts) == 0 {
		return p
	}
	l := &p.Lives[0]
	if r.Intn(5) == 0 {
		l.Disk.MaxOpen = 1 + r.Intn(20)
		return p
	}
	l.Disk.Faults = append(l.Disk.Faults, genFaults(r, o.Counts[0], nil, []string{"read", "read", "seek", "open", "open", "stat", "close", "write", "create"}, kinds, 2)...)
	return p
}

func genC14(r *Rand, g *GenOpts) *Plan {
	if r.Intn(2) == 0 {
		p := writePlan("C14", r, false)
		for i := range p.Lives[0].Tasks[0] {
			op := &p.Lives[0].Tasks[0][i]
			op.Mut = 0
			if op.K == "write" {
				op.Mut = 1 + r.Intn(2)
			}
		}
		p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], Op{K: "open", F: 0, H: 11}, Op{K: "mk", R: 11, H: 21, N: genCap(r, p.Files[0].Data.N)}, Op{K: "drain", H: 21})
		return p
	}
	p := &Plan{Prop: "C14", Files: []FileSpec{genPre(r, "/data/a.orc", true), genPre(r, "/data/b.orc", true)}}
	ops := []Op{{K: "open", F: 0, H: 11}, {K: "open", F: 1, H: 12}}
	for i := 0; i < 3; i++ {
		f := r.Intn(2)
		h := 21 + i
		mk := Op{K: "mk", R: 11 + f, H: h, N: genCap(r, p.Files[f].Data.N)}
		if r.Intn(2) == 0 {
			mk.Inc, mk.Mut = genInc(r, p.Files[f].Data.T), 1+r.Intn(3)
		}
		ops = append(ops, mk)
		ops = append(ops, genHist(r, &p.Files[f], h, 2+r.Intn(6))...)
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "closeb", H: h})
		}
	}
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	return p
}

// genC15: the same rows written several times under different circumstances.
func genC15(r *Rand, g *GenOpts) *Plan {
	d := genData(r, typeOpts{cols: 5})
	if d.N > 1200 {
		d.N = 200 + r.Intn(1000)
	}
	w := genW(r)
	other := genData(r, typeOpts{cols: 4})
	if other.N > 200 {
		other.N = 1 + r.Intn(200)
	}
	p := &Plan{Prop: "C15"}
	add := func(path string, d *Data, w *WOpts, same int) int {
		junk := 0
		if len(p.Files) > 0 && r.Intn(6) == 0 {
			junk = 1 + r.Intn(50000)
		}
		p.Files = append(p.Files, FileSpec{Path: path, Data: d, W: w, Same: same, Junk: junk})
		return len(p.Files) - 1
	}
	// alone, at once
	f0 := add("/data/a0.orc", d, w, 1)
	p.Lives = append(p.Lives, Life{Tasks: [][]Op{{{K: "create", F: f0, H: 1}, {K: "write", H: 1, N: d.N}, {K: "closew", H: 1}}}})
	for i := 1; i < 3+r.Intn(2); i++ {
		f := add(fmt.Sprintf("/data/a%d.orc", i), d, w, 1)
		l := Life{Disk: genDisk(r), Sched: genSched(r)}
		ops := writeOps(r, f, 1, d)
		switch r.Intn(3) {
		case 0: // next to another writer
			fo := add(fmt.Sprintf("/data/o%d.orc", i), other, genW(r), 0)
			l.Tasks = [][]Op{ops, writeOps(r, fo, 2, other)}
		case 1: // after another one in the same process
			fo := add(fmt.Sprintf("/data/o%d.orc", i), other, genW(r), 0)
			l.Tasks = [][]Op{append(writeOps(r, fo, 2, other), ops...)}
		default:
			l.Tasks = [][]Op{ops}
		}
		p.Lives = append(p.Lives, l)
	}
	// the rows read, with another capacity and other disks each time
	f := f0
	if r.Intn(2) == 0 {
		p.Files = append(p.Files, genPre(r, "/data/p.orc", true))
		f = len(p.Files) - 1
	}
	n := p.Files[f].Data.N
	p.Lives = append(p.Lives, Life{Tasks: [][]Op{{{K: "open", F: f, H: 11}, {K: "mk", R: 11, H: 21, N: n + 1}, {K: "scan", F: f, H: 21}}}})
	for i := 1 + r.Intn(3); i > 0; i-- {
		l := Life{Disk: genDisk(r), Sched: genSched(r), Tasks: [][]Op{{{K: "open", F: f, H: 11}, {K: "mk", R: 11, H: 21, N: genCap(r, n)}, {K: "scan", F: f, H: 21}}}}
		if r.Intn(3) == 0 { // while another task reads it
			l.Tasks = append(l.Tasks, []Op{{K: "open", F: f, H: 12}, {K: "mk", R: 12, H: 22, N: genCap(r, n)}, {K: "scan", F: f, H: 22}})
		}
		p.Lives = append(p.Lives, l)
	}
	return p
}

// genC18: stripes reach the disk as they fill.
func genC18(r *Rand, g *GenOpts) *Plan {
	p := writePlan("C18", r, false)
	f := &p.Files[0]
	f.W.Stripe = 100 << uint(r.Intn(9))
	if r.Intn(6) == 0 {
		f.W.Stripe = 256 << 20
	}
	if r.Intn(12) == 0 { // much of little: what is not counted adds up
		d := &Data{Tame: true, N: 10000 + r.Intn(30000), T: &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16}}
		k := primitives[r.Intn(len(primitives))]
		d.T.Kids = []*ref.Type{{Kind: k, Seed: r.Next() >> 16, Dict: k.Text() && r.Intn(3) == 0}}
		d.T.Kids[0].Nulls = r.Intn(3) == 0
		d.T.Number()
		f.Data = d
		f.W.Chunk = 1024 << uint(r.Intn(6))
		f.W.Stripe = 4096 << uint(r.Intn(5))
		p.Lives[0].Tasks[0] = writeOps(r, 0, 1, d)
	}
	if f.Data.N < 500 && r.Intn(3) > 0 {
		f.Data.N = 500 + r.Intn(2500)
		f.Data.ready = false
		p.Lives[0].Tasks[0] = writeOps(r, 0, 1, f.Data)
	}
	p.Lives[0].Tasks[0] = append(p.Lives[0].Tasks[0], Op{K: "stripes", F: 0})
	return p
}

// genBad damages some streams of columns in a file with stripes.
func genBad(r *Rand, f *FileSpec, cols []int, garbage bool) {
	for i := 1 + r.Intn(4); i > 0; i-- {
		b := BadSpec{Col: cols[r.Intn(len(cols))], Stripe: r.Intn(12), Stream: r.Intn(6), Len: 1 + r.Intn(30)}
		if r.Intn(2) == 0 {
			b.Len = 1 << 20
		} else {
			b.At = r.Intn(1000)
		}
		if garbage {
			b.Kind = []string{"fill", "rand", "flip"}[r.Intn(3)]
			b.Arg = r.Next() >> 16
		}
		f.Bad = append(f.Bad, b)
	}
}

// genC19: damage to some columns in some stripes.
func genC19(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C19", Files: []FileSpec{genPre(r, "/data/a.orc", true)}}
	f := &p.Files[0]
	if r.Intn(2) == 0 && f.Data.N < 300 {
		f.Data.N = 300 + r.Intn(1000)
		f.Data.ready = false
		if f.F != nil {
			f.F = genF(r, f.Data)
		}
	}
	if f.W != nil {
		f.W.Stripe = 100 << uint(r.Intn(6))
	}
	n := len(f.Data.Rows())
	garbage := r.Intn(3) == 0
	var incs [][]int
	out := map[int]bool{}
	all := f.Data.T.Number()
	for i := 1 + r.Intn(3); i > 0; i-- {
		inc := genInc(r, f.Data.T)
		incs = append(incs, inc)
		in := map[int]bool{}
		for _, c := range inc {
			in[c] = true
		}
		for _, t := range all {
			if inc != nil && !in[t.ID] {
				out[t.ID] = true
			}
		}
	}
	var cols []int
	for _, t := range all {
		if out[t.ID] || (r.Intn(4) == 0 && t.ID > 0) || len(all) == 1 {
			cols = append(cols, t.ID)
		}
	}
	if len(cols) == 0 || r.Intn(4) == 0 {
		cols = nil
		for _, t := range all {
			cols = append(cols, t.ID)
		}
	}
	genBad(r, f, cols, garbage)
	brk := Op{K: "break", F: 0}
	ops := []Op{{K: "open", F: 0, H: 11}}
	if garbage && r.Intn(2) == 0 {
		ops = []Op{brk, {K: "open", F: 0, H: 11}}
	}
	for i, inc := range incs {
		h := 21 + i
		c := 1 + r.Intn(60)
		if r.Intn(4) == 0 {
			c = genCap(r, n)
		}
		ops = append(ops, Op{K: "mk", R: 11, H: h, N: c, Inc: inc, C: r.Intn(4) / 3})
		if i == 0 && r.Intn(3) > 0 {
			ops = append(ops, brk)
		}
		if r.Intn(3) == 0 {
			ops = append(ops, Op{K: "drain", H: h, N: r.Intn(2)})
		} else {
			ops = append(ops, genHist(r, f, h, 6+r.Intn(14))...)
		}
		if i == 0 {
			ops = append(ops, brk) // at the latest
			ops = append(ops, genHist(r, f, h, 4+r.Intn(10))...)
		}
	}
	for i := range incs {
		ops = append(ops, Op{K: "closeb", H: 21 + i})
	}
	ops = append(ops, Op{K: "closer", H: 11})
	p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
	return p
}

// genC20: misuse.
func genC20(r *Rand, g *GenOpts) *Plan {
	if r.Intn(5) < 2 { // of readers
		p := &Plan{Prop: "C20", Files: []FileSpec{genPre(r, "/data/a.orc", true)}}
		f := &p.Files[0]
		n := len(f.Data.Rows())
		ops := []Op{{K: "open", F: 0, H: 11}}
		for h := 21; h < 22+r.Intn(2); h++ {
			if r.Intn(3) == 0 {
				ops = append(ops, Op{K: "mk", R: 11, H: 31, Miss: badMks[r.Intn(len(badMks))], Arg: r.Next()})
			}
			ops = append(ops, Op{K: "mk", R: 11, H: h, N: genCap(r, n), Inc: genInc(r, f.Data.T), C: r.Intn(4) / 3})
			for _, op := range genHist(r, f, h, 3+r.Intn(8)) {
				if r.Intn(3) == 0 {
					ops = append(ops, Op{K: "next", H: h, Miss: badNexts[r.Intn(len(badNexts))], Arg: r.Next()})
				}
				ops = append(ops, op)
			}
			if r.Intn(2) == 0 {
				ops = append(ops, Op{K: "closeb", H: h}, Op{K: "next", H: h, Miss: "closed", Arg: r.Next()})
			}
		}
		ops = append(ops, Op{K: "closer", H: 11})
		p.Lives = []Life{{Disk: genDisk(r), Tasks: [][]Op{ops}}}
		return p
	}
	p := writePlan("C20", r, false)
	ops := p.Lives[0].Tasks[0]
	if r.Intn(3) == 0 { // of options and schemas
		ops[0].Miss, ops[0].Arg = badSchemas[r.Intn(len(badSchemas))], r.Next()
	} else { // of batches
		for i := 1 + r.Intn(2); i > 0; i-- {
			k := 1 + r.Intn(len(ops)-1)
			op := Op{K: "write", H: 1, N: 1 + r.Intn(40), Miss: badBatches[r.Intn(len(badBatches))], Arg: r.Next()}
			if r.Intn(6) == 0 {
				op = Op{K: "writenull", H: 1, N: 1 + r.Intn(40), C: r.Intn(1 + len(p.Files[0].Data.T.Number()))}
			}
			ops = append(ops[:k:k], append([]Op{op}, ops[k:]...)...)
		}
	}
	p.Lives[0].Tasks[0] = append(ops, Op{K: "refcheck", F: 0}, Op{K: "open", F: 0, H: 11}, Op{K: "mk", R: 11, H: 21, N: genCap(r, p.Files[0].Data.N)},
		Op{K: "drain", H: 21}, Op{K: "closeb", H: 21}, Op{K: "closer", H: 11})
	return p
}

// genC21: the file of a reader is replaced, removed or spoiled while it is in
// use.
func genC21(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C21", Files: []FileSpec{genPre(r, "/data/a.orc", true)}}
	f := &p.Files[0]
	if f.W != nil && r.Intn(2) == 0 { // several stripes
		f.W.Stripe = 2048 << uint(r.Intn(3))
	}
	twin := 0
	for i := 1 + r.Intn(2); i > 0; i-- { // what takes its place
		g := genPre(r, "/data/"+string(rune('a'+len(p.Files)))+".orc", true)
		if r.Intn(5) > 0 { // much like it
			g.W, g.F, g.Data = f.W, f.F, f.Data.reseed(r.Next()>>16)
			twin = len(p.Files)
			if f.W != nil && r.Intn(3) == 0 {
				g.Data.N = 1 + r.Intn(2*f.Data.N+1)
			}
		}
		p.Files = append(p.Files, g)
	}
	change := func() Op {
		op := Op{K: "replace", F: r.Intn(6) / 5, N: r.Intn(len(p.Files))}
		if op.F == 0 && op.N == 0 && r.Intn(3) > 0 {
			op.N = 1
		}
		switch r.Intn(8) {
		case 0:
			op = Op{K: "remove", F: op.F}
		case 1:
			op = Op{K: "spoil", F: op.F, N: r.Intn(1 << uint(r.Intn(16))), C: r.Intn(3)}
		}
		return op
	}
	hist := func(h int) []Op {
		ops := []Op{{K: "mk", R: 11, H: h, N: genCap(r, f.Data.N), Inc: genInc(r, f.Data.T), C: r.Intn(4) / 3}}
		ops = append(ops, genHist(r, f, h, 1+r.Intn(8))...)
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "closeb", H: h})
		}
		return ops
	}
	var use []Op
	for i := 0; i < 1+r.Intn(3); i++ {
		use = append(use, hist(21+i)...)
	}
	open := Op{K: "open", F: 0, H: 11}
	again := func(h int) []Op {
		ops := []Op{{K: "open", F: r.Intn(6) / 5, H: h}, {K: "mk", R: h, H: h + 10, N: genCap(r, f.Data.N)}, {K: "drain", H: h + 10}}
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "closeb", H: h + 10}, Op{K: "closer", H: h})
		}
		return ops
	}
	l := Life{Disk: genDisk(r)}
	if r.Intn(2) == 0 { // in between
		ops := []Op{}
		if twin > 0 && r.Intn(8) == 0 {
			ops = append(ops, Op{K: "replace", N: twin})
		}
		ops = append(ops, open)
		for _, op := range use {
			if r.Intn(8) == 0 {
				ops = append(ops, change())
				if r.Intn(4) == 0 && len(ops) < 60 {
					ops = append(ops, again(41)...)
				}
			}
			ops = append(ops, op)
		}
		l.Tasks = [][]Op{append(ops, again(42)...)}
	} else { // at any time
		l.Setup = []Op{open}
		l.Sched = genSched(r)
		l.Tasks = [][]Op{use, nil}
		for i := 1 + r.Intn(3); i > 0; i-- {
			l.Tasks[1] = append(l.Tasks[1], Op{K: "sleep", N: r.Intn(1 << uint(r.Intn(16)))}, change())
			if r.Intn(3) == 0 {
				l.Tasks[1] = append(l.Tasks[1], again(42)...)
			}
		}
	}
	p.Lives = []Life{l}
	if r.Intn(3) > 0 {
		return p
	}
	o := p.Exec()
	if len(o.Counts) == 0 {
		return p
	}
	fs := genFaults(r, o.Counts[0], nil, []string{"read", "read", "seek", "open", "open", "stat", "close"}, readFaults, 2)
	if len(fs) > 0 && r.Intn(3) == 0 {
		fs[0].Kind = "crash"
		fs[0].Sticky = false
		p.Lives = append(p.Lives, Life{Disk: genDisk(r), Tasks: [][]Op{again(43)}})
	}
	p.Lives[0].Disk.Faults = append(p.Lives[0].Disk.Faults, fs...)
	return p
}

// genC22: files with many stripes, or with many megabytes.
func genC22(r *Rand, g *GenOpts) *Plan {
	l := Life{Disk: genDisk(r)}
	if r.Intn(8) > 0 { // stripes
		f := genPre(r, "/data/a.orc", false)
		if f.F != nil {
			f.F.Stripes = nil
			for at := 0; at < f.Data.N; {
				n := min(1+r.Intn(1+f.Data.N/30), f.Data.N-at)
				f.F.Stripes = append(f.F.Stripes, n)
				at += n
			}
		} else {
			f.W.Stripe = 100 + r.Intn(900)
		}
		n := f.Data.N
		l.Tasks = [][]Op{{{K: "heap", N: 1}, {K: "open", F: 0, H: 11}}}
		ops := &l.Tasks[0]
		for i := 0; i < 1+r.Intn(3); i++ {
			h := 21 + i
			*ops = append(*ops, Op{K: "heap", N: 2}, Op{K: "mk", R: 11, H: h, N: genCap(r, n), Inc: genInc(r, f.Data.T)}, Op{K: "heap", N: 2, C: 2, R: h})
			if r.Intn(2) == 0 {
				*ops = append(*ops, Op{K: "drain", H: h})
			} else {
				*ops = append(*ops, genHist(r, &f, h, 1+r.Intn(12))...)
			}
			if r.Intn(2) == 0 {
				*ops = append(*ops, Op{K: "closeb", H: h})
			}
		}
		return &Plan{Prop: "C22", Files: []FileSpec{f}, Lives: []Life{l}}
	}
	d := &Data{Tame: true, Big: true, T: &ref.Type{Kind: ref.Struct, Seed: r.Next() >> 16}}
	width := 0
	for i := 1 + r.Intn(2); i > 0; i-- {
		k := []ref.Kind{ref.String, ref.Binary, ref.Varchar, ref.String, ref.Long, ref.Double, ref.Timestamp, ref.Decimal}[r.Intn(8)]
		d.T.Kids = append(d.T.Kids, &ref.Type{Kind: k, Seed: r.Next() >> 16, Dict: k.Text() && r.Intn(3) == 0})
		width += 8
		if k.Text() || k == ref.Binary {
			width += 390
		}
	}
	d.N = 14 << 20 / width
	if width < 100 || r.Intn(2) == 0 { // takes long
		d.N = 3 << 20 / width
	}
	d.T.Number()
	w := genW(r)
	w.Chunk = 4096 << uint(r.Intn(4))
	w.Stripe = 32768 << uint(r.Intn(4))
	if r.Intn(2) == 0 {
		w.Stripe = 4096 << uint(r.Intn(4))
	}
	w.Index = r.Intn(2) == 0
	w.Stride = []int{10, 50, 200, 1000, 10000}[r.Intn(5)]
	p := &Plan{Prop: "C22", Files: []FileSpec{{Path: "/data/a.orc", Data: d, W: w}}}
	l.Disk.ShortRead = 0
	ops := []Op{{K: "create", H: 1}}
	batch := 100 + r.Intn(60000/width)
	for at, part := 0, 0; at < d.N; at += batch {
		for part < 16 && at >= d.N*part/16 { // let it reach its usual size first
			part++
			if part == 5 {
				ops = append(ops, Op{K: "heap", H: 1, N: 1})
			}
			if part > 5 {
				ops = append(ops, Op{K: "heap", H: 1, N: 1, C: 1})
			}
		}
		ops = append(ops, Op{K: "write", H: 1, N: batch, Mut: 2 * r.Intn(2)})
	}
	ops = append(ops, Op{K: "closew", H: 1}, Op{K: "open", H: 11})
	if r.Intn(2) == 0 {
		cap := 100 + r.Intn(60000/width)
		ops = append(ops, Op{K: "mk", R: 11, H: 21, N: cap})
		for i := 0; i < d.N/cap*7/8; i++ {
			if i == d.N/cap/4 {
				ops = append(ops, Op{K: "heap", N: 2, R: 21})
			}
			ops = append(ops, Op{K: "next", H: 21})
		}
		ops = append(ops, Op{K: "heap", N: 2, R: 21, C: 1})
	}
	l.Tasks = [][]Op{append(ops, Op{K: "closeb", H: 21}, Op{K: "closer", H: 11})}
	p.Lives = []Life{l}
	return p
}

// genC17: files whose stored bytes are damaged.
func genC17(r *Rand, g *GenOpts) *Plan {
	p := &Plan{Prop: "C17", Files: []FileSpec{genPre(r, "/data/a.orc", true)}}
	f := &p.Files[0]
	if f.Data.N > 300 {
		f.Data.N = 1 + r.Intn(300)
	}
	if f.Data.Long > 600 {
		f.Data.Long = 600
	}
	f.Data.ready = false
	if f.F == nil && r.Intn(3) == 0 {
		f.W, f.F = nil, genF(r, f.Data)
	}
	if f.F != nil && r.Intn(8) > 0 {
		if f.F.Block > 1<<20 {
			f.F.Block = 1 << 20
		}
		blow := f.F.Zlib && r.Intn(30) == 0
		if blow && f.F.Block < ref.BombBytes {
			f.F.Block = ref.BombBytes + r.Intn(100000)
		}
		n, sem, frames := ref.Sites(f.Data.T, f.Data.Rows(), *f.F)
		if blow {
			p.Mem = 1 << 10
			f.F.Rot = append(f.F.Rot, ref.Rot{Site: frames[r.Intn(len(frames))], Arg: r.Next() >> 16, Bomb: true})
		}
		for i := 1 + r.Intn(3); i > 0 && !blow; i-- {
			s := r.Intn(n)
			if r.Intn(3) == 0 && n > 100 { // footer and postscript
				s = n - 1 - r.Intn(100)
			}
			if r.Intn(3) == 0 && len(sem) > 0 { // numbers which are just wrong
				s = sem[r.Intn(len(sem))]
			}
			f.F.Rot = append(f.F.Rot, ref.Rot{Site: s, Arg: r.Next() >> 16})
		}
	}
	lives := 1
	if f.F == nil || len(f.F.Rot) == 0 {
		lives = 3
	}
	for i := 0; i < lives; i++ {
		l := Life{Disk: genDisk(r), Tasks: [][]Op{{{K: "rot", F: 0, N: genCap(r, f.Data.N), C: r.Intn(1 << 30)}}}}
		if f.F == nil || len(f.F.Rot) == 0 || r.Intn(6) == 0 {
			for i := 1 + r.Intn(2); i > 0; i-- {
				d := Damage{Kind: []string{"flip", "flip", "flip", "fill", "rand", "del", "dup", "swap"}[r.Intn(8)], Len: r.Intn(20000), Zero: 1 + r.Intn(40), Arg: r.Next() >> 16}
				switch r.Intn(5) {
				case 0:
					d.Len = -1 - r.Intn(30)
				case 1, 2:
					d.Len = -1 - r.Intn(600)
				case 3:
					d.Len = r.Intn(600)
				}
				if r.Intn(3) == 0 {
					d.Zero = 1
				}
				l.Damage = append(l.Damage, d)
			}
		}
		p.Lives = append(p.Lives, l)
	}
	return p
}

// --- judgements which compare several executions ---

// checkSolo compares what every handle showed with an execution in which it
// was alone.
func checkSolo(p *Plan) *Outcome {
	o := p.Exec()
	if o.Skipped != "" {
		return o
	}
	var vs []Violation
	byHandle := p.Prop == "C11"
	compare := func(q *Plan, files []string, life, task int) {
		s := q.Exec()
		sw := o.SwHash
		o.merge(s)
		o.SwHash = sw
		var ks []string
		for g := range s.Trans {
			ks = append(ks, g)
		}
		sort.Strings(ks)
		for _, g := range ks {
			if g == "task-1" || g == "task-2" || (byHandle && g[0] == 't') {
				continue
			}
			a, b := o.Trans[g], s.Trans[g]
			for i := 0; i < len(a) || i < len(b); i++ {
				x, y := "(nothing)", "(nothing)"
				if i < len(a) {
					x = a[i]
				}
				if i < len(b) {
					y = b[i]
				}
				if x != y {
					vs = append(vs, Violation{Class: "differs", Life: life, Task: task, Msg: fmt.Sprintf("call %d on handle %s: %s; alone: %s", i, g, x, y)})
					break
				}
			}
		}
		for _, f := range files {
			if o.Files[f] != s.Files[f] {
				vs = append(vs, Violation{Class: "differs", Life: life, Task: task, Msg: fmt.Sprintf("%s has %d bytes that differ from the %d bytes written alone", f, len(o.Files[f]), len(s.Files[f]))})
			}
		}
	}
	for li := range p.Lives {
		if byHandle {
			seen := map[int]bool{}
			for _, ops := range p.Lives[li].Tasks {
				for _, op := range ops {
					if op.H > 0 && !seen[op.H] {
						seen[op.H] = true
					}
				}
			}
			var hs []int
			for h := range seen {
				hs = append(hs, h)
			}
			sort.Ints(hs)
			for _, h := range hs {
				q := p.Clone()
				l := &q.Lives[li]
				var ops []Op
				for _, t := range l.Tasks {
					for _, op := range t {
						if op.H == h {
							ops = append(ops, op)
						}
					}
				}
				l.Tasks = [][]Op{ops}
				l.Sched = simrt.SchedSpec{}
				compare(q, nil, li, -1)
			}
			continue
		}
		for ti := range p.Lives[li].Tasks {
			q := p.Clone()
			l := &q.Lives[li]
			l.Tasks = [][]Op{l.Tasks[ti]}
			l.Sched = simrt.SchedSpec{}
			var files []string
			for _, op := range l.Tasks[0] {
				if op.K == "create" {
					files = append(files, p.Files[op.F].Path)
				}
			}
			compare(q, files, li, ti)
		}
	}
	o.Viol = vs
	return o
}

// checkC14 compares a run whose caller reuses its buffers with one whose
// caller does not.
func checkC14(p *Plan) *Outcome {
	o := p.Exec()
	if o.Skipped != "" {
		return o
	}
	q := p.Clone()
	muts := 0
	for li := range q.Lives {
		for _, ops := range q.Lives[li].Tasks {
			for i := range ops {
				if ops[i].Mut > 0 {
					muts++
				}
				ops[i].Mut = 0
			}
		}
	}
	if muts == 0 {
		return o
	}
	s := q.Exec()
	sw := o.SwHash
	o.merge(s)
	o.SwHash = sw
	for i := range p.Files {
		f := p.Files[i].Path
		if o.Files[f] != s.Files[f] {
			o.Viol = append(o.Viol, Violation{Class: "alias", Msg: fmt.Sprintf("%s depends on what the caller does with its buffers after Write", f)})
		}
	}
	var ks []string
	for g := range s.Trans {
		ks = append(ks, g)
	}
	sort.Strings(ks)
	for _, g := range ks {
		a, b := fmt.Sprint(o.Trans[g]), fmt.Sprint(s.Trans[g])
		if a != b && len(o.Viol) == 0 {
			o.Viol = append(o.Viol, Violation{Class: "alias", Msg: fmt.Sprintf("results on %s depend on what the caller does with its buffers after Write", g)})
		}
	}
	return o
}

// checkC15 compares files written from the same rows.
func checkC15(p *Plan) *Outcome {
	o := p.Exec()
	first := map[int]int{}
	for i := range p.Files {
		s := p.Files[i].Same
		if s == 0 {
			continue
		}
		if _, ok := o.Files[p.Files[i].Path]; !ok {
			continue
		}
		j, ok := first[s]
		if !ok {
			first[s] = i
			continue
		}
		a, b := o.Files[p.Files[j].Path], o.Files[p.Files[i].Path]
		if a != b {
			at := 0
			for at < len(a) && at < len(b) && a[at] == b[at] {
				at++
			}
			o.Viol = append(o.Viol, Violation{Class: "bytes", Life: i, Msg: fmt.Sprintf("%s (%d bytes) and %s (%d bytes) hold the same rows but differ at byte %d", p.Files[j].Path, len(a), p.Files[i].Path, len(b), at)})
		}
	}
	ref := map[int]Scan{}
	for _, x := range o.Scans {
		a, ok := ref[x.F]
		if !ok {
			ref[x.F] = x
			continue
		}
		if a.Rows != x.Rows || a.Digest != x.Digest || a.Fate != x.Fate {
			o.Viol = append(o.Viol, Violation{Class: "scan", Life: x.Life, Msg: fmt.Sprintf("two passes over %s differ: %d rows (digest %x, %s) in life %d, %d rows (digest %x, %s) in life %d", p.Files[x.F].Path, a.Rows, a.Digest, a.Fate, a.Life, x.Rows, x.Digest, x.Fate, x.Life)})
		}
	}
	return o
}
