package dst

import (
	"fmt"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"

	ref "verifsim/orcref"
	os "verifsim/simos"
	"verifsim/simrt"
)

// OpLimit is the number of statements of goorc code one call may execute.
// The longest call seen in fault free runs takes a small fraction of it. Large
// tables get more.
const OpLimit = 60_000_000

// With damaged files (which are small) less is enough, and a recursion without
// end has to be noticed before the stack is exhausted.
const damagedLimit = 4_000_000

// MemLimit is what one call may allocate. Files of the simulation are far
// smaller than a megabyte.
const MemLimit = 4 << 30

func (e *env) memLimit() uint64 {
	if e.p.Mem > 0 {
		return uint64(e.p.Mem) << 20
	}
	return MemLimit
}

var allocs = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocs)
	return allocs[0].Value.Uint64()
}

func (e *env) limit() uint64 {
	if e.cells == 0 {
		for i := range e.p.Files {
			if f := &e.p.Files[i]; f.Data != nil {
				e.cells += uint64(f.Data.Cells())
			}
		}
	}
	if e.p.Prop == "C17" {
		return damagedLimit + 100*e.cells
	}
	return OpLimit + 400*e.cells
}

type writerH struct {
	f      int
	w      orc.Writer
	next   int // rows passed to Write
	acked  []ref.Val
	failed bool
	closed bool
	ok     bool // Close returned success
	fault  bool // a disk fault hit this writer
	anyErr bool
	loose  bool // a call was rejected for misuse, later calls may fail or not
	batch  *api.ColumnVector
	sizes  []sizeAt
}

type readerH struct {
	f      int // path
	c      int // content: what was at the path when it was opened
	gen    int
	r      orc.Reader
	closed bool
}

type batchH struct {
	f       int
	r       *readerH
	br      orc.BatchReader
	batch   *api.ColumnVector
	t       *ref.Type
	inc     map[int]bool
	lost    bool // position unknown after contact with damaged data
	rows    []ref.Val
	cap     int
	pos     int
	failed  bool // Next failed, no Seek succeeded since
	unsure  bool // a Seek failed: errors or the old position
	closed  bool
	faulted bool
}

type env struct {
	p       *Plan
	o       *Outcome
	life    int
	ws      map[int]*writerH
	rs      map[int]*readerH
	bs      map[int]*batchH
	expect  [][]ref.Val // per file
	types   []*ref.Type
	full    []string // complete contents of Pre files
	keep    []kept
	schemas map[int]*api.TypeDescription
	stop    bool
	// which paths were completely written in this plan
	done   map[int]bool
	cells  uint64
	refs   map[int]*ref.File
	broken map[int]*broken
	// which file's content is at a path: its own unless it was replaced, none
	// (-1) or something which is no ORC file (-2); how often that changed
	at      []int
	gen     []int
	spoiled map[int]string
	heaps   map[int]heapAt
	due     []*Op // heap ops for when the writer has completed a stripe
	flushed int64
	was     string // complete file which is overwritten
}

// stale tells that the path of a reader leads somewhere else by now: errors
// are to be expected.
func (e *env) stale(r *readerH) bool { return r != nil && e.gen[r.f] != r.gen }

// broken says which data of a file is damaged.
type broken struct {
	bounds  []int          // first row of every stripe, and the number of rows
	cols    []map[int]bool // per stripe
	index   map[int]bool   // columns with a damaged row index, which is read at once
	garbage bool
}

// intact reports whether rows lo..hi of the included columns are undamaged.
func (x *broken) intact(inc map[int]bool, lo, hi int) bool {
	return x.first(inc, lo, hi) == hi
}

// first returns the first row of lo..hi which lies in a damaged stripe.
func (x *broken) first(inc map[int]bool, lo, hi int) int {
	for s, cols := range x.cols {
		a, b := x.bounds[s], x.bounds[s+1]
		if b <= lo || a >= hi || a == b {
			continue
		}
		for c := range cols {
			if inc == nil || inc[c] {
				if a < lo {
					return lo
				}
				return a
			}
		}
	}
	return hi
}

type task struct {
	e     *env
	id    int
	op    int
	group string
	dead  bool
}

func (t *task) viol(class, f string, a ...interface{}) {
	v := Violation{Class: class, Msg: fmt.Sprintf(f, a...), Life: t.e.life, Task: t.id, Op: t.op}
	if len(t.e.o.Viol) < 20 {
		t.e.o.Viol = append(t.e.o.Viol, v)
	}
}

func (t *task) log(f string, a ...interface{}) {
	t.e.o.Trans[t.group] = append(t.e.o.Trans[t.group], fmt.Sprintf(f, a...))
}

func errS(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 200 {
		s = s[:200]
	}
	return "error: " + s
}

// Exec executes a plan.
func (p *Plan) Exec() *Outcome {
	o := &Outcome{Fired: map[string]int{}, Probe: map[string]int{}, Trans: map[string][]string{}, Files: map[string]string{}, Runs: 1}
	e := &env{p: p, o: o, done: map[int]bool{}, refs: map[int]*ref.File{}, broken: map[int]*broken{}, spoiled: map[int]string{}}
	d := os.NewDisk()
	e.full = make([]string, len(p.Files))
	for i := range p.Files {
		f := &p.Files[i]
		e.types = append(e.types, f.Data.T)
		e.at = append(e.at, i)
		e.gen = append(e.gen, 0)
		e.expect = append(e.expect, f.Data.Rows())
		if !f.Pre {
			if f.Junk > 0 { // to be overwritten
				b := make([]byte, f.Junk)
				r := simrt.NewRand(uint64(f.Junk))
				for i := range b {
					b[i] = byte(r.Next())
				}
				d.Put(f.Path, b)
			}
			if f.Was != nil {
				b := ref.Encode(f.Was.T, f.Was.Rows(), ref.EncOpts{Seed: 1, Simple: true, Zlib: f.W.Zlib, Block: 1 << 16})
				d.Put(f.Path, b)
				e.was = string(b)
			}
			continue
		}
		var b []byte
		if f.F != nil {
			b = ref.Encode(f.Data.T, f.Data.Rows(), *f.F)
			var r *ref.File
			var err error
			if len(f.F.Rot) == 0 {
				r, err = ref.Decode(b, ref.DecOpts{Gaps: true})
			} else {
				d.Fired["stored-rot"] += len(f.F.Rot)
			}
			if r != nil && err == nil && !sameRows(r.Rows, f.Data.Rows()) {
				err = fmt.Errorf("rows differ")
			}
			if err != nil {
				panic(fmt.Sprintf("harness: reference encoder and decoder disagree: %v", err))
			}
		} else {
			var why string
			b, why = prewrite(f)
			if why != "" {
				o.Skipped = why
				return o
			}
			r, err := ref.Decode(b, ref.DecOpts{})
			if err != nil {
				o.Skipped = "written file is not valid: " + err.Error()
				return o
			}
			e.expect[i] = r.Rows
		}
		e.full[i] = string(b)
		e.done[i] = true
		d.Put(f.Path, b)
	}
	clock := int64(0)
	for i := range p.Lives {
		l := &p.Lives[i]
		e.life = i
		for _, dm := range l.Damage {
			damage(d, p.Files[dm.F].Path, dm)
		}
		d.Boot(l.Disk)
		clock = e.runLife(d, l, clock)
		switch p.Prop {
		case "C21":
			e.untouched(d)
		case "C22":
			e.handles(l, d)
		}
		o.Counts = append(o.Counts, d.Counts())
		o.DiskOps += d.Ops
	}
	o.Clock = clock
	for k, v := range d.Fired {
		o.Fired[k] += v
	}
	for _, path := range d.Paths() {
		b, _ := d.Get(path)
		o.Files[path] = string(b)
	}
	// writers acknowledged
	o.Hash = simrt.Mix(o.Hash, d.Hash, o.Steps, uint64(o.Clock), o.SwHash, hashTrans(o.Trans))
	for _, path := range d.Paths() {
		o.Hash = simrt.Mix(o.Hash, hashS(o.Files[path]))
	}
	return o
}

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func hashTrans(m map[string][]string) uint64 {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := uint64(0)
	for _, k := range ks {
		h = simrt.Mix(h, hashS(k), hashS(strings.Join(m[k], "\n")))
	}
	return h
}

func damage(d *os.Disk, path string, dm Damage) {
	b, ok := d.Get(path)
	if !ok {
		return
	}
	n := dm.Len
	if n < 0 {
		n += len(b)
	}
	if n < 0 {
		n = 0
	}
	if dm.Kind != "" {
		d.Put(path, rotten(b, n, dm))
		d.Fired["stored-"+dm.Kind]++
		return
	}
	if n < len(b) {
		b = b[:n]
	}
	for i := 0; i < dm.Zero && i < len(b); i++ {
		b[len(b)-1-i] = 0
	}
	d.Put(path, b)
}

func rotten(b []byte, at int, dm Damage) []byte {
	if at >= len(b) {
		at = len(b) - 1
	}
	if at < 0 {
		return b
	}
	end := at + dm.Zero
	if end > len(b) {
		end = len(b)
	}
	switch dm.Kind {
	case "flip":
		b[at] ^= 1 << (dm.Arg % 8)
	case "fill":
		for i := at; i < end; i++ {
			b[i] = byte(dm.Arg)
		}
	case "rand":
		r := simrt.NewRand(dm.Arg)
		for i := at; i < end; i++ {
			b[i] = byte(r.Next())
		}
	case "del":
		b = append(b[:at:at], b[end:]...)
	case "dup":
		b = append(b[:end:end], b[at:]...)
	case "swap": // blocks written to each other's place
		to := int(dm.Arg % uint64(len(b)))
		for i := 0; i < end-at && to+i < len(b); i++ {
			b[at+i], b[to+i] = b[to+i], b[at+i]
		}
	}
	return b
}

func sameRows(a, b []ref.Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !ref.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// prewrite lets goorc write a file without faults.
func prewrite(f *FileSpec) (b []byte, why string) {
	d := os.NewDisk()
	d.Boot(os.Spec{})
	why = "writer did not finish"
	simrt.Run(simrt.SchedSpec{}, 0, []string{"pre"}, []func(){func() {
		defer func() {
			if x := recover(); x != nil {
				why = fmt.Sprint("writer panics: ", x)
			}
		}()
		simrt.BeginOp((OpLimit + 400*uint64(f.Data.Cells())) * 4)
		td := schema(f.Data.T)
		if err := api.NormalizeSchema(td); err != nil {
			why = err.Error()
			return
		}
		w, err := orc.NewOSFileWriter(f.Path, td, f.W.opts())
		if err != nil {
			why = err.Error()
			return
		}
		rows := f.Data.Rows()
		for at := 0; at < len(rows); {
			n := 700
			if n > len(rows)-at {
				n = len(rows) - at
			}
			cv := vector(td, nil, n)
			fill(f.Data.T, cv, rows[at:at+n])
			if err := w.Write(cv); err != nil {
				why = err.Error()
				return
			}
			at += n
		}
		if err := w.Close(); err != nil {
			why = err.Error()
			return
		}
		simrt.EndOp()
		why = ""
	}})
	b, _ = d.Get(f.Path)
	return b, why
}

func (e *env) runLife(d *os.Disk, l *Life, clock int64) int64 {
	e.ws, e.rs, e.bs = map[int]*writerH{}, map[int]*readerH{}, map[int]*batchH{}
	e.schemas = map[int]*api.TypeDescription{}
	e.keep = nil
	e.heaps, e.due, e.flushed = map[int]heapAt{}, nil, 0
	e.stop = false
	var rec []simrt.Switch
	dead := false
	run := func(spec simrt.SchedSpec, names []string, bodies []func()) {
		r := simrt.Run(spec, clock, names, bodies)
		clock = r.Clock
		e.o.Steps += r.Steps
		e.o.Switches += r.Switches
		if r.Meetings > 0 {
			e.o.Probe["meetings at a statement"] += int(r.Meetings)
		}
		e.o.SwHash = simrt.Mix(e.o.SwHash, r.SwHash)
		rec = append(rec, r.Recorded...)
		if r.Crashed {
			e.o.Crashed++
			dead = true
		}
		if r.Deadlock {
			e.o.Viol = append(e.o.Viol, Violation{Class: "hang", Msg: "all tasks wait for each other", Life: e.life})
			dead = true
		}
		if r.Fatal != nil && !strings.HasPrefix(r.Fatal.Msg, "panic in go:") {
			panic("harness: " + r.Fatal.Msg)
		}
		if r.Fatal != nil {
			e.o.Viol = append(e.o.Viol, Violation{Class: "panic", Msg: r.Fatal.Msg, Life: e.life})
			dead = true
		}
	}
	body := func(id int, ops []Op) func() {
		return func() {
			t := &task{e: e, id: id}
			for i := range ops {
				t.op = i
				t.guarded(&ops[i])
				if t.dead {
					return
				}
			}
		}
	}
	if len(l.Setup) > 0 {
		run(simrt.SchedSpec{Map: l.Sched.Map}, []string{"setup"}, []func(){body(-1, l.Setup)})
	}
	if !dead && len(l.Tasks) > 0 {
		var names []string
		var bodies []func()
		for i, ops := range l.Tasks {
			names = append(names, fmt.Sprint("task", i))
			bodies = append(bodies, body(i, ops))
		}
		rec = nil
		run(l.Sched, names, bodies)
	}
	e.o.Recorded = append(e.o.Recorded, rec)
	if !dead {
		run(simrt.SchedSpec{Map: l.Sched.Map}, []string{"end"}, []func(){func() { e.finish(d) }})
	}
	return clock
}

// finish closes what the plan left open and checks the end of a life.
func (e *env) finish(d *os.Disk) {
	t := &task{e: e, id: -2}
	ids := func(n int, f func(int)) {
		for i := 0; i <= n; i++ {
			f(i)
		}
	}
	max := 0
	for h := range e.ws {
		if h > max {
			max = h
		}
	}
	for h := range e.rs {
		if h > max {
			max = h
		}
	}
	for h := range e.bs {
		if h > max {
			max = h
		}
	}
	ids(max, func(h int) {
		if _, ok := e.bs[h]; ok {
			t.run(&Op{K: "closeb", H: h})
		}
	})
	ids(max, func(h int) {
		if _, ok := e.rs[h]; ok {
			t.run(&Op{K: "closer", H: h})
		}
	})
	ids(max, func(h int) {
		if _, ok := e.ws[h]; ok {
			t.run(&Op{K: "closew", H: h})
		}
	})
	if e.stop {
		return
	}
	for _, h := range d.OpenHandles() {
		t.viol("leak", "still open at the end: %s", h)
	}
	for _, m := range d.Misuse {
		t.viol("misuse", "%s", m)
	}
	if m := changed(e.keep); m != "" {
		t.viol("alias", "a value returned earlier was changed: %s", m)
	}
	// writers: the end of the story
	for h := 0; h <= max; h++ {
		w := e.ws[h]
		if w == nil {
			continue
		}
		if w.fault && !w.anyErr {
			t.viol("ack", "a disk fault hit the writer of %s, but no call returned an error", e.p.Files[w.f].Path)
		}
	}
}

// hard counts disk faults on a file so far.
func (e *env) hard(f int) int { return os.D.Hard[e.p.Files[f].Path] }

// call runs one API call under the step budget and turns panics and endless
// loops into violations.
func (t *task) call(what string, f func()) (ok bool) {
	defer func() {
		if simrt.Crashing() {
			return
		}
		x := recover()
		if x == nil {
			return
		}
		ok = false
		t.dead = true
		t.e.stop = true
		if h, is := x.(simrt.HangError); is {
			t.log("%s: hang", what)
			t.viol("hang", "%s: %v", what, h)
			return
		}
		s := fmt.Sprint(x)
		if strings.HasPrefix(s, "harness:") {
			panic(x)
		}
		simrt.EndOp()
		t.log("%s: panic %s", what, s)
		t.viol("panic", "%s: panic: %s\n%s", what, s, trimStack(string(debug.Stack())))
	}()
	a0 := allocated()
	simrt.BeginOp(t.e.limit())
	f()
	n := simrt.EndOp()
	if a := allocated() - a0; a > t.e.memLimit() {
		t.viol("memory", "%s allocates more than %d MB", what, t.e.memLimit()>>20)
	}
	if n > t.e.o.MaxOp {
		t.e.o.MaxOp = n
	}
	t.e.o.Probe["calls"]++
	return true
}

func trimStack(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "goorc/orc") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			r = append(r, l)
		}
	}
	if len(r) > 12 {
		r = r[:12]
	}
	return strings.Join(r, "\n")
}

// guarded runs one operation. What goorc hands back can be so inconsistent
// that merely reading it out of range panics: that is goorc's failure.
func (t *task) guarded(op *Op) {
	defer func() {
		if simrt.Crashing() {
			return
		}
		x := recover()
		if x == nil {
			return
		}
		s := fmt.Sprint(x)
		if strings.HasPrefix(s, "harness:") {
			panic(x)
		}
		simrt.EndOp()
		t.dead = true
		t.e.stop = true
		t.viol("panic", "%s: the result cannot be read: panic: %s", op.K, s)
	}()
	t.run(op)
}

// Groups: transcripts are kept per handle of the object concerned.
func (t *task) run(op *Op) {
	e := t.e
	t.group = fmt.Sprintf("task%d", t.id)
	if t.id >= 0 && op.H > 0 {
		t.group = fmt.Sprintf("h%d", op.H)
	}
	switch op.K {
	case "sleep":
		simrt.Sleep(int64(op.N) * 1000)
	case "schema":
		t.schema(op)
	case "create":
		t.create(op)
	case "write", "writenull":
		t.write(op)
		t.heapAfterFlush(op)
	case "closew":
		t.closeW(op)
	case "open":
		t.open(op)
	case "stats":
		t.stats(op)
	case "closer":
		r := e.rs[op.H]
		if r == nil || r.closed {
			return
		}
		r.closed = true
		if t.call("Reader.Close", func() { r.r.Close() }) {
			t.log("closer")
		}
	case "mk":
		if op.Miss != "" {
			t.badMk(op)
		} else {
			t.mk(op)
		}
	case "next":
		if op.Miss != "" {
			t.badNext(op)
			return
		}
		if b := e.bs[op.H]; b != nil && !b.closed {
			t.next(b)
		}
	case "drain":
		if b := e.bs[op.H]; b != nil && !b.closed {
			past := 0
			for i := 0; i < len(b.rows)+4 && !t.dead && past <= op.N; i++ {
				end, err := t.next(b)
				if err != nil {
					past++
				}
				if end {
					past++
				}
			}
		}
	case "scan":
		if b := e.bs[op.H]; b != nil && !b.closed {
			t.scan(b)
		} else if b == nil {
			e.o.Scans = append(e.o.Scans, Scan{F: op.F, Life: e.life, Fate: "not opened"})
		}
	case "seek":
		t.seek(op)
	case "closeb":
		b := e.bs[op.H]
		if b == nil || b.closed {
			return
		}
		b.closed = true
		if t.call("BatchReader.Close", func() { b.br.Close() }) {
			t.log("closeb")
		}
	case "poll":
		t.poll(op)
	case "break":
		t.breakFile(op)
	case "stripes":
		t.stripes(op)
	case "refcheck":
		t.refcheck(op)
	case "rot":
		t.rot(op)
	case "heap":
		if op.H > 0 {
			if len(e.due) == 0 {
				e.flushed, _ = os.D.Size(e.p.Files[op.F].Path)
			}
			e.due = append(e.due, op)
			return
		}
		t.heap(op, 0)
	case "replace", "remove", "spoil":
		t.replace(op)
	default:
		panic("harness: unknown op " + op.K)
	}
}

func (t *task) schema(op *Op) {
	f := &t.e.p.Files[op.F]
	td := schema(f.Data.T)
	var err error
	if !t.call("NormalizeSchema", func() { err = api.NormalizeSchema(td) }) {
		return
	}
	var ids []uint32
	var walk func(td *api.TypeDescription)
	walk = func(td *api.TypeDescription) {
		ids = append(ids, td.Id)
		for _, c := range td.Children {
			walk(c)
		}
	}
	walk(td)
	t.log("schema %v %v", errS(err), ids)
	if err != nil {
		t.viol("error", "NormalizeSchema: %v", err)
		return
	}
	for i, id := range ids {
		if int(id) != i {
			t.viol("values", "NormalizeSchema numbered the columns %v", ids)
			break
		}
	}
	t.e.schemas[op.H] = td
}

func (t *task) create(op *Op) {
	e := t.e
	f := &e.p.Files[op.F]
	td := e.schemas[op.H]
	if td == nil {
		t.schema(op)
		if td = e.schemas[op.H]; td == nil {
			return
		}
	}
	opts := f.W.opts()
	if op.Miss != "" {
		badSchema(op, td, &opts)
	}
	h0 := e.hard(op.F)
	var w orc.Writer
	var err error
	if !t.call("NewOSFileWriter", func() { w, err = orc.NewOSFileWriter(f.Path, td, opts) }) {
		return
	}
	t.log("create %s", errS(err))
	delete(e.done, op.F)
	fault := e.hard(op.F) > h0
	if err != nil {
		if op.Miss != "" {
			e.o.Probe["misuse rejected"]++
		} else if !fault {
			t.viol("error", "NewOSFileWriter: %v", err)
		}
		return
	}
	wh := &writerH{f: op.F, w: w, fault: fault, loose: op.Miss != "", acked: make([]ref.Val, 0, len(f.Data.Rows()))}
	e.ws[op.H] = wh
}

func (t *task) write(op *Op) {
	e := t.e
	w := e.ws[op.H]
	if w == nil {
		return
	}
	f := &e.p.Files[w.f]
	all := f.Data.Rows()
	n := op.N
	if w.next+n > len(all) {
		n = len(all) - w.next
	}
	if w.closed && n == 0 && len(all) > 0 { // some row to try with
		n = 1
		w.next = 0
	}
	rows := all[w.next : w.next+n]
	expectReject := false
	if op.K == "writenull" {
		x := withNull(f.Data.T, rows, op.C)
		if x == nil {
			return
		}
		rows = x
		expectReject = true
	} else if n == 0 && op.N > 0 {
		return
	}
	td := e.schemas[op.H]
	var cv *api.ColumnVector
	switch {
	case op.Mut == 2 && w.batch != nil: // the same batch again
		cv = w.batch
		cv.Clear()
	default:
		cv = vector(td, nil, n)
	}
	fill(f.Data.T, cv, rows)
	w.batch = cv
	if op.Miss != "" {
		if w.batch = nil; !badBatch(op, f.Data.T, &cv, rows) {
			return
		}
		expectReject = true
	}
	h0 := e.hard(w.f)
	var err error
	if !t.call("Write", func() { err = w.w.Write(cv) }) {
		return
	}
	t.log("write %d %s", n, errS(err))
	fault := e.hard(w.f) > h0
	w.fault = w.fault || fault
	if op.Mut > 0 {
		scribble(cv)
	}
	was := w.failed
	if err != nil {
		w.anyErr = true
		if expectReject && !fault {
			e.o.Probe["misuse rejected"]++
			w.loose = true
			return
		}
		if w.loose && !fault && !was && !w.closed {
			w.failed = true
			return
		}
		w.failed = true
		if !fault && !was && !w.closed {
			t.viol("error", "Write of rows %d..%d: %v", w.next, w.next+n, err)
		}
		return
	}
	w.next += n
	switch {
	case op.Miss != "":
		t.viol("accepted", "Write accepted a batch of %d rows which does not fit the schema: %s", n, op.Miss)
	case expectReject:
		t.viol("accepted", "Write accepted a null in column %d, which has no nulls", op.C)
	case was:
		t.viol("accepted", "Write succeeded after an earlier call of the writer had failed")
	case w.closed:
		t.viol("accepted", "Write of %d rows succeeded after Close", n)
	}
	w.acked = append(w.acked, rows...)
	if n, ok := os.D.Size(f.Path); ok {
		w.sizes = append(w.sizes, sizeAt{len(w.acked), n})
	}
}

type sizeAt struct {
	rows int
	size int64
}

// withNull replaces a non-null value of a column without nulls by a null.
func withNull(root *ref.Type, rows []ref.Val, col int) []ref.Val {
	var set func(t *ref.Type, v ref.Val) (ref.Val, bool)
	set = func(t *ref.Type, v ref.Val) (ref.Val, bool) {
		if v == nil {
			return v, false
		}
		if t.ID == col {
			if t.Nulls || t.Kind == ref.Struct {
				return v, false
			}
			return nil, true
		}
		if t.Kind != ref.Struct {
			return v, false
		}
		x := append([]ref.Val(nil), v.([]ref.Val)...)
		for i, k := range t.Kids {
			if col >= k.ID && col < k.End {
				y, ok := set(k, x[i])
				x[i] = y
				return x, ok
			}
		}
		return v, false
	}
	r := append([]ref.Val(nil), rows...)
	for i := len(r) - 1; i >= 0; i-- {
		if y, ok := set(root, r[i]); ok {
			r[i] = y
			return r
		}
	}
	return nil
}

func (t *task) closeW(op *Op) {
	e := t.e
	w := e.ws[op.H]
	if w == nil || (w.closed && op.N == 0) {
		return
	}
	if !w.failed && !w.closed {
		e.expect[w.f] = w.acked
	}
	h0 := e.hard(w.f)
	var err error
	if !t.call("Writer.Close", func() { err = w.w.Close() }) {
		w.closed = true
		return
	}
	t.log("closew %s", errS(err))
	fault := e.hard(w.f) > h0
	w.fault = w.fault || fault
	was, again := w.failed, w.closed
	w.closed = true
	if err != nil {
		w.failed, w.anyErr = true, true
		if !fault && !was && !again && !w.loose {
			t.viol("error", "Close: %v", err)
		}
		return
	}
	if was {
		t.viol("accepted", "Close succeeded after an earlier call of the writer had failed")
		return
	}
	if again {
		return
	}
	if w.fault {
		t.viol("ack", "Close succeeded although a disk operation of the writer had failed")
	}
	w.ok = true
	e.done[w.f] = true
	e.o.Probe["files written"]++
	e.expect[w.f] = w.acked
	b, _ := os.D.Get(e.p.Files[w.f].Path)
	e.full[w.f] = string(b)
}

// refcheck judges the bytes of a finished file by the specification.
func (t *task) refcheck(op *Op) {
	e := t.e
	if !e.done[op.F] {
		return
	}
	f := &e.p.Files[op.F]
	b, _ := os.D.Get(f.Path)
	r, err := ref.Decode(b, ref.DecOpts{})
	if err != nil {
		t.viol("format", "file of %d bytes: %v", len(b), err)
		return
	}
	e.refs[op.F] = r
	e.o.Probe["stripes"] += r.Stripes
	if r.Stripes > 1 {
		e.o.Probe["multi-stripe files"]++
	}
	if m := sameType(f.Data.T, r.Type); m != "" {
		t.viol("format", "schema: %s", m)
		return
	}
	if r.Stripes > 0 && f.W != nil {
		for _, s := range r.Footer.Stripes {
			if s.Rows == 0 {
				e.o.Probe["zero-row stripes"]++
			}
		}
	}
	if f.W.Zlib != (r.PS.Compression == 1) {
		t.viol("format", "compression kind %d", r.PS.Compression)
	}
	if len(r.Rows) != len(e.expect[op.F]) {
		t.viol("format", "file has %d rows, %d were written", len(r.Rows), len(e.expect[op.F]))
		return
	}
	for i := range r.Rows {
		if !ref.Equal(r.Rows[i], e.expect[op.F][i]) {
			t.viol("format", "row %d decodes to %s, written %s", i, ref.Format(r.Rows[i]), ref.Format(e.expect[op.F][i]))
			return
		}
	}
	e.o.Probe["rows decoded"] += len(r.Rows)
}

func sameType(a, b *ref.Type) string {
	if a.Kind != b.Kind || len(a.Kids) != len(b.Kids) {
		return fmt.Sprintf("column %d is %v with %d children, expected %v with %d", a.ID, b.Kind, len(b.Kids), a.Kind, len(a.Kids))
	}
	if a.Kind == ref.Struct {
		for i := range a.Names {
			if a.Names[i] != b.Names[i] {
				return fmt.Sprintf("column %d: field %q, expected %q", a.ID, b.Names[i], a.Names[i])
			}
		}
	}
	for i := range a.Kids {
		if m := sameType(a.Kids[i], b.Kids[i]); m != "" {
			return m
		}
	}
	return ""
}

func (t *task) open(op *Op) {
	e := t.e
	f := &e.p.Files[op.F]
	if !e.done[op.F] {
		return
	}
	h0 := e.hard(op.F)
	var r orc.Reader
	var err error
	if !t.call("NewOSFileReader", func() { r, err = orc.NewOSFileReader(f.Path) }) {
		return
	}
	t.log("open %s", errS(err))
	at := e.at[op.F]
	if err != nil {
		if e.hard(op.F) == h0 && at >= 0 {
			t.viol("error", "NewOSFileReader: %v", err)
		}
		if at < 0 {
			e.o.Probe["opens rejected"]++
		}
		return
	}
	e.rs[op.H] = &readerH{f: op.F, c: at, gen: e.gen[op.F], r: r}
	if at < 0 {
		t.viol("accepted", "NewOSFileReader of %s, which %s, returns no error", f.Path, []string{"", "does not exist", "is no ORC file"}[-at])
		t.dead = true
		return
	}
	var rows uint64
	var td *api.TypeDescription
	if !t.call("NumberOfRows", func() { rows, td = r.NumberOfRows(), r.GetSchema() }) {
		return
	}
	if rows != uint64(len(e.expect[at])) {
		t.viol("values", "NumberOfRows is %d, the file has %d", rows, len(e.expect[at]))
	}
	if m := sameTD(e.types[at], td); m != "" {
		t.viol("values", "GetSchema: %s", m)
	}
}

func sameTD(a *ref.Type, td *api.TypeDescription) string {
	if td == nil {
		return fmt.Sprintf("column %d (%v) is not described", a.ID, a.Kind)
	}
	if int(a.Kind) != int(td.Kind) || a.ID != int(td.Id) || len(a.Kids) != len(td.Children) {
		return fmt.Sprintf("column %d (%v) with %d children is described as %d (%v) with %d", a.ID, a.Kind, len(a.Kids), td.Id, td.Kind, len(td.Children))
	}
	for i := range a.Kids {
		if a.Kind == ref.Struct && (i >= len(td.ChildrenNames) || td.ChildrenNames[i] != a.Names[i]) {
			return fmt.Sprintf("column %d: fields %q, expected field %q", a.ID, td.ChildrenNames, a.Names[i])
		}
		if m := sameTD(a.Kids[i], td.Children[i]); m != "" {
			return m
		}
	}
	return ""
}

func (t *task) mk(op *Op) {
	e := t.e
	r := e.rs[op.R]
	if r == nil || r.closed {
		return
	}
	bo := &api.BatchOption{RowSize: op.N}
	var inc map[int]bool
	if len(op.Inc) > 0 {
		inc = map[int]bool{}
		for _, c := range op.Inc {
			inc[c] = true
			bo.Includes = append(bo.Includes, uint32(c))
		}
	}
	h0 := e.hard(r.f)
	var br orc.BatchReader
	var err error
	if !t.call("CreateBatchReader", func() { br, err = r.r.CreateBatchReader(bo) }) {
		return
	}
	t.log("mk %s", errS(err))
	if err != nil {
		excused := e.hard(r.f) > h0 || e.stale(r)
		if x := e.broken[r.f]; x != nil {
			excused = false
			for c := range x.index {
				excused = excused || inc == nil || inc[c]
			}
		}
		if !excused {
			t.viol("error", "CreateBatchReader: %v", err)
		}
		return
	}
	b := &batchH{f: r.f, r: r, br: br, cap: op.N, inc: inc, t: ref.ProjectType(e.types[r.c], inc)}
	if e.stale(r) {
		e.o.Probe["batch readers of replaced files"]++
	}
	td := r.r.GetSchema()
	if creatable(td) && op.C == 0 {
		if !t.call("CreateVector", func() { b.batch, err = td.CreateVector(bo) }) {
			return
		}
		if err != nil {
			t.viol("error", "CreateVector: %v", err)
			e.bs[op.H] = b
			b.batch = vector(td, inc, op.N)
			return
		}
	} else {
		b.batch = vector(td, inc, op.N)
	}
	if op.Mut > 0 { // reused by the caller
		for i := range bo.Includes {
			bo.Includes[i] = uint32(i * op.Mut)
		}
		bo.RowSize = op.Mut
	}
	for _, v := range e.expect[r.c] {
		b.rows = append(b.rows, ref.Project(e.types[r.c], v, inc))
	}
	e.bs[op.H] = b
}

func (t *task) next(b *batchH) (bool, error) {
	e := t.e
	h0 := e.hard(b.f)
	var end bool
	var err error
	if !t.call("Next", func() { end, err = b.br.Next(b.batch) }) {
		return true, nil
	}
	fault := e.hard(b.f) > h0
	if x := e.broken[b.f]; x != nil {
		hi := b.pos + b.cap
		if hi > len(b.rows) {
			hi = len(b.rows)
		}
		if b.lost || !x.intact(b.inc, b.pos, hi) {
			t.nextDamaged(b, x, end, err)
			return end, err
		}
		fault = false // none of its business
		e.o.Probe["next past damage"]++
	}
	b.faulted = b.faulted || fault
	if err != nil {
		t.log("next %s", errS(err))
		if !fault && !b.failed && !b.unsure && !e.stale(b.r) {
			t.viol("error", "Next at row %d of %d: %v", b.pos, len(b.rows), err)
		}
		b.failed = true
		e.o.Probe["next errors"]++
		return end, err
	}
	n := batchLen(b.t, b.batch)
	x := &extractor{keep: &e.keep}
	if len(e.keep) > 20000 || e.p.Prop == "C22" {
		x.keep = nil
	}
	got := x.rows(b.t, b.batch, n)
	h := uint64(0)
	for _, v := range got {
		h = simrt.Mix(h, hashVal(v))
	}
	t.log("next %d %v %x %s", n, end, h, x.err)
	if b.failed {
		t.viol("sticky", "Next succeeded with %d rows after a Next had failed, without a Seek in between", n)
		t.dead = true
		return true, nil
	}
	left := len(b.rows) - b.pos
	e.o.Probe["rows read"] += n
	if e.stale(b.r) {
		e.o.Probe["rows read of replaced files"] += n
	}
	if x.err != "" {
		t.viol("values", "Next at row %d of %d: %s", b.pos, len(b.rows), x.err)
		t.dead = true
		return true, nil
	}
	if n > left || n > b.cap || (n == 0 && left > 0) {
		t.viol("values", "Next at row %d of %d delivered %d rows (capacity %d, end %v)", b.pos, len(b.rows), n, b.cap, end)
		t.dead = true
		return true, nil
	}
	for i := 0; i < n; i++ {
		if !ref.Equal(got[i], b.rows[b.pos+i]) {
			t.viol("values", "row %d is %s, expected %s", b.pos+i, ref.Format(got[i]), ref.Format(b.rows[b.pos+i]))
			t.dead = true
			return true, nil
		}
	}
	b.pos += n
	if end != (b.pos == len(b.rows)) {
		t.viol("end", "end flag is %v at row %d of %d", end, b.pos, len(b.rows))
	}
	if n > 0 {
		b.unsure = false
	}
	return end, nil
}

// nextDamaged judges a Next which may touch damaged data.
func (t *task) nextDamaged(b *batchH, x *broken, end bool, err error) {
	t.e.o.Probe["next into damage"]++
	if err != nil {
		t.log("next %s", errS(err))
		b.lost, b.failed = true, true
		return
	}
	n := batchLen(b.t, b.batch)
	ex := &extractor{}
	got := ex.rows(b.t, b.batch, n)
	h := uint64(0)
	for _, v := range got {
		h = simrt.Mix(h, hashVal(v))
	}
	t.log("next %d %v %x %s", n, end, h, ex.err)
	if b.failed {
		t.viol("sticky", "Next succeeded with %d rows after a Next had failed, without a Seek in between", n)
		t.dead = true
		return
	}
	if b.lost {
		return
	}
	if n > b.cap {
		t.viol("values", "Next delivered %d rows, the batch has room for %d", n, b.cap)
	}
	k := x.first(b.inc, b.pos, len(b.rows)) - b.pos // rows before the damage
	if !x.garbage {
		k = len(b.rows) - b.pos
		if n > k || ex.err != "" {
			t.viol("values", "Next at row %d of %d delivered %d rows: %s", b.pos, len(b.rows), n, ex.err)
			b.lost = true
			return
		}
	}
	for i := 0; i < n && i < k && ex.err == ""; i++ {
		if !ref.Equal(got[i], b.rows[b.pos+i]) {
			t.viol("values", "row %d is %s, expected %s", b.pos+i, ref.Format(got[i]), ref.Format(b.rows[b.pos+i]))
			b.lost = true
			return
		}
	}
	b.pos += n
	b.lost = n > k || n == 0
}

// breakFile damages what the plan says of a stored file.
func (t *task) breakFile(op *Op) {
	e := t.e
	f := &e.p.Files[op.F]
	if !e.done[op.F] || e.broken[op.F] != nil {
		return
	}
	b, _ := os.D.Get(f.Path)
	r, err := ref.Decode(b, ref.DecOpts{Gaps: true})
	if err != nil {
		return
	}
	x := &broken{bounds: []int{0}, index: map[int]bool{}}
	for _, s := range r.Footer.Stripes {
		x.bounds = append(x.bounds, x.bounds[len(x.bounds)-1]+int(s.Rows))
		x.cols = append(x.cols, map[int]bool{})
	}
	for _, bs := range f.Bad {
		if r.Stripes == 0 {
			break
		}
		st := bs.Stripe % r.Stripes
		var rs []ref.Region
		for _, g := range r.Regions {
			if g.Stripe == st && g.Col == bs.Col && g.Len > 0 {
				rs = append(rs, g)
			}
		}
		if len(rs) == 0 {
			continue
		}
		g := rs[bs.Stream%len(rs)]
		off := g.Off + g.Len*int64(bs.At)/1000
		n := int64(bs.Len)
		if off+n > g.Off+g.Len {
			n = g.Off + g.Len - off
		}
		if n <= 0 {
			continue
		}
		x.cols[st][g.Col] = true
		if g.Kind >= ref.RowIndex {
			x.index[g.Col] = true
		}
		if bs.Kind == "" {
			os.D.Bad[f.Path] = append(os.D.Bad[f.Path], os.Range{Off: off, Len: n})
			os.D.Fired["bad-sector"]++
			continue
		}
		x.garbage = true
		c := rotten(append([]byte(nil), b[off:off+n]...), 0, Damage{Kind: bs.Kind, Zero: int(n), Arg: bs.Arg})
		os.D.Patch(f.Path, off, c)
		os.D.Fired["stored-"+bs.Kind]++
	}
	e.broken[op.F] = x
	t.log("break")
}

// stripes judges how rows were cut into stripes and when these reached the
// disk.
func (t *task) stripes(op *Op) {
	e := t.e
	if !e.done[op.F] {
		return
	}
	f := &e.p.Files[op.F]
	b, _ := os.D.Get(f.Path)
	r, err := ref.Decode(b, ref.DecOpts{})
	if err != nil {
		return // C02
	}
	var w *writerH
	for _, x := range e.ws {
		if x.f == op.F {
			w = x
		}
	}
	if w == nil {
		return
	}
	dict := false
	slack := 0 // values in the encoders, and what framing they need
	for _, c := range r.Types {
		switch c.Kind {
		case ref.Struct, ref.Boolean, ref.Byte, ref.Float, ref.Double:
			slack += 500
		case ref.String, ref.Varchar, ref.Char, ref.Decimal, ref.Binary:
			slack += 4000
		case ref.Timestamp:
			slack += 10500
		default:
			slack += 5500
		}
	}
	for _, c := range f.Data.T.Number() {
		dict = dict || c.Dict
	}
	if f.W.Zlib { // headers of the chunks
		slack += 3 * (slack/f.W.Chunk + 4*len(r.Types))
	}
	at, end := 0, uint64(3)
	for i, s := range r.Footer.Stripes {
		big := 0
		for j := at; j < at+int(s.Rows); j++ {
			if n := rowBytes(r.Rows[j]); n > big {
				big = n
			}
		}
		at += int(s.Rows)
		end += s.Index + s.Data + s.Footer
		if max := f.W.Stripe + 2*big + slack; int(s.Data) > max {
			t.viol("stripes", "stripe %d has %d bytes of data, stripe size is %d and the largest row has %d", i, s.Data, f.W.Stripe, big)
			return
		}
		if i == r.Stripes-1 {
			break
		}
		if n := r.Load[i].Raw + 3*r.Load[i].Chunks; !dict && n < f.W.Stripe {
			t.viol("stripes", "stripe %d ends after %d rows with %d bytes, stripe size is %d", i, s.Rows, n, f.W.Stripe)
			return
		}
		e.o.Probe["stripes flushed"]++
		for _, p := range w.sizes {
			if p.rows > at && p.size < int64(end) {
				t.viol("stripes", "after Write of row %d the file has %d bytes, stripe %d with %d rows ends at row %d and byte %d", p.rows, p.size, i, s.Rows, at, end)
				return
			}
		}
	}
	for _, p := range w.sizes {
		if p.size > 3 {
			e.o.Probe["flushed while writing"]++
		}
	}
}

func rowBytes(v ref.Val) int {
	switch x := v.(type) {
	case string:
		return len(x) + 12
	case ref.Bytes:
		return len(x) + 12
	case []ref.Val:
		n := 1
		for _, y := range x {
			n += rowBytes(y)
		}
		return n
	}
	return 24
}

// rot exercises a reader of a file about whose content nothing is known.
func (t *task) rot(op *Op) {
	e := t.e
	r0 := simrt.NewRand(uint64(op.C))
	var r orc.Reader
	var err error
	if !t.call("NewOSFileReader", func() { r, err = orc.NewOSFileReader(e.p.Files[op.F].Path) }) {
		return
	}
	t.log("open %s", errS(err))
	if err != nil {
		e.o.Probe["rejected at open"]++
		return
	}
	e.o.Probe["damaged files opened"]++
	var td *api.TypeDescription
	if !t.call("GetSchema", func() { td = r.GetSchema() }) || !t.call("GetStatistics", func() { r.GetStatistics() }) {
		return
	}
	if td == nil {
		return
	}
	ok := 0
	for i := 0; i < 2 && !t.dead; i++ {
		bo := &api.BatchOption{RowSize: op.N}
		var br orc.BatchReader
		if !t.call("CreateBatchReader", func() { br, err = r.CreateBatchReader(bo) }) {
			return
		}
		t.log("mk %s", errS(err))
		if err != nil {
			continue
		}
		batch := vector(td, nil, op.N)
		n := int64(r.NumberOfRows())
		if n > 5000 || n < 0 {
			n = 5000
		}
		fails := 0
		for j := 0; j < 40 && fails < 6 && !t.dead; j++ {
			if r0.Intn(4) == 0 {
				k := uint64(r0.Intn(int(n) + 2))
				if !t.call("Seek", func() { err = br.Seek(k) }) {
					return
				}
				t.log("seek %d %s", k, errS(err))
			} else {
				var end bool
				if !t.call("Next", func() { end, err = br.Next(batch) }) {
					return
				}
				t.log("next %v %s", end, errS(err))
				if err == nil {
					ok++
				}
			}
			if err != nil {
				fails++
			}
		}
		if !t.call("BatchReader.Close", func() { br.Close() }) {
			return
		}
	}
	if ok > 0 {
		e.o.Probe["damaged files read in part"]++
	}
	t.call("Reader.Close", func() { r.Close() })
}

// scan records what a whole pass over the file shows; nothing is judged here.
func (t *task) scan(b *batchH) {
	s := Scan{F: b.f, Life: t.e.life, Fate: "no end"}
	for i := 0; i < len(b.rows)+4; i++ {
		var end bool
		var err error
		if !t.call("Next", func() { end, err = b.br.Next(b.batch) }) {
			s.Fate = "dead"
			break
		}
		if err != nil {
			s.Fate = "error"
			break
		}
		n := batchLen(b.t, b.batch)
		x := &extractor{}
		for _, v := range x.rows(b.t, b.batch, n) {
			s.Digest = simrt.Mix(s.Digest, hashVal(v))
		}
		s.Rows += n
		if x.err != "" {
			s.Fate = "inconsistent batch"
			break
		}
		if end {
			s.Fate = "end"
			break
		}
	}
	t.log("scan %d %x %s", s.Rows, s.Digest, s.Fate)
	t.e.o.Probe["scans"]++
	t.e.o.Scans = append(t.e.o.Scans, s)
}

func (t *task) seek(op *Op) {
	e := t.e
	b := e.bs[op.H]
	if b == nil || b.closed {
		return
	}
	h0 := e.hard(b.f)
	n := op.N
	if n < 0 { // relative to the end: -1 is the row count itself
		n = len(b.rows) - n - 1
	}
	var err error
	if !t.call("Seek", func() { err = b.br.Seek(uint64(n)) }) {
		return
	}
	fault := e.hard(b.f) > h0
	t.log("seek %d %s", n, errS(err))
	e.o.Probe["seeks"]++
	if x := e.broken[b.f]; x != nil {
		b.lost = false
		if n < len(b.rows) {
			if fault = !x.intact(b.inc, n, n+1); fault && err != nil {
				b.lost = true
				return
			}
		}
		if err != nil && n >= len(b.rows) {
			b.lost = true // error or old position
			return
		}
	}
	if err != nil {
		if n < len(b.rows) && !fault && !e.stale(b.r) {
			t.viol("error", "Seek(%d) of %d rows: %v", n, len(b.rows), err)
		}
		if !b.failed {
			b.unsure = true
		}
		return
	}
	if n >= len(b.rows) {
		t.viol("accepted", "Seek(%d) succeeded, the file has %d rows", n, len(b.rows))
		t.dead = true
		return
	}
	b.pos, b.failed, b.unsure = n, false, false
}

// poll opens a path in whatever state it is and reads it if that succeeds.
func (t *task) poll(op *Op) {
	e := t.e
	f := &e.p.Files[op.F]
	before, _ := os.D.Get(f.Path)
	var r orc.Reader
	var err error
	if !t.call("NewOSFileReader", func() { r, err = orc.NewOSFileReader(f.Path) }) {
		return
	}
	after, _ := os.D.Get(f.Path)
	t.log("poll %s", errS(err))
	if e.was != "" && (string(before) == e.was || string(after) == e.was) {
		e.o.Probe["polls of the file to be overwritten"]++
		if err == nil {
			t.call("Reader.Close", func() { r.Close() })
		}
		return
	}
	complete := e.full[op.F] != "" && string(before) == e.full[op.F]
	if err != nil {
		e.o.Probe["polls rejected"]++
		if complete {
			t.viol("error", "complete file cannot be opened: %v", err)
		}
		return
	}
	closed := false
	defer func() {
		if !closed && !t.dead && !simrt.Crashing() {
			t.call("Reader.Close", func() { r.Close() })
		}
	}()
	// with a writer at work the content may have become complete meanwhile
	if e.full[op.F] == "" || string(after) != e.full[op.F] {
		exp := e.expect[op.F]
		// bytes not known: judged by the specification
		x, derr := ref.Decode(after, ref.DecOpts{})
		if derr != nil || !sameRows(x.Rows, exp) {
			t.viol("misread", "opening an incomplete file (%d bytes) succeeded with %d rows", len(after), r.NumberOfRows())
			t.dead = true
			return
		}
	}
	e.o.Probe["polls accepted"]++
	if op.N == 0 {
		return
	}
	bo := &api.BatchOption{RowSize: op.N}
	var br orc.BatchReader
	if !t.call("CreateBatchReader", func() { br, err = r.CreateBatchReader(bo) }) {
		return
	}
	if err != nil {
		t.viol("error", "CreateBatchReader on a complete file: %v", err)
		return
	}
	b := &batchH{f: op.F, br: br, cap: op.N, t: e.types[op.F], rows: e.expect[op.F], batch: vector(r.GetSchema(), nil, op.N)}
	for i := 0; i < len(b.rows)+3 && !t.dead; i++ {
		end, err := t.next(b)
		if end || err != nil {
			break
		}
	}
	if !t.dead {
		t.call("BatchReader.Close", func() { br.Close() })
	}
}

func hashVal(v ref.Val) uint64 {
	switch x := v.(type) {
	case nil:
		return 1
	case bool:
		if x {
			return 3
		}
		return 2
	case int64:
		return simrt.Mix(4, uint64(x))
	case ref.F32:
		return simrt.Mix(5, uint64(x))
	case ref.F64:
		return simrt.Mix(6, uint64(x))
	case string:
		return simrt.Mix(7, hashS(x))
	case ref.Bytes:
		return simrt.Mix(8, hashS(string(x)))
	case ref.Dec:
		return simrt.Mix(9, uint64(x.P), uint64(x.S))
	case ref.TS:
		return simrt.Mix(10, uint64(x.S), x.N)
	case []ref.Val:
		return hashVals(11, x)
	case ref.ListV:
		return hashVals(12, x)
	case ref.MapV:
		return simrt.Mix(hashVals(13, x.K), hashVals(14, x.V))
	}
	return 0
}

func hashVals(h uint64, vs []ref.Val) uint64 {
	h = simrt.Mix(h, uint64(len(vs)))
	for _, v := range vs {
		h = simrt.Mix(h, hashVal(v))
	}
	return h
}
