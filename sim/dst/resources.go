package dst

import (
	"runtime"
	"runtime/metrics"
	"sort"

	os "verifsim/simos"
)

// heapAt is what a run held at some point, and how much of the file it had
// worked through.
type heapAt struct{ live, done int64 }

var objects = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

// heapAfterFlush makes the comparisons which are due, if the write op has
// completed a stripe: little more than the rest of its batch is buffered then.
func (t *task) heapAfterFlush(op *Op) {
	e := t.e
	if len(e.due) == 0 {
		return
	}
	f := &e.p.Files[e.due[0].F]
	size, _ := os.D.Size(f.Path)
	if size != e.flushed {
		due := e.due
		e.due = nil
		for _, d := range due {
			t.heap(d, op.N)
		}
	}
}

// heap compares the memory held now, apart from what the simulated disk holds,
// with that at an earlier point: the call of the same number N with C 0.
// C 1: it may not have grown in proportion to what was written or read since.
// C 2: it may have grown by what the columns of one stripe need.
// A batch of so many rows has been written just before.
func (t *task) heap(op *Op, batch int) {
	e := t.e
	f := &e.p.Files[op.F]
	var now heapAt
	runtime.GC()
	metrics.Read(objects)
	now.live = int64(objects[0].Value.Uint64()) - os.D.Held()
	size, _ := os.D.Size(f.Path)
	if b := e.bs[op.R]; op.R > 0 {
		if b == nil || len(b.rows) == 0 || e.o.Crashed > 0 {
			return
		}
		now.done = size * int64(b.pos) / int64(len(b.rows))
	} else {
		now.done = size
	}
	if op.C == 0 {
		e.heaps[op.N] = now
		return
	}
	was, ok := e.heaps[op.N]
	if !ok {
		return
	}
	grown, done := now.live-was.live, now.done-was.done
	e.o.Probe["memory compared"]++
	switch op.C {
	case 1:
		if done <= 0 {
			return
		}
		e.o.Probe["bytes between comparisons"] += int(done)
		max := min(384<<10+done/10, 3<<19)
		if f.W != nil && f.W.Index { // of the rows of this stripe
			max += int64(batch / f.W.Stride * len(f.Data.T.Number()) * 600)
		}
		if op.R > 0 { // there may have been no stripe open
			max += f.stripeNeeds()
		}
		if grown > max {
			t.viol("resources", "memory held grows by %d bytes while %d bytes of the file are worked through", grown, done)
		}
	case 2:
		b := e.bs[op.R]
		if max := 4<<20 + f.stripeNeeds() + int64(len(f.Data.T.Number())*b.cap*128) + size; grown > max {
			t.viol("resources", "a batch reader holds %d bytes before the first row is read, the columns of a stripe need less than %d", grown, max)
		}
	}
}

// stripeNeeds bounds the buffers for reading all streams of one stripe.
func (f *FileSpec) stripeNeeds() int64 {
	n := int64(2 * 262144) // without compression
	switch {
	case f.W != nil && f.W.Zlib:
		n = int64(5 * f.W.Chunk)
	case f.F != nil && f.F.Zlib:
		n = int64(5 * f.F.Block)
	}
	return n * 3 * int64(len(f.Data.T.Number()))
}

// handles checks how many files the process had open at the same time.
func (e *env) handles(l *Life, d *os.Disk) {
	cols := map[int]int{} // of a path
	of := map[int]int{}   // path of a reader
	count := func(op *Op) {
		f := &e.p.Files[op.F]
		switch op.K {
		case "create":
			cols[op.F] += 2
		case "open":
			cols[op.F]++
			of[op.H] = op.F
		case "mk":
			n := len(op.Inc)
			if n == 0 {
				f = &e.p.Files[of[op.R]]
				n = len(f.Data.T.Number())
			}
			cols[of[op.R]] += 3 + 10*n
		}
	}
	for i := range l.Setup {
		count(&l.Setup[i])
	}
	for _, t := range l.Tasks {
		for i := range t {
			count(&t[i])
		}
	}
	var fs []int
	for f := range cols {
		fs = append(fs, f)
	}
	sort.Ints(fs)
	for _, f := range fs {
		path := e.p.Files[f].Path
		e.o.Probe["most files open"] = max(e.o.Probe["most files open"], d.Peak[path])
		if d.Peak[path] > cols[f] {
			e.o.Viol = append(e.o.Viol, Violation{Class: "resources", Life: e.life, Task: -2,
				Msg: path + " is open too often at the same time: " + itoa(d.Peak[path]) + " handles, the columns in use need no more than " + itoa(cols[f])})
		}
	}
}
