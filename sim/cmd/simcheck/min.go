package main

import (
	"fmt"
	"time"

	"verifsim/dst"
	ref "verifsim/orcref"
	"verifsim/simrt"
)

// minFile drops from a plan whatever is not needed for the same class of
// violation.
func minFile(in, out string) {
	watch(nil)
	rp := loadReplay(in)
	p := dst.PropByID(rp.Property)
	end := time.Now().Add(45 * time.Second)
	tries := 0
	m := &minimiser{best: rp.Plan}
	m.test = func(q *dst.Plan) (ok bool, o *dst.Outcome) {
		if time.Now().After(end) {
			return false, nil
		}
		tries++
		runStart.Store(time.Now().UnixNano())
		defer func() {
			if x := recover(); x != nil {
				ok = false
			}
		}()
		o = p.Judge(q)
		for _, v := range o.Viol {
			if v.Class == rp.Class {
				return true, o
			}
		}
		return false, o
	}
	for round := 0; round < 4; round++ {
		before := m.hits
		m.round()
		if m.hits == before || time.Now().After(end) {
			break
		}
	}
	rp.Plan = m.best
	rp.Plan.Note = fmt.Sprintf("minimised: %d reductions in %d executions", m.hits, tries)
	rp.save(out)
}

type minimiser struct {
	best *dst.Plan
	test func(*dst.Plan) (bool, *dst.Outcome)
	hits int
}

// try applies a change to a copy and keeps it if the violation persists.
func (m *minimiser) try(f func(q *dst.Plan) bool) bool {
	q := m.best.Clone()
	if !f(q) {
		return false
	}
	if ok, _ := m.test(q); ok {
		m.best = q
		m.hits++
		return true
	}
	return false
}

// list removes elements of a list in chunks.
func (m *minimiser) list(n func() int, drop func(q *dst.Plan, from, to int)) {
	for chunk := n(); chunk > 0; chunk /= 2 {
		for at := 0; at < n(); {
			to := at + chunk
			if to > n() {
				to = n()
			}
			if at >= to || !m.try(func(q *dst.Plan) bool { drop(q, at, to); return true }) {
				at += chunk
			}
		}
	}
}

func cut[T any](s []T, from, to int) []T {
	return append(append([]T(nil), s[:from]...), s[to:]...)
}

func (m *minimiser) round() {
	m.list(func() int { return len(m.best.Lives) }, func(q *dst.Plan, a, b int) { q.Lives = cut(q.Lives, a, b) })
	for li := range m.best.Lives {
		li := li
		life := func() *dst.Life { return &m.best.Lives[li] }
		m.list(func() int { return len(life().Damage) }, func(q *dst.Plan, a, b int) { q.Lives[li].Damage = cut(q.Lives[li].Damage, a, b) })
		m.list(func() int { return len(life().Disk.Faults) }, func(q *dst.Plan, a, b int) {
			q.Lives[li].Disk.Faults = cut(q.Lives[li].Disk.Faults, a, b)
		})
		m.try(func(q *dst.Plan) bool {
			d := &q.Lives[li].Disk
			x := d.ShortRead != 0
			d.ShortRead = 0
			return x
		})
		m.try(func(q *dst.Plan) bool {
			d := &q.Lives[li].Disk
			x := d.LatMax != 0
			d.LatMax = 0
			return x
		})
		m.try(func(q *dst.Plan) bool {
			d := &q.Lives[li].Disk
			x := d.MaxOpen != 0
			d.MaxOpen = 0
			return x
		})
		m.try(func(q *dst.Plan) bool {
			d := &q.Lives[li].Disk
			x := d.Capacity != 0
			d.Capacity = 0
			return x
		})
		// tasks keep their number: the schedule refers to it
		for ti := range life().Tasks {
			ti := ti
			m.list(func() int { return len(life().Tasks[ti]) }, func(q *dst.Plan, a, b int) {
				q.Lives[li].Tasks[ti] = cut(q.Lives[li].Tasks[ti], a, b)
			})
			for oi := range life().Tasks[ti] {
				oi := oi
				m.try(func(q *dst.Plan) bool {
					op := &q.Lives[li].Tasks[ti][oi]
					x := op.Mut != 0
					op.Mut = 0
					return x
				})
				m.try(func(q *dst.Plan) bool {
					op := &q.Lives[li].Tasks[ti][oi]
					x := len(op.Inc) > 0
					op.Inc = nil
					return x
				})
			}
		}
		for len(life().Tasks) > 1 && len(life().Tasks[len(life().Tasks)-1]) == 0 {
			if !m.try(func(q *dst.Plan) bool {
				l := &q.Lives[li]
				l.Tasks = l.Tasks[:len(l.Tasks)-1]
				return true
			}) {
				break
			}
		}
		m.schedule(li)
	}
	for fi := range m.best.Files {
		m.file(fi)
	}
}

func (m *minimiser) schedule(li int) {
	sc := func() *simrt.SchedSpec { return &m.best.Lives[li].Sched }
	if sc().Map != 0 {
		m.try(func(q *dst.Plan) bool { q.Lives[li].Sched.Map = 0; return true })
	}
	if !sc().Explicit {
		if len(m.best.Lives[li].Tasks) < 2 && sc().Quantum == 0 {
			return
		}
		if m.try(func(q *dst.Plan) bool {
			q.Lives[li].Sched = simrt.SchedSpec{Explicit: true, Map: sc().Map}
			return true
		}) {
			return
		}
		// the same schedule as an explicit list
		_, o := m.test(m.best.Clone())
		if o == nil || li >= len(o.Recorded) {
			return
		}
		rec := o.Recorded[li]
		if len(rec) > 200000 || !m.try(func(q *dst.Plan) bool {
			q.Lives[li].Sched = simrt.SchedSpec{Explicit: true, Map: sc().Map, Switches: rec}
			return true
		}) {
			return
		}
	}
	m.list(func() int { return len(sc().Switches) }, func(q *dst.Plan, a, b int) {
		q.Lives[li].Sched.Switches = cut(q.Lives[li].Sched.Switches, a, b)
	})
}

func (m *minimiser) file(fi int) {
	f := func() *dst.FileSpec { return &m.best.Files[fi] }
	same := func(q *dst.Plan, g func(f *dst.FileSpec)) { // files which must be equal change together
		s := q.Files[fi].Same
		for i := range q.Files {
			if i == fi || (s != 0 && q.Files[i].Same == s) {
				g(&q.Files[i])
			}
		}
	}
	// columns
	for again := true; again; {
		again = false
		for _, t := range f().Data.T.Number() {
			if len(t.Kids) < 2 || t.Kind != ref.Struct {
				continue
			}
			id := t.ID
			for k := len(t.Kids) - 1; k >= 0; k-- {
				k := k
				if m.try(func(q *dst.Plan) bool { return dropKid(q, fi, id, k, same) }) {
					again = true
					break
				}
			}
			if again {
				break
			}
		}
	}
	// rows
	n := len(f().Data.Rows())
	keep := make([]bool, n)
	for i := range keep {
		keep[i] = true
	}
	orig := f().Data.Keep
	if n > 0 {
		var idx []int // numbers of the rows in the generated table
		if len(orig) == 0 {
			for i := 0; i < n; i++ {
				idx = append(idx, i)
			}
		} else {
			for _, k := range orig {
				for i := k[0]; i < k[1] && i < f().Data.N; i++ {
					idx = append(idx, i)
				}
			}
		}
		for chunk := (n + 1) / 2; chunk > 0; chunk /= 2 {
			for at := 0; at < len(idx); {
				to := at + chunk
				if to > len(idx) {
					to = len(idx)
				}
				try := cut(idx, at, to)
				if m.try(func(q *dst.Plan) bool {
					same(q, func(f *dst.FileSpec) { f.Data.Keep = ranges(try) })
					return true
				}) {
					idx = try
				} else {
					at += chunk
				}
			}
			if chunk < n/64 && len(idx) > 200 {
				break
			}
		}
	}
	opt := func(g func(f *dst.FileSpec) bool) {
		m.try(func(q *dst.Plan) bool {
			x := false
			same(q, func(f *dst.FileSpec) { x = g(f) || x })
			return x
		})
	}
	if f().W != nil {
		opt(func(f *dst.FileSpec) bool { x := f.W.Zlib; f.W.Zlib = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.W.Index; f.W.Index = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.W.Stripe != 256<<20; f.W.Stripe = 256 << 20; return x })
		opt(func(f *dst.FileSpec) bool { x := f.W.Chunk != 262144; f.W.Chunk = 262144; return x })
	}
	if f().F != nil {
		opt(func(f *dst.FileSpec) bool { x := f.F.Zlib; f.F.Zlib = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.Stripes != nil; f.F.Stripes = nil; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.Stride != 0; f.F.Stride = 0; f.F.Bloom = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.Bloom; f.F.Bloom = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.KeepNulls; f.F.KeepNulls = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.DropEmpty; f.F.DropEmpty = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.Shuffle; f.F.Shuffle = false; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.Gap != 0; f.F.Gap = 0; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.UserMeta != 0; f.F.UserMeta = 0; return x })
		opt(func(f *dst.FileSpec) bool { x := f.F.Meta; f.F.Meta = false; return x })
		opt(func(f *dst.FileSpec) bool { x := !f.F.Simple; f.F.Simple = true; return x })
	}
	opt(func(f *dst.FileSpec) bool { x := f.Was != nil; f.Was = nil; return x })
	opt(func(f *dst.FileSpec) bool { x := len(f.Data.Embed) > 0; f.Data.Embed = nil; return x })
}

func ranges(idx []int) [][2]int {
	r := [][2]int{}
	for _, i := range idx {
		if n := len(r); n > 0 && r[n-1][1] == i {
			r[n-1][1]++
		} else {
			r = append(r, [2]int{i, i + 1})
		}
	}
	if len(r) == 0 {
		r = append(r, [2]int{0, 0})
	}
	return r
}

// dropKid removes a child column and renumbers what refers to columns.
func dropKid(q *dst.Plan, fi, id, k int, same func(q *dst.Plan, g func(f *dst.FileSpec))) bool {
	old := q.Files[fi].Data.T.Number()
	gone := old[id].Kids[k]
	from, to := gone.ID, gone.End
	files := map[int]bool{}
	for i := range q.Files {
		if i == fi || (q.Files[fi].Same != 0 && q.Files[i].Same == q.Files[fi].Same) {
			files[i] = true
		}
	}
	same(q, func(f *dst.FileSpec) {
		t := f.Data.T.Number()[id]
		t.Kids = cut(t.Kids, k, k+1)
		t.Names = nil
		f.Data.T.Number()
	})
	ok := true
	fileOf := map[int]int{} // handle -> file
	fix := func(ops []dst.Op) {
		for i := range ops {
			op := &ops[i]
			switch op.K {
			case "create", "open":
				fileOf[op.H] = op.F
			}
		}
		for i := range ops {
			op := &ops[i]
			switch op.K {
			case "writenull":
				if files[fileOf[op.H]] {
					if op.C >= from && op.C < to {
						ok = false
					} else if op.C >= to {
						op.C -= to - from
					}
				}
			case "mk":
				if files[fileOf[op.R]] && len(op.Inc) > 0 {
					var inc []int
					for _, c := range op.Inc {
						if c < from {
							inc = append(inc, c)
						} else if c >= to {
							inc = append(inc, c-(to-from))
						}
					}
					op.Inc = inc
				}
			}
		}
	}
	for li := range q.Lives {
		fix(q.Lives[li].Setup)
		for ti := range q.Lives[li].Tasks {
			fix(q.Lives[li].Tasks[ti])
		}
	}
	return ok
}
