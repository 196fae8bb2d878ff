package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"

	"verifsim/dst"
)

const (
	memLimit  = 3000 << 20 // bytes of heap one simulated run may hold
	wallLimit = 120 * time.Second
)

// Stats is what a worker measured.
type Stats struct {
	Runs, Skipped, Execs, Crashed, DiskOps, Trivial, Double int
	Why                                                     map[string]int
	Steps, MaxOp, Switches                                  uint64
	SimNS                                                   int64
	Fired, Probe                                            map[string]int
	Hashes, Sched                                           []uint64
	Samples                                                 []string
	Timeout                                                 bool
}

func newStats() *Stats {
	return &Stats{Why: map[string]int{}, Fired: map[string]int{}, Probe: map[string]int{}}
}

func (s *Stats) merge(x *Stats) {
	s.Runs += x.Runs
	s.Skipped += x.Skipped
	s.Execs += x.Execs
	s.Crashed += x.Crashed
	s.DiskOps += x.DiskOps
	s.Trivial += x.Trivial
	s.Double += x.Double
	s.Steps += x.Steps
	s.Switches += x.Switches
	s.SimNS += x.SimNS
	if x.MaxOp > s.MaxOp {
		s.MaxOp = x.MaxOp
	}
	for k, v := range x.Why {
		s.Why[k] += v
	}
	for k, v := range x.Fired {
		s.Fired[k] += v
	}
	for k, v := range x.Probe {
		s.Probe[k] += v
	}
	s.Hashes = append(s.Hashes, x.Hashes...)
	s.Sched = append(s.Sched, x.Sched...)
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, x.Samples...)
	}
	s.Timeout = s.Timeout || x.Timeout
}

// Found is a violation a worker met.
type Found struct {
	Run   int
	Seed  uint64
	Hash  string
	Viol  []dst.Violation
	Plan  *dst.Plan
	Prior []int // runs of this process before it
}

var runStart atomic.Int64

// watch ends the process when a run holds too much memory or real time.
func watch(say func(string)) {
	runStart.Store(time.Now().UnixNano())
	debug.SetMemoryLimit(1200 << 20)
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(50 * time.Millisecond)
			metrics.Read(s)
			if s[0].Value.Uint64() > memLimit {
				fmt.Fprintf(os.Stderr, "memory: a run holds more than %d MB\n", memLimit>>20)
				os.Exit(77)
			}
			if time.Now().UnixNano()-runStart.Load() > int64(wallLimit) {
				fmt.Fprintln(os.Stderr, "wall clock limit of one run")
				os.Exit(78)
			}
		}
	}()
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 0, "")
	secs := fs.Float64("secs", 60, "")
	keepGoing := fs.Bool("all", false, "")
	fs.Parse(args)
	p := dst.PropByID(*prop)
	out := bufio.NewWriter(os.Stdout)
	emit := func(k string, v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			fail("%v", err)
		}
		fmt.Fprintf(out, "%s %s\n", k, b)
		out.Flush()
	}
	watch(nil)
	st := newStats()
	seen := map[uint64]bool{}
	sched := map[uint64]bool{}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var prior []int
	for i := *from; i < *n; i += *step {
		if time.Now().After(deadline) {
			st.Timeout = true
			break
		}
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		runStart.Store(time.Now().UnixNano())
		seed := runSeed(*base, *prop, i)
		var pl *dst.Plan
		var o *dst.Outcome
		func() {
			defer func() {
				if x := recover(); x != nil {
					emit("H", fmt.Sprintf("run %d seed %d: %v\n%s", i, seed, x, debug.Stack()))
					os.Exit(2)
				}
			}()
			pl = genRun(p, seed, *tier)
			o = p.Judge(pl)
			if len(prior)%64 == 63 && len(o.Viol) == 0 { // the same again
				st.Double++
				q := genRun(p, seed, *tier)
				if x := p.Judge(q); x.Hash != o.Hash && len(x.Viol) == 0 {
					emit("N", fmt.Sprintf("run %d seed %d executes differently a second time (%016x, %016x)", i, seed, o.Hash, x.Hash))
				}
			}
		}()
		st.Runs++
		st.Execs += o.Runs
		st.Steps += o.Steps
		st.SimNS += o.Clock
		st.Switches += o.Switches
		st.DiskOps += o.DiskOps
		st.Crashed += o.Crashed
		if o.MaxOp > st.MaxOp {
			st.MaxOp = o.MaxOp
		}
		for k, v := range o.Fired {
			st.Fired[k] += v
		}
		for k, v := range o.Probe {
			st.Probe[k] += v
		}
		switch {
		case o.Skipped != "":
			st.Skipped++
			st.Why[short(o.Skipped, 80)]++
		case o.Probe["calls"] < 3 || o.DiskOps < 3:
			st.Trivial++
		default:
			seen[o.Hash] = true
			if o.SwHash != 0 {
				sched[o.SwHash] = true
			}
		}
		if len(st.Samples) < 1 && o.Skipped == "" && o.Probe["calls"] > 4 {
			q := pl.Clone()
			st.Samples = append(st.Samples, sample(q))
		}
		if len(o.Viol) > 0 {
			emit("V", Found{Run: i, Seed: seed, Hash: fmt.Sprintf("%016x", o.Hash), Viol: o.Viol, Plan: pl, Prior: prior})
			if !*keepGoing {
				break
			}
		}
		prior = append(prior, i)
	}
	for h := range seen {
		st.Hashes = append(st.Hashes, h)
	}
	for h := range sched {
		st.Sched = append(st.Sched, h)
	}
	emit("D", st)
}

// sample is a plan written out, without what would make it very long.
func sample(p *dst.Plan) string {
	for i := range p.Files {
		p.Files[i].Data.Embed = nil
	}
	for i := range p.Lives {
		for j := range p.Lives[i].Tasks {
			if t := p.Lives[i].Tasks[j]; len(t) > 12 {
				p.Lives[i].Tasks[j] = append(t[:12:12], dst.Op{K: fmt.Sprintf("... %d more", len(t)-12)})
			}
		}
	}
	if len(p.Lives) > 4 {
		p.Note = fmt.Sprintf("first 4 of %d lives", len(p.Lives))
		p.Lives = p.Lives[:4]
	}
	b, _ := json.Marshal(p)
	return short(string(b), 6000)
}
