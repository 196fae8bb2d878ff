// Command simcheck runs the simulations of one property.
//
//	simcheck check -prop ID -tier T -seed N -verif DIR
//	simcheck replay FILE
//
// The other modes (worker, exec, min) are what check starts itself in fresh
// processes.
//
// Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
// Exit 2: the check itself could not give an answer.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/sirupsen/logrus"

	"verifsim/dst"
	"verifsim/simrt"
)

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	orc.SetLogLevel(logrus.PanicLevel)
	debug.SetGCPercent(1000)
	if f := os.Getenv("SIMCHECK_PROFILE"); f != "" {
		w, err := os.Create(f)
		if err != nil {
			fail("%v", err)
		}
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fail("no mode")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "exec":
		execFile(os.Args[2])
	case "min":
		minFile(os.Args[2], os.Args[3])
	case "replay":
		replay(os.Args[2])
	case "gen":
		genPrint(os.Args[2:])
	case "selftest":
		selftest(os.Args[2:])
	default:
		fail("unknown mode %s", os.Args[1])
	}
}

// Replay is a replay file: the plan, preceded by the plans which have to run
// in the same process before it, if there are any.
type Replay struct {
	Property string         `json:"property"`
	Seed     uint64         `json:"seed"`
	Run      int            `json:"run"`
	Class    string         `json:"class"`
	Message  string         `json:"message"`
	Hash     string         `json:"hash,omitempty"`
	Fatal    bool           `json:"fatal,omitempty"` // the process dies
	Prelude  []PreludeRun   `json:"prelude,omitempty"`
	Plan     *dst.Plan      `json:"plan"`
	Calls    map[string]any `json:"calls,omitempty"`
}

// PreludeRun names a generated run by its seed.
type PreludeRun struct {
	Run  int    `json:"run"`
	Seed uint64 `json:"seed"`
	Tier string `json:"tier"`
}

func runSeed(base uint64, prop string, i int) uint64 {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	return simrt.Mix(base, h, uint64(i))
}

func genRun(p *dst.Prop, seed uint64, tier string) *dst.Plan {
	r := simrt.NewRand(seed)
	pl := p.Gen(r, &dst.GenOpts{Thorough: tier == "thorough"})
	pl.Seed = seed
	m := simrt.NewRand(simrt.Mix(seed, 7))
	for i := range pl.Lives {
		pl.Lives[i].Sched.Map = m.Next() >> 16
	}
	return pl
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fail("%s: %v", path, err)
	}
	return rp
}

func (rp *Replay) save(path string) {
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail("%v", err)
	}
}

// ExecResult is what a fresh process reports about a replay file.
type ExecResult struct {
	Viol    []dst.Violation
	Skipped string
	Hash    string
	Harness string
}

func execute(rp *Replay) (res ExecResult) {
	p := dst.PropByID(rp.Property)
	if p == nil {
		fail("unknown property %q", rp.Property)
	}
	defer func() {
		if x := recover(); x != nil {
			res.Harness = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	for _, q := range rp.Prelude {
		p.Judge(genRun(p, q.Seed, q.Tier))
	}
	o := p.Judge(rp.Plan)
	if os.Getenv("VERIF_TRACE") != "" {
		b, _ := json.MarshalIndent(o.Trans, "", " ")
		os.Stderr.Write(b)
	}
	res.Viol, res.Skipped, res.Hash = o.Viol, o.Skipped, fmt.Sprintf("%016x", o.Hash)
	return
}

func execFile(path string) {
	watch(nil)
	res := execute(loadReplay(path))
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
}

func replay(path string) {
	rp := loadReplay(path)
	res, died := spawnExec(path)
	if died != "" {
		fmt.Printf("the process died: %s\n", died)
		if rp.Fatal {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
			os.Exit(1)
		}
		os.Exit(2)
	}
	if res.Harness != "" {
		fail("%s", res.Harness)
	}
	for _, v := range res.Viol {
		fmt.Printf("%s: life %d task %d op %d: %s\n", v.Class, v.Life, v.Task, v.Op, v.Msg)
	}
	if res.Skipped != "" {
		fmt.Println("skipped:", res.Skipped)
	}
	fmt.Printf("hash %s (recorded %s)\n", res.Hash, rp.Hash)
	if len(res.Viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
		os.Exit(1)
	}
	fmt.Println("no violation")
}

// genPrint prints the plan of a run: simcheck gen PROP SEED RUN [TIER]
func genPrint(a []string) {
	var base uint64
	var i int
	fmt.Sscan(a[1], &base)
	fmt.Sscan(a[2], &i)
	tier := "quick"
	if len(a) > 3 {
		tier = a[3]
	}
	p := dst.PropByID(a[0])
	if p == nil {
		fail("unknown property %s", a[0])
	}
	s := runSeed(base, a[0], i)
	rp := &Replay{Property: a[0], Seed: s, Run: i, Plan: genRun(p, s, tier)}
	b, _ := json.MarshalIndent(rp, "", " ")
	fmt.Println(string(b))
}

func short(s string, n int) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
