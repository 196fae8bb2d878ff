package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/dst"
)

// runs per property in the quick tier; the thorough tier multiplies them.
var quickRuns = map[string]int{
	"C01": 10000, "C02": 10000, "C03": 12000, "C04": 10000, "C05": 10000, "C06": 10000, "C07": 10000, "C08": 7000,
	"C09": 5000, "C10": 7000, "C11": 8000, "C12": 12000, "C13": 10000, "C14": 10000, "C15": 7000,
	"C17": 60000, "C18": 6000, "C19": 12000, "C20": 8000, "C21": 10000, "C22": 3000,
}

const thoroughFactor = 25

func spawnExec(path string) (res ExecResult, died string) {
	cmd := exec.Command(os.Args[0], "exec", path)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if err == nil {
		if json.Unmarshal(out.Bytes(), &res) == nil {
			return res, ""
		}
		fail("no result from exec: %s", errb.String())
	}
	if x, ok := err.(*exec.ExitError); ok {
		if x.ExitCode() == 78 {
			fail("wall clock limit while executing %s", path)
		}
		return res, fmt.Sprintf("%v: %s", err, short(firstLines(errb.String(), 3), 400))
	}
	fail("%v", err)
	return
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type workerEnd struct {
	id     int
	last   int // run under way
	done   bool
	code   int
	stderr string
}

type pool struct {
	prop, tier string
	base       uint64
	n, w       int
	deadline   time.Time
	st         *Stats
	mu         sync.Mutex
	found      []Found
	harness    []string
	notes      []string
	ends       []workerEnd
	cmds       map[int]*exec.Cmd
	stopped    bool
}

func (p *pool) start(id, from int, wg *sync.WaitGroup) {
	secs := time.Until(p.deadline).Seconds()
	cmd := exec.Command(os.Args[0], "worker", "-prop", p.prop, "-tier", p.tier, "-seed", fmt.Sprint(p.base),
		"-from", fmt.Sprint(from), "-step", fmt.Sprint(p.w), "-n", fmt.Sprint(p.n), "-secs", fmt.Sprint(secs))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	out, err := cmd.StdoutPipe()
	if err != nil {
		fail("%v", err)
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	p.mu.Lock()
	if p.stopped {
		p.mu.Unlock()
		return
	}
	if err := cmd.Start(); err != nil {
		fail("%v", err)
	}
	p.cmds[id] = cmd
	p.mu.Unlock()
	wg.Add(1)
	go func() {
		defer wg.Done()
		end := workerEnd{id: id, last: -1}
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			line, err := r.ReadString('\n')
			if line != "" && len(line) > 2 {
				body := line[2:]
				switch line[0] {
				case 'S':
					fmt.Sscan(body, &end.last)
				case 'V':
					var f Found
					if err := json.Unmarshal([]byte(body), &f); err != nil {
						p.mu.Lock()
						p.harness = append(p.harness, err.Error())
						p.mu.Unlock()
					} else {
						p.mu.Lock()
						p.found = append(p.found, f)
						p.mu.Unlock()
						p.stop()
					}
				case 'H', 'N':
					var s string
					json.Unmarshal([]byte(body), &s)
					p.mu.Lock()
					if line[0] == 'H' {
						p.harness = append(p.harness, s)
					} else {
						p.notes = append(p.notes, s)
					}
					p.mu.Unlock()
				case 'D':
					s := newStats()
					json.Unmarshal([]byte(body), s)
					p.mu.Lock()
					p.st.merge(s)
					p.mu.Unlock()
					end.done = true
				}
			}
			if err == io.EOF {
				break
			}
			if err != nil {
				break
			}
		}
		err := cmd.Wait()
		if x, ok := err.(*exec.ExitError); ok {
			end.code = x.ExitCode()
		}
		end.stderr = errb.String()
		p.mu.Lock()
		p.ends = append(p.ends, end)
		p.mu.Unlock()
	}()
}

// stop lets the others end soon: what they were about to find is not needed.
func (p *pool) stop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.stopped {
		return
	}
	p.stopped = true
	for _, c := range p.cmds {
		c := c
		time.AfterFunc(300*time.Millisecond, func() { c.Process.Kill() })
	}
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	instr := fs.String("instr", "", "instrument.json of the build")
	n := fs.Int("n", 0, "")
	secs := fs.Float64("secs", 0, "")
	fs.Parse(args)
	t0 := time.Now()
	dp := dst.PropByID(*prop)
	if dp == nil {
		fail("unknown property %q", *prop)
	}
	if *n == 0 {
		*n = quickRuns[*prop]
		if *tier == "thorough" {
			*n *= thoroughFactor
		}
	}
	if *secs == 0 {
		*secs = 200
		if *tier == "thorough" {
			*secs = 1500
		}
	}
	p := &pool{prop: *prop, tier: *tier, base: *base, n: *n, st: newStats(), cmds: map[int]*exec.Cmd{}}
	p.w = runtime.NumCPU()
	if p.w > 8 {
		p.w = 8
	}
	p.deadline = t0.Add(time.Duration(*secs * float64(time.Second)))
	var wg sync.WaitGroup
	for i := 0; i < p.w; i++ {
		p.start(i, i, &wg)
	}
	deaths := 0
	for {
		wg.Wait()
		p.mu.Lock()
		ends := p.ends
		p.ends = nil
		p.mu.Unlock()
		again := false
		for _, e := range ends {
			if e.done || (p.stopped && e.code == -1) {
				continue
			}
			if e.code == 2 && len(p.harness) > 0 {
				continue
			}
			if e.code == 78 {
				fail("run %d: wall clock limit", e.last)
			}
			if e.last < 0 {
				fail("worker did not start: %s", e.stderr)
			}
			deaths++
			if deaths > 40 {
				fail("workers keep dying: %s", e.stderr)
			}
			if e.code == 77 { // too much memory, or only garbage not collected yet?
				f, err := os.CreateTemp("", "simcheck")
				if err != nil {
					fail("%v", err)
				}
				f.Close()
				seed := runSeed(*base, *prop, e.last)
				(&Replay{Property: *prop, Seed: seed, Run: e.last, Plan: genRun(dp, seed, *tier)}).save(f.Name())
				_, died := spawnExec(f.Name())
				os.Remove(f.Name())
				if died == "" {
					if !p.stopped {
						p.start(e.id, e.last+p.w, &wg)
						again = true
					}
					continue
				}
			}
			if dp.Owns("panic") {
				var prior []int
				for i := e.id; i < e.last; i += p.w {
					prior = append(prior, i)
				}
				p.found = append(p.found, Found{Run: e.last, Seed: runSeed(*base, *prop, e.last), Prior: prior,
					Viol: []dst.Violation{{Class: "fatal", Msg: "the process dies: " + short(firstLines(e.stderr, 3), 400)}}})
				p.stop()
			} else if !p.stopped {
				p.st.Skipped++
				p.st.Why["the process dies"]++
				p.start(e.id, e.last+p.w, &wg)
				again = true
			}
		}
		if !again {
			break
		}
	}
	if len(p.harness) > 0 {
		fail("harness error: %s", p.harness[0])
	}
	viol := 0
	out := ""
	if len(p.found) > 0 {
		sort.Slice(p.found, func(i, j int) bool { return p.found[i].Run < p.found[j].Run })
		var why []string
		for i := range p.found {
			path, w := confirm(&p.found[i], *prop, *tier, *base, p.w, *verif)
			if path != "" {
				out = path
				break
			}
			why = append(why, w)
		}
		if out == "" {
			fail("a violation does not replay: %s", strings.Join(why, "; "))
		}
		viol = 1
	}
	evidence(p, *verif, *instr, viol, t0)
	if viol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, out)
		os.Exit(1)
	}
	if p.st.Runs-p.st.Skipped < p.st.Runs/2 || p.st.Runs == 0 {
		fail("%d of %d runs could not be judged: %v", p.st.Skipped, p.st.Runs, p.st.Why)
	}
	fmt.Printf("%s: %d runs, %d executions, %d skipped, no violation, %.1f s\n", *prop, p.st.Runs, p.st.Execs, p.st.Skipped, time.Since(t0).Seconds())
}

// confirm replays a violation in fresh processes and minimises it.
func confirm(f *Found, prop, tier string, base uint64, step int, verif string) (string, string) {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, base, f.Run))
	dp := dst.PropByID(prop)
	rp := &Replay{Property: prop, Seed: f.Seed, Run: f.Run, Class: f.Viol[0].Class, Message: f.Viol[0].Msg, Plan: f.Plan, Fatal: f.Viol[0].Class == "fatal"}
	if rp.Plan == nil {
		rp.Plan = genRun(dp, f.Seed, tier)
	}
	shows := func(r *Replay) bool {
		r.save(path)
		res, died := spawnExec(path)
		if r.Fatal || died != "" {
			if died != "" {
				r.Fatal = true
			}
			return died != "" && r.Class == "fatal"
		}
		if res.Harness != "" {
			return false
		}
		for _, v := range res.Viol {
			if v.Class == r.Class {
				r.Message, r.Hash = v.Msg, res.Hash
				return true
			}
		}
		return false
	}
	if !shows(rp) {
		if len(f.Prior) == 0 {
			return "", fmt.Sprintf("run %d: %s: %s", f.Run, rp.Class, short(rp.Message, 300))
		}
		// earlier runs of the same process matter: find which
		pre := func(runs []int) []PreludeRun {
			var r []PreludeRun
			for _, i := range runs {
				r = append(r, PreludeRun{i, runSeed(base, prop, i), tier})
			}
			return r
		}
		ok := false
		var need []int
		for k := 1; ; k *= 4 {
			if k > len(f.Prior) {
				k = len(f.Prior)
			}
			need = f.Prior[len(f.Prior)-k:]
			rp.Prelude = pre(need)
			if ok = shows(rp); ok || k == len(f.Prior) {
				break
			}
		}
		if !ok {
			return "", fmt.Sprintf("run %d (after %d runs): %s: %s", f.Run, len(f.Prior), rp.Class, short(rp.Message, 300))
		}
		end := time.Now().Add(60 * time.Second)
		for chunk := (len(need) + 1) / 2; chunk > 0 && len(need) > 1 && time.Now().Before(end); chunk /= 2 {
			for i := 0; i+chunk <= len(need) && time.Now().Before(end); {
				try := append(append([]int(nil), need[:i]...), need[i+chunk:]...)
				rp.Prelude = pre(try)
				if shows(rp) {
					need = try
				} else {
					i += chunk
				}
			}
		}
		rp.Prelude = pre(need)
		shows(rp)
		return path, ""
	}
	if rp.Fatal {
		return path, ""
	}
	// minimise in a process of its own, then check what came out
	orig, _ := os.ReadFile(path)
	mpath := path + ".min"
	cmd := exec.Command(os.Args[0], "min", path, mpath)
	cmd.Stderr = os.Stderr
	if err := cmd.Run(); err == nil {
		m := loadReplay(mpath)
		if !shows(m) {
			os.WriteFile(path, orig, 0o644)
		} else {
			shows(m)
			m.save(path)
			rp = m
		}
	}
	os.Remove(mpath)
	fmt.Printf("%s: %s: %s\n", prop, rp.Class, short(rp.Message, 1500))
	return path, ""
}

func evidence(p *pool, verif, instr string, viol int, t0 time.Time) {
	st := p.st
	uniq := func(v []uint64) int {
		m := map[uint64]bool{}
		for _, x := range v {
			m[x] = true
		}
		return len(m)
	}
	wall := time.Since(t0).Seconds()
	cov := map[string]interface{}{
		"evaluations":         st.Runs,
		"distinct_nontrivial": uniq(st.Hashes),
		"rule": "One evaluation is one generated plan (data, writer options or foreign layout, operations of every task, schedule, disk behaviour, faults) judged by the property's oracle. " +
			"Non-trivial: not skipped, at least 3 API calls and 3 disk operations. Distinct: by a digest of the final disk contents, every call's result, every disk operation and the schedule.",
		"samples":                       st.Samples,
		"executions":                    st.Execs,
		"skipped":                       st.Skipped,
		"skipped_why":                   st.Why,
		"trivial":                       st.Trivial,
		"repeated_for_determinism":      st.Double,
		"repeated_with_different_trace": len(p.notes),
		"runs_per_hour":                 int(float64(st.Runs) / wall * 3600),
		"seeds_per_hour":                int(float64(st.Runs) / wall * 3600),
		"simulated_seconds":             float64(st.SimNS) / 1e9,
		"simulated_statements":          st.Steps,
		"longest_call_statements":       st.MaxOp,
		"call_limit_statements":         dst.OpLimit,
		"disk_operations":               st.DiskOps,
		"context_switches":              st.Switches,
		"distinct_schedules":            uniq(st.Sched),
		"process_crashes":               st.Crashed,
		"faults_fired":                  st.Fired,
		"probes":                        st.Probe,
		"time_capped":                   st.Timeout,
		"components_real":               "every non-test .go file of /repo/orc and /repo/pb as in the working tree (instrumented copies), protobuf runtime, compress/flate, logrus",
		"components_stub":               "os (simulated disk), sync, io/ioutil, math/rand, time.Now/Since/Sleep, go statements, map iteration order (simulator)",
	}
	if b, err := os.ReadFile(instr); err == nil {
		var m map[string]interface{}
		if json.Unmarshal(b, &m) == nil {
			cov["instrumentation"] = m
		}
	}
	ev := map[string]interface{}{
		"property": p.prop, "tier": p.tier, "seed": p.base, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"schedules interleave whole statements (sequential consistency between them); torn reads and writes inside one statement are not simulated",
			"the disk keeps completed writes of a crashed process in order; loss beyond that is simulated as a truncated or zeroed tail",
			"the reference encoder and decoder follow the ORC v1 specification",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.prop+".json"), b, 0o644); err != nil {
		fail("%v", err)
	}
}
