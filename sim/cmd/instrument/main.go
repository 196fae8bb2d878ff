// Command instrument reads the non-test Go sources under REPO/orc, inserts a
// preemption point (simrt.Y()) before every statement and at the head of every
// loop body, routes the os, sync, io/ioutil, time and math/rand seams to the
// simulator, and writes the copies plus an overlay file for go build. /repo
// itself is never touched.
//
//	instrument REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	end  int // > off: replace [off,end)
	text string
	ord  int
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	stmts, files := 0, 0
	var paths []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			b := fi.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor" || rel == "pb" || rel == "examples" || rel == "bench" || rel == "testing") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			paths = append(paths, p)
		}
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	sort.Strings(paths)
	ld := load(repo)
	ld.findShared()
	maps, hots := 0, 0
	for _, p := range paths {
		src, err := os.ReadFile(p)
		if err != nil {
			fatal("%v", err)
		}
		u := &unit{path: p, src: src}
		if err := u.parse(ld); err != nil {
			fmt.Fprintf(os.Stderr, "instrument: %s: %v\n", p, err)
			os.Exit(3)
		}
		res, n, err := u.instrument(ld)
		maps += u.maps
		hots += u.hots
		if err != nil {
			// let the compiler report it against the original
			fmt.Fprintf(os.Stderr, "instrument: %s: %v\n", p, err)
			os.Exit(3)
		}
		stmts += n
		files++
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(out, "src", rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			fatal("%v", err)
		}
		overlay[p] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	s, _ := json.Marshal(map[string]int{"files": files, "preemption_points": stmts, "map_ranges": maps, "shared_state_points": hots})
	os.WriteFile(filepath.Join(out, "instrument.json"), s, 0o644)
}

var sites int // twice the preemption points so far

var shims = map[string]string{
	"os":        "verifsim/simos",
	"sync":      "verifsim/simsync",
	"io/ioutil": "verifsim/simioutil",
	"math/rand": "verifsim/simrand",
}

// unit is one source file under instrumentation; info is nil when the file is
// not part of the build.
type unit struct {
	path       string
	src        []byte
	fset       *token.FileSet
	f          *ast.File
	info       *types.Info
	maps, hots int
}

func (u *unit) parse(ld *loader) error {
	if pf := ld.files[u.path]; pf != nil {
		u.fset, u.f, u.info = ld.fset, pf.f, pf.info
		return nil
	}
	u.fset = token.NewFileSet()
	f, err := parser.ParseFile(u.fset, u.path, u.src, parser.ParseComments)
	u.f = f
	return err
}

func (u *unit) isMap(e ast.Expr) bool {
	if u.info == nil {
		return false
	}
	t := u.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (u *unit) isChan(e ast.Expr) bool {
	if u.info == nil {
		return false
	}
	t := u.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// unbuffered tells whether the file makes a channel that may have no buffer.
func (u *unit) unbuffered() bool {
	found := false
	ast.Inspect(u.f, func(n ast.Node) bool {
		if x, ok := n.(*ast.CallExpr); ok {
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 && u.isChan(x.Args[0]) {
				if len(x.Args) == 1 || string(u.src[u.fset.Position(x.Args[1].Pos()).Offset:u.fset.Position(x.Args[1].End()).Offset]) == "0" {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// shared reports whether n (nested blocks aside) mentions package-level state
// of the module: the only memory which two readers or writers made from
// unrelated arguments can have in common.
func (u *unit) shared(n ast.Node) bool { return u.mention(n, false) }

// mentions is shared for n with all that is nested in it.
func (u *unit) mentions(n ast.Node) bool { return u.mention(n, true) }

func (u *unit) mention(n ast.Node, nested bool) bool {
	if u.info == nil || n == nil {
		return false
	}
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found {
			return false
		}
		switch x := x.(type) {
		case *ast.BlockStmt:
			return nested || x == n
		case *ast.Ident:
			v, ok := u.info.Uses[x].(*types.Var)
			if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || !strings.HasPrefix(v.Pkg().Path(), module) || strings.HasPrefix(v.Pkg().Path(), module+"/pb") {
				return true
			}
			ts := v.Type().String()
			if ts == "error" || strings.HasSuffix(ts, "logrus.Logger") {
				return true
			}
			found = true
		}
		return true
	})
	return found
}

func (u *unit) instrument(ld *loader) ([]byte, int, error) {
	fset, f, src := u.fset, u.f, u.src
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []ins
	add := func(o, e int, t string) { es = append(es, ins{o, e, t, len(es)}) }
	points := 0
	in := u.sharedFuncs(ld)
	id := func(s ast.Node) int { // odd in functions which work on package-level state
		sites += 2
		for _, f := range in {
			if f.Pos() <= s.Pos() && s.Pos() < f.End() {
				return sites + 1
			}
		}
		return sites
	}
	y := func(s ast.Node) string { return fmt.Sprintf("vsimrt__.Y(%d);", id(s)) }

	timeName := ""
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		if ip == "C" {
			return nil, 0, fmt.Errorf("cgo is not simulated")
		}
		if ip == "time" {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
		if to, ok := shims[ip]; ok {
			name := filepath.Base(ip)
			if im.Name != nil {
				add(off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(to))
			} else {
				add(off(im.Path.Pos()), off(im.Path.End()), name+" "+strconv.Quote(to))
			}
		}
	}
	add(off(f.Name.End()), off(f.Name.End()), `; import vsimrt__ "verifsim/simrt"`)

	hot := func(s ast.Node) string { return fmt.Sprintf("vsimrt__.H(%d);", id(s)) }
	list := func(l []ast.Stmt) {
		after := false
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			sh := u.shared(s)
			if sh || after {
				add(off(s.Pos()), off(s.Pos()), hot(s))
				u.hots++
			} else {
				add(off(s.Pos()), off(s.Pos()), y(s))
			}
			after = sh
			points++
		}
	}
	var bad error
	native, two := map[ast.Node]bool{}, map[ast.Node]bool{}
	selects := 0
	usesTime := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
			switch c := x.Comm.(type) { // stays as it is
			case *ast.SendStmt:
				native[c] = true
			case *ast.ExprStmt:
				native[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				native[ast.Unparen(c.Rhs[0])] = true
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.ForStmt:
			add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, y(x.Body))
			points++
		case *ast.RangeStmt:
			if m, c := u.isMap(x.X), u.isChan(x.X); m || c {
				it := "MapIter"
				if c {
					it = "ChanIter"
				}
				u.maps++
				add(off(x.For), off(x.X.Pos()), "for vit__ := vsimrt__."+it+"(")
				add(off(x.X.End()), off(x.X.End()), "); vit__.Next();")
				var l, r []string
				if x.Key != nil {
					if id, ok := x.Key.(*ast.Ident); !ok || id.Name != "_" {
						l, r = append(l, string(src[off(x.Key.Pos()):off(x.Key.End())])), append(r, "vit__.Key()")
					}
				}
				if x.Value != nil {
					if id, ok := x.Value.(*ast.Ident); !ok || id.Name != "_" {
						l, r = append(l, string(src[off(x.Value.Pos()):off(x.Value.End())])), append(r, "vit__.Value()")
					}
				}
				if len(l) > 0 {
					add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, strings.Join(l, ",")+x.Tok.String()+strings.Join(r, ",")+";")
				}
			}
			add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, y(x.Body))
			points++
		case *ast.GoStmt:
			if len(x.Call.Args) == 0 {
				add(off(x.Go), off(x.Call.Pos()), "vsimrt__.Go(")
				// go f() -> Go(f): drop the call parentheses
				add(off(x.Call.Lparen), off(x.Call.Rparen)+1, ")")
			} else {
				// go f(a, b) -> evaluate now, run later
				var names, vals []string
				for i, a := range x.Call.Args {
					names = append(names, fmt.Sprintf("va%d__", i))
					vals = append(vals, string(src[off(a.Pos()):off(a.End())]))
				}
				fn := string(src[off(x.Call.Fun.Pos()):off(x.Call.Fun.End())])
				if x.Call.Ellipsis.IsValid() {
					bad = fmt.Errorf("go statement with variadic spread is not simulated")
				}
				if _, lit := x.Call.Fun.(*ast.FuncLit); lit {
					// keep the literal in place (its body is instrumented)
					add(off(x.Go), off(x.Call.Pos()), "{ vf__ := ")
					add(off(x.Call.Lparen), off(x.Call.Rparen)+1,
						fmt.Sprintf("; %s := %s; vsimrt__.Go(func() { vf__(%s) }) }", strings.Join(names, ","), strings.Join(vals, ","), strings.Join(names, ",")))
				} else {
					add(off(x.Go), off(x.Call.Rparen)+1,
						fmt.Sprintf("{ vf__ := %s; %s := %s; vsimrt__.Go(func() { vf__(%s) }) }", fn, strings.Join(names, ","), strings.Join(vals, ","), strings.Join(names, ",")))
					return false
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 && u.isChan(x.Args[0]) {
				u.maps++
				ty := string(src[off(x.Args[0].Pos()):off(x.Args[0].End())])
				mk := "vsimrt__.Chan(func(n__ int) " + ty + " { return make(" + ty + ", n__) }, "
				if len(x.Args) == 1 {
					add(off(x.Pos()), off(x.Rparen), mk+"0")
					return false
				}
				add(off(x.Pos()), off(x.Args[1].Pos()), mk+"int(")
				add(off(x.Rparen), off(x.Rparen), ")")
			}
		case *ast.LabeledStmt:
			if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
				bad = fmt.Errorf("labelled select at %s is not simulated", fset.Position(sel.Pos()))
			}
		case *ast.SelectStmt:
			u.maps++
			def, sends := false, false
			for _, c := range x.Body.List {
				_, send := c.(*ast.CommClause).Comm.(*ast.SendStmt)
				sends = sends || send
				def = def || c.(*ast.CommClause).Comm == nil
			}
			if sends && def && u.unbuffered() {
				bad = fmt.Errorf("select with send on a channel without buffer at %s is not simulated", fset.Position(x.Pos()))
			}
			if !def {
				selects++
				l := fmt.Sprintf("vsel%d__", selects)
				add(off(x.Pos()), off(x.Pos()), l+": ")
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), "\ndefault: vsimrt__.ChanWait(); goto "+l+"\n")
			}
		case *ast.SendStmt:
			if !native[x] {
				u.maps++
				add(off(x.Pos()), off(x.Pos()), "vsimrt__.To(")
				add(off(x.Arrow), off(x.Arrow)+2, ")(")
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !native[x] {
				u.maps++
				f := "Recv("
				if two[x] {
					f = "Recv2("
				}
				add(off(x.Pos()), off(x.Pos())+2, "vsimrt__."+f)
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName && id.Obj == nil {
				switch x.Sel.Name {
				case "Now", "Since", "Sleep", "After":
					add(off(x.Pos()), off(x.End()), "vsimrt__.Time"+x.Sel.Name)
					usesTime = true
				case "NewTimer", "NewTicker", "Tick", "AfterFunc":
					bad = fmt.Errorf("time.%s is not simulated", x.Sel.Name)
				}
			}
		}
		return true
	})
	if bad != nil {
		return nil, 0, bad
	}
	es = append(es, ins{len(src), len(src), "\nvar _ = vsimrt__.Y\n", len(es)})
	if usesTime {
		es = append(es, ins{len(src), len(src), "\nvar _ " + timeName + ".Duration\n", len(es)})
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].ord < es[j].ord
	})
	var b []byte
	pos := 0
	for _, e := range es {
		if e.off < pos {
			return nil, 0, fmt.Errorf("overlapping rewrites at offset %d", e.off)
		}
		b = append(b, src[pos:e.off]...)
		b = append(b, e.text...)
		pos = e.off
		if e.end > e.off {
			pos = e.end
		}
	}
	b = append(b, src[pos:]...)
	if u.maps > 0 { // generic helpers, the module's language version is not
		b = append([]byte("//go:build go1.21\n\n//line "+u.path+":1\n"), b...)
	}
	return b, points, nil
}
