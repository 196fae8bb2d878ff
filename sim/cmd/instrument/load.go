package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
)

const module = "github.com/patrickhuang888/goorc"

type parsed struct {
	f    *ast.File
	info *types.Info
}

// loader type-checks the module's packages: the instrumenter needs to know
// which range statements iterate over a map and which identifiers are
// package-level variables.
type loader struct {
	fset  *token.FileSet
	files map[string]*parsed
	named map[string]bool // functions which mention package-level state
}

func load(repo string) *loader {
	ld := &loader{fset: token.NewFileSet(), files: map[string]*parsed{}}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", module+"/orc/...")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = os.Stderr
	if err := cmd.Run(); err != nil {
		fmt.Fprintf(os.Stderr, "instrument: go list: %v\n", err)
		return ld
	}
	type pkg struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	exports := map[string]string{}
	var own []pkg
	dec := json.NewDecoder(&out)
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintf(os.Stderr, "instrument: go list: %v\n", err)
			return ld
		}
		exports[p.ImportPath] = p.Export
		if len(p.ImportPath) >= len(module) && p.ImportPath[:len(module)] == module {
			own = append(own, p)
		}
	}
	imp := importer.ForCompiler(ld.fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	for _, p := range own {
		info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
		var fs []*ast.File
		ok := true
		for _, n := range p.GoFiles {
			path := filepath.Join(p.Dir, n)
			f, err := parser.ParseFile(ld.fset, path, nil, parser.ParseComments)
			if err != nil {
				ok = false
				break
			}
			fs = append(fs, f)
			ld.files[path] = &parsed{f, info}
		}
		if !ok {
			continue
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, ld.fset, fs, info)
	}
	return ld
}

// findShared finds the functions which mention package-level state.
func (ld *loader) findShared() {
	ld.named = map[string]bool{}
	for _, pf := range ld.files {
		u := &unit{fset: ld.fset, f: pf.f, info: pf.info}
		for _, d := range pf.f.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil || !u.mentions(f.Body) {
				continue
			}
			if o, ok := pf.info.Defs[f.Name].(*types.Func); ok {
				ld.named[o.FullName()] = true
			}
		}
	}
}

// sharedFuncs lists the functions of the file which mention package-level state
// or call one that does, and may work on what it returns.
func (u *unit) sharedFuncs(ld *loader) (fs []*ast.FuncDecl) {
	if u.info == nil {
		return nil
	}
	for _, d := range u.f.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			continue
		}
		found := false
		ast.Inspect(f.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := u.info.Uses[id].(*types.Func); ok && ld.named[o.FullName()] {
					found = true
				}
			}
			return !found
		})
		if found || u.mentions(f.Body) {
			fs = append(fs, f)
		}
	}
	return
}
