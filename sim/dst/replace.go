package dst

import (
	os "verifsim/simos"
)

// replace gives a path another content, as renaming another file to it does,
// or none. Files which are open at that time stay what they are.
func (t *task) replace(op *Op) {
	e := t.e
	path := e.p.Files[op.F].Path
	was := e.content(op.F)
	switch op.K {
	case "remove":
		e.at[op.F] = -1
		os.D.Drop(path)
	case "replace":
		e.at[op.F] = op.N
		os.D.Put(path, []byte(e.full[op.N]))
	case "spoil": // only a part of it, or something else
		e.at[op.F] = -2
		b := []byte(was)
		switch {
		case op.C == 0 || len(b) < 16:
			b = make([]byte, op.N)
		case op.C == 1:
			b = b[:len(b)-1-op.N%(len(b)-1)]
		default:
			b = b[1+op.N%(len(b)-1):]
			if len(b) > 0 { // postscript length
				b[len(b)-1]++
			}
		}
		e.spoiled[op.F] = string(b)
		os.D.Put(path, b)
	}
	e.gen[op.F]++
	e.o.Fired["path-"+op.K]++
	t.log("%s", op.K)
}

// content is what should be at the path.
func (e *env) content(f int) string {
	switch c := e.at[f]; c {
	case -1:
		return ""
	case -2:
		return e.spoiled[f]
	default:
		return e.full[c]
	}
}

// untouched checks that the disk holds what was put there, and nothing else.
func (e *env) untouched(d *os.Disk) {
	viol := func(msg string) {
		e.o.Viol = append(e.o.Viol, Violation{Class: "modified", Msg: msg, Life: e.life, Task: -2})
	}
	known := map[string]bool{}
	for i := range e.p.Files {
		path := e.p.Files[i].Path
		known[path] = true
		b, ok := d.Get(path)
		switch {
		case ok != (e.at[i] != -1):
			viol(path + map[bool]string{true: " appeared", false: " disappeared"}[ok])
		case ok && string(b) != e.content(i):
			viol("content of " + path + " has changed")
		}
	}
	for _, path := range d.Paths() {
		if !known[path] {
			viol(path + " was created")
		}
	}
}
