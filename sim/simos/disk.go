// Package os replaces the standard os package in the code under test: files
// live on a simulated disk, every operation is a scheduling point with a
// latency on the simulated clock, and faults are injected from an explicit
// plan.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	realos "os"
	"sort"
	"syscall"

	"verifsim/simrt"
)

// Fault is one planned fault: the Nth operation (0-based) of kind Op in this
// process life, or of file Path when Path is set, behaves as Kind.
type Fault struct {
	Op     string `json:"op"` // open create read write seek stat close any
	Nth    int    `json:"nth"`
	Path   string `json:"path,omitempty"`
	Kind   string `json:"kind"` // eio enospc eof short torn emfile slow crash
	Arg    int    `json:"arg,omitempty"`
	Sticky bool   `json:"sticky,omitempty"` // every later matching operation fails as well
}

// Spec is the behaviour of the disk in one process life.
type Spec struct {
	Seed      uint64  `json:"seed,omitempty"`
	ShortRead int     `json:"shortRead,omitempty"` // permille of reads returning fewer bytes than asked
	LatMax    int     `json:"latMax,omitempty"`    // microseconds
	Capacity  int64   `json:"capacity,omitempty"`  // bytes; 0 unlimited
	MaxOpen   int     `json:"maxOpen,omitempty"`   // descriptors; 0 unlimited
	Faults    []Fault `json:"faults,omitempty"`
}

type inode struct {
	data []byte
	dir  bool
}

// Event is one completed disk operation.
type Event struct {
	Task int
	Op   string
	Path string
	H    int
	Off  int64
	N    int
	Err  string
}

type Disk struct {
	files   map[string]*inode
	spec    Spec
	rng     *simrt.Rand
	counts  map[string]int
	stuck   []Fault
	open    map[int]*File
	nextH   int
	Fired   map[string]int
	Hard    map[string]int // per path: faults which made an operation fail
	Misuse  []string       // use after close, double close
	Hash    uint64
	Ops     int
	Trace   []Event
	Tracing bool
	Writes  int
	// parts of files which cannot be read
	Bad map[string][]Range
	// per path: most handles open at the same time in this life
	Peak map[string]int
}

// Range is a part of a file.
type Range struct{ Off, Len int64 }

var D *Disk

func NewDisk() *Disk {
	return &Disk{files: map[string]*inode{}, Fired: map[string]int{}, Hard: map[string]int{}, Bad: map[string][]Range{}}
}

// Boot starts a new process life on the disk: no open handles, fresh fault
// counters.
func (d *Disk) Boot(sp Spec) {
	d.spec = sp
	d.rng = simrt.NewRand(simrt.Mix(sp.Seed, 0xd15c))
	d.counts = map[string]int{}
	d.stuck = nil
	d.open = map[int]*File{}
	d.nextH = 0
	d.Peak = map[string]int{}
	d.Misuse = nil
	d.Trace = nil
	d.Ops = 0
	D = d
}

func (d *Disk) Put(path string, b []byte) {
	d.files[path] = &inode{data: append([]byte(nil), b...)}
}

// Drop removes a path. Open handles keep their file.
func (d *Disk) Drop(path string) {
	delete(d.files, path)
}

func (d *Disk) Get(path string) ([]byte, bool) {
	n, ok := d.files[path]
	if !ok {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

func (d *Disk) Size(path string) (int64, bool) {
	n, ok := d.files[path]
	if !ok {
		return 0, false
	}
	return int64(len(n.data)), true
}

// Patch overwrites stored bytes, also under open handles.
func (d *Disk) Patch(path string, off int64, b []byte) {
	if f, ok := d.files[path]; ok {
		f.data = append([]byte(nil), f.data...)
		copy(f.data[off:], b)
	}
}

func (d *Disk) Truncate(path string, n int) {
	if f, ok := d.files[path]; ok && n < len(f.data) {
		f.data = append([]byte(nil), f.data[:n]...)
	}
}

// Open handles, sorted, as "h3 path".
func (d *Disk) OpenHandles() []string {
	var hs []int
	for h := range d.open {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	var r []string
	for _, h := range hs {
		r = append(r, fmt.Sprintf("handle %d on %s", h, d.open[h].name))
	}
	return r
}

// Held is the memory the disk itself takes.
func (d *Disk) Held() int64 {
	var n int64
	for _, f := range d.files {
		n += int64(cap(f.data))
	}
	return n
}

func (d *Disk) used() int64 {
	var n int64
	for _, f := range d.files {
		n += int64(len(f.data))
	}
	return n
}

func (d *Disk) fire(k string) { d.Fired[k]++ }

func (d *Disk) hard(path, k string) {
	d.Fired[k]++
	d.Hard[path]++
}

// Clone copies the files; counters start anew.
func (d *Disk) Clone() *Disk {
	n := NewDisk()
	for p, f := range d.files {
		n.files[p] = &inode{data: append([]byte(nil), f.data...)}
	}
	return n
}

// Paths of all files, sorted.
func (d *Disk) Paths() []string {
	var ps []string
	for p := range d.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// Counts returns how many operations of each kind were issued in this life.
func (d *Disk) Counts() map[string]int { return d.counts }

// begin accounts for one operation, lets the simulated device take its time
// and returns the fault planned for it, if any.
func (d *Disk) begin(op, path string) *Fault {
	var hit *Fault
	for _, k := range []string{op, op + "\x00" + path, "any"} {
		n := d.counts[k]
		d.counts[k] = n + 1
		for i := range d.spec.Faults {
			f := &d.spec.Faults[i]
			key := f.Op
			if f.Path != "" {
				key += "\x00" + f.Path
			}
			if key == k && f.Nth == n && hit == nil {
				hit = f
			}
		}
	}
	if hit == nil {
		for i := range d.stuck {
			f := &d.stuck[i]
			if (f.Op == op || f.Op == "any") && (f.Path == "" || f.Path == path) {
				hit = f
				break
			}
		}
	} else if hit.Sticky {
		d.stuck = append(d.stuck, *hit)
	}
	d.Ops++
	lat := int64(1000)
	if d.spec.LatMax > 0 {
		lat += int64(d.rng.Intn(d.spec.LatMax)) * 1000
	}
	if hit != nil && hit.Kind == "slow" {
		d.fire("slow-" + op)
		lat += int64(hit.Arg) * 1_000_000
		hit = nil
	}
	simrt.Sleep(lat)
	if simrt.Crashing() {
		return nil
	}
	if hit != nil && hit.Kind == "crash" && op != "write" {
		d.fire("crash-" + op)
		simrt.Crash()
	}
	return hit
}

func (d *Disk) end(op, path string, h int, off int64, n int, err error) {
	es := ""
	if err != nil {
		es = err.Error()
	}
	t := -1
	if c := simrt.Current(); c != nil {
		t = c.ID
	}
	var hs uint64
	for i := 0; i < len(op); i++ {
		hs = hs*131 + uint64(op[i])
	}
	for i := 0; i < len(path); i++ {
		hs = hs*131 + uint64(path[i])
	}
	for i := 0; i < len(es); i++ {
		hs = hs*131 + uint64(es[i])
	}
	d.Hash = simrt.Mix(d.Hash, hs, uint64(t), uint64(h), uint64(off), uint64(n), uint64(simrt.Now()))
	if d.Tracing && len(d.Trace) < 20000 {
		d.Trace = append(d.Trace, Event{t, op, path, h, off, n, es})
	}
}

var errFor = map[string]error{
	"eio": syscall.EIO, "enospc": syscall.ENOSPC, "emfile": syscall.EMFILE, "eacces": syscall.EACCES,
	"torn": syscall.EIO, "short": syscall.ENOSPC, "enoent": syscall.ENOENT,
}

func faultErr(f *Fault) error {
	if e, ok := errFor[f.Kind]; ok {
		return e
	}
	return syscall.EIO
}

// File mirrors *os.File.
type File struct {
	name   string
	h      int
	ino    *inode
	off    int64
	rd, wr bool
	app    bool
	closed bool
}

func (d *Disk) openFile(op, name string, flag int) (*File, error) {
	if simrt.Crashing() {
		return nil, &PathError{Op: "open", Path: name, Err: syscall.EIO}
	}
	f := d.begin(op, name)
	fail := func(e error) (*File, error) {
		err := &PathError{Op: "open", Path: name, Err: e}
		d.end(op, name, -1, 0, 0, err)
		return nil, err
	}
	if f != nil {
		d.hard(name, op+"-"+f.Kind)
		return fail(faultErr(f))
	}
	if d.spec.MaxOpen > 0 && len(d.open) >= d.spec.MaxOpen {
		d.hard(name, op+"-emfile")
		return fail(syscall.EMFILE)
	}
	ino, ok := d.files[name]
	if !ok {
		if flag&O_CREATE == 0 {
			return fail(syscall.ENOENT)
		}
		ino = &inode{}
		d.files[name] = ino
	} else if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return fail(syscall.EEXIST)
	}
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	if flag&O_TRUNC != 0 {
		ino.data = nil
	}
	h := d.nextH
	d.nextH++
	fl := &File{name: name, h: h, ino: ino, rd: acc != O_WRONLY, wr: acc != O_RDONLY, app: flag&O_APPEND != 0}
	d.open[h] = fl
	n := 0
	for _, o := range d.open {
		if o.name == name {
			n++
		}
	}
	d.Peak[name] = max(d.Peak[name], n)
	d.end(op, name, h, 0, 0, nil)
	return fl, nil
}

func (f *File) pe(op string, e error) error { return &PathError{Op: op, Path: f.name, Err: e} }

// check reports a handle used after it was closed.
func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		D.Misuse = append(D.Misuse, fmt.Sprintf("%s on closed handle %d of %s", op, f.h, f.name))
		return f.pe(op, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.h + 3) }

func (f *File) readAt(op string, p []byte, off int64) (int, error) {
	if err := f.check(op); err != nil {
		return 0, err
	}
	if simrt.Crashing() {
		return 0, f.pe(op, syscall.EIO)
	}
	d := D
	ft := d.begin("read", f.name)
	done := func(n int, err error) (int, error) {
		d.end("read", f.name, f.h, off, n, err)
		return n, err
	}
	if f.closed {
		return done(0, f.pe(op, ErrClosed))
	}
	if !f.rd {
		return done(0, f.pe(op, syscall.EBADF))
	}
	if len(p) == 0 {
		return done(0, nil)
	}
	if ft != nil {
		switch ft.Kind {
		case "eof":
			d.hard(f.name, "read-eof")
			return done(0, io.EOF)
		case "short": // partial data, no error
			if off < int64(len(f.ino.data)) {
				d.fire("read-short")
				n := copy(p, f.ino.data[off:])
				if n > 1 {
					k := 1 + ft.Arg%(n-1)
					for i := k; i < n; i++ {
						p[i] = 0xA5
					}
					n = k
				}
				return done(n, nil)
			}
		default:
			d.hard(f.name, "read-"+ft.Kind)
			return done(0, f.pe(op, faultErr(ft)))
		}
	}
	if off >= int64(len(f.ino.data)) {
		return done(0, io.EOF)
	}
	for _, b := range d.Bad[f.name] {
		switch {
		case off >= b.Off && off < b.Off+b.Len:
			d.hard(f.name, "read-badsector")
			return done(0, f.pe(op, syscall.EIO))
		case off < b.Off && off+int64(len(p)) > b.Off: // up to the bad sector
			p = p[:b.Off-off]
			d.fire("read-partial")
		}
	}
	want := len(p)
	if d.spec.ShortRead > 0 && want > 1 && d.rng.Pm(d.spec.ShortRead) {
		want = 1 + d.rng.Intn(want-1)
		d.fire("read-partial")
	}
	n := copy(p[:want], f.ino.data[off:])
	return done(n, nil)
}

func (f *File) Read(p []byte) (int, error) {
	n, err := f.readAt("read", p, f.offset())
	if n > 0 {
		f.off += int64(n)
	}
	return n, err
}

func (f *File) offset() int64 {
	if f == nil {
		return 0
	}
	return f.off
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, f.pe("readat", errors.New("negative offset"))
	}
	n := 0
	for n < len(p) {
		m, err := f.readAt("read", p[n:], off+int64(n))
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) put(b []byte, off int64) {
	end := off + int64(len(b))
	if end > int64(len(f.ino.data)) {
		if end > int64(cap(f.ino.data)) {
			nd := make([]byte, len(f.ino.data), end*2)
			copy(nd, f.ino.data)
			f.ino.data = nd
		}
		old := len(f.ino.data)
		f.ino.data = f.ino.data[:end]
		for i := old; i < int(off); i++ {
			f.ino.data[i] = 0
		}
	}
	copy(f.ino.data[off:], b)
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if simrt.Crashing() {
		return 0, f.pe("write", syscall.EIO)
	}
	d := D
	ft := d.begin("write", f.name)
	d.Writes++
	done := func(n int, err error) (int, error) {
		d.end("write", f.name, f.h, off, n, err)
		return n, err
	}
	if f.closed {
		return done(0, f.pe("write", ErrClosed))
	}
	if !f.wr {
		return done(0, f.pe("write", syscall.EBADF))
	}
	if f.app {
		off = int64(len(f.ino.data))
	}
	if ft != nil {
		k := 0
		switch ft.Kind {
		case "short", "torn", "crash":
			if len(b) > 0 {
				k = ft.Arg % (len(b) + 1)
			}
		}
		if ft.Kind != "crash" && k == len(b) && k > 0 {
			k--
		}
		f.put(b[:k], off)
		d.hard(f.name, "write-"+ft.Kind)
		if ft.Kind == "crash" {
			d.end("write", f.name, f.h, off, k, nil)
			simrt.Crash()
		}
		return done(k, f.pe("write", faultErr(ft)))
	}
	if d.spec.Capacity > 0 {
		room := d.spec.Capacity - d.used()
		grow := off + int64(len(b)) - int64(len(f.ino.data))
		if grow > room {
			k := len(b) - int(grow-room)
			if k < 0 {
				k = 0
			}
			f.put(b[:k], off)
			d.hard(f.name, "write-diskfull")
			return done(k, f.pe("write", syscall.ENOSPC))
		}
	}
	f.put(b, off)
	return done(len(b), nil)
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	off := f.off
	if f.app && f.ino != nil {
		off = int64(len(f.ino.data))
	}
	n, err := f.writeAt(b, off)
	f.off = off + int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f != nil && f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	return f.writeAt(b, off)
}

func (f *File) simple(op, kind string) error {
	if err := f.check(op); err != nil {
		return err
	}
	if simrt.Crashing() {
		return f.pe(op, syscall.EIO)
	}
	if ft := D.begin(kind, f.name); ft != nil {
		D.hard(f.name, kind+"-"+ft.Kind)
		err := f.pe(op, faultErr(ft))
		D.end(kind, f.name, f.h, 0, 0, err)
		return err
	}
	if f.closed {
		return f.pe(op, ErrClosed)
	}
	D.end(kind, f.name, f.h, 0, 0, nil)
	return nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.simple("seek", "seek"); err != nil {
		return 0, err
	}
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = f.off
	case io.SeekEnd:
		base = int64(len(f.ino.data))
	default:
		return 0, f.pe("seek", syscall.EINVAL)
	}
	if base+offset < 0 {
		return 0, f.pe("seek", syscall.EINVAL)
	}
	f.off = base + offset
	return f.off, nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.simple("stat", "stat"); err != nil {
		return nil, err
	}
	return info{f.name, int64(len(f.ino.data)), f.ino}, nil
}

func (f *File) Sync() error               { return f.simple("sync", "sync") }
func (f *File) Chmod(FileMode) error      { return f.simple("chmod", "sync") }
func (f *File) SyscallConn() (any, error) { return nil, errors.New("not simulated") }

func (f *File) Truncate(n int64) error {
	if err := f.simple("truncate", "write"); err != nil {
		return err
	}
	if n <= int64(len(f.ino.data)) {
		f.ino.data = f.ino.data[:n]
	} else {
		f.put(nil, n)
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if err := f.check("close"); err != nil {
		return err
	}
	if simrt.Crashing() {
		f.closed = true
		return nil
	}
	ft := D.begin("close", f.name)
	if f.closed {
		return f.pe("close", ErrClosed)
	}
	// as on Linux the descriptor is gone even when close reports an error
	f.closed = true
	delete(D.open, f.h)
	if ft != nil {
		D.hard(f.name, "close-"+ft.Kind)
		err := f.pe("close", faultErr(ft))
		D.end("close", f.name, f.h, 0, 0, err)
		return err
	}
	D.end("close", f.name, f.h, 0, 0, nil)
	return nil
}

type info struct {
	name string
	size int64
	ino  *inode
}

// SameFile tells whether both describe the same stored file.
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.ino == y.ino
}

func (i info) Name() string      { return i.name }
func (i info) Size() int64       { return i.size }
func (i info) Mode() fs.FileMode { return 0o644 }
func (i info) ModTime() (t Time) { return }
func (i info) IsDir() bool       { return false }
func (i info) Sys() interface{}  { return nil }

// --- package level API ---

func Open(name string) (*File, error)   { return D.openFile("open", name, O_RDONLY) }
func Create(name string) (*File, error) { return D.openFile("create", name, O_RDWR|O_CREATE|O_TRUNC) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&O_CREATE != 0 {
		return D.openFile("create", name, flag)
	}
	return D.openFile("open", name, flag)
}

func Stat(name string) (FileInfo, error) {
	if ft := D.begin("stat", name); ft != nil {
		D.hard(name, "stat-"+ft.Kind)
		return nil, &PathError{Op: "stat", Path: name, Err: faultErr(ft)}
	}
	n, ok := D.files[name]
	if !ok {
		return nil, &PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return info{name, int64(len(n.data)), n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	if ft := D.begin("remove", name); ft != nil {
		D.hard(name, "remove-"+ft.Kind)
		return &PathError{Op: "remove", Path: name, Err: faultErr(ft)}
	}
	if _, ok := D.files[name]; !ok {
		return &PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	delete(D.files, name)
	return nil
}

func Rename(from, to string) error {
	if ft := D.begin("rename", from); ft != nil {
		D.hard(from, "rename-"+ft.Kind)
		return &PathError{Op: "rename", Path: from, Err: faultErr(ft)}
	}
	n, ok := D.files[from]
	if !ok {
		return &PathError{Op: "rename", Path: from, Err: syscall.ENOENT}
	}
	delete(D.files, from)
	D.files[to] = n
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func MkdirAll(string, FileMode) error { return nil }
func Mkdir(string, FileMode) error    { return nil }
func TempDir() string                 { return "/tmp" }
func Getpid() int                     { return 4242 }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Hostname() (string, error)       { return "sim", nil }
func Getwd() (string, error)          { return "/", nil }
func Exit(code int)                   { panic(fmt.Sprintf("os.Exit(%d) called", code)) }

func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		n := fmt.Sprintf("%s/%s%d", dir, pattern, i)
		if _, ok := D.files[n]; !ok {
			return OpenFile(n, O_RDWR|O_CREATE|O_EXCL, 0o600)
		}
	}
}

var (
	Stdin  = realos.Stdin
	Stdout = realos.Stdout
	Stderr = realos.Stderr
	Args   = []string{"sim"}
)
