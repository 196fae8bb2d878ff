package dst

import (
	"encoding/json"

	ref "verifsim/orcref"
	os "verifsim/simos"
	"verifsim/simrt"
)

// Plan is one simulated run in full: the data, the processes' lives, every
// operation, the schedule and the faults. Executing a plan is deterministic.
type Plan struct {
	Prop  string     `json:"property"`
	Seed  uint64     `json:"seed"`
	Files []FileSpec `json:"files"`
	Lives []Life     `json:"lives"`
	Note  string     `json:"note,omitempty"`
	Mem   int        `json:"mem,omitempty"` // MB one call may allocate, if less than usual
}

// FileSpec is one path on the simulated disk.
type FileSpec struct {
	Path string       `json:"path"`
	Data *Data        `json:"data"`
	W    *WOpts       `json:"writer,omitempty"`  // written by goorc
	F    *ref.EncOpts `json:"foreign,omitempty"` // written by another implementation
	Pre  bool         `json:"pre,omitempty"`     // exists before the first life
	Same int          `json:"same,omitempty"`    // C15: group of files which must be identical
	Junk int          `json:"junk,omitempty"`    // bytes of something else at the path before
	Was  *Data        `json:"was,omitempty"`     // the rows of another complete file at the path before
	Bad  []BadSpec    `json:"bad,omitempty"`     // what a "break" operation does to the stored file
}

// BadSpec makes part of the streams of one column in one stripe unreadable
// (Kind "") or overwrites it (Kind fill, rand or flip).
type BadSpec struct {
	Col    int    `json:"col"`
	Stripe int    `json:"stripe"`
	Kind   string `json:"kind,omitempty"`
	Stream int    `json:"stream"` // which of the column's streams, modulo their number
	At     int    `json:"at"`     // permille of the stream
	Len    int    `json:"len"`    // bytes
	Arg    uint64 `json:"arg,omitempty"`
}

// Life is one process life on the disk.
type Life struct {
	Disk  os.Spec         `json:"disk"`
	Sched simrt.SchedSpec `json:"sched"`
	Setup []Op            `json:"setup,omitempty"`
	Tasks [][]Op          `json:"tasks"`
	// damage before this life starts
	Damage []Damage `json:"damage,omitempty"`
}

// Damage changes a stored file. Kind "": the effect of a power failure:
// everything after Len is lost and the last Zero bytes read as zeros. Other
// kinds damage Zero bytes at Len.
type Damage struct {
	F    int    `json:"f"`
	Len  int    `json:"len"` // bytes from the end if negative
	Zero int    `json:"zero,omitempty"`
	Kind string `json:"kind,omitempty"` // flip, fill, rand, del, dup, swap
	Arg  uint64 `json:"arg,omitempty"`
}

// Op is one call of the public API.
type Op struct {
	K   string `json:"k"`
	F   int    `json:"f,omitempty"`
	H   int    `json:"h,omitempty"`
	R   int    `json:"r,omitempty"`
	N   int    `json:"n,omitempty"`
	C   int    `json:"c,omitempty"`
	Inc []int  `json:"inc,omitempty"`
	Mut int    `json:"mut,omitempty"`
	// Miss is a misuse: what is wrong with the arguments of the call (see
	// misuse.go); Arg says where
	Miss string `json:"miss,omitempty"`
	Arg  uint64 `json:"arg,omitempty"`
}

func (p *Plan) Clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Violation is one broken expectation.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Life  int    `json:"life"`
	Task  int    `json:"task"`
	Op    int    `json:"op"`
}

// Outcome is what one execution showed.
// Scan is what reading a file from start to end showed, without regard to how
// the rows came in batches.
type Scan struct {
	F, Life int
	Rows    int
	Digest  uint64
	Fate    string
}

type Outcome struct {
	Viol     []Violation
	Skipped  string
	Hash     uint64
	Steps    uint64
	MaxOp    uint64
	Clock    int64
	Switches uint64
	SwHash   uint64
	DiskOps  int
	Runs     int
	Fired    map[string]int
	Probe    map[string]int
	Trans    map[string][]string
	Files    map[string]string
	Scans    []Scan
	Recorded [][]simrt.Switch
	Counts   []map[string]int
	Crashed  int
}

func (o *Outcome) merge(x *Outcome) {
	o.Steps += x.Steps
	if x.MaxOp > o.MaxOp {
		o.MaxOp = x.MaxOp
	}
	o.Clock += x.Clock
	o.Switches += x.Switches
	o.DiskOps += x.DiskOps
	o.Runs += x.Runs
	o.Crashed += x.Crashed
	o.Hash = simrt.Mix(o.Hash, x.Hash)
	o.SwHash = simrt.Mix(o.SwHash, x.SwHash)
	for k, v := range x.Fired {
		o.Fired[k] += v
	}
	for k, v := range x.Probe {
		o.Probe[k] += v
	}
}
