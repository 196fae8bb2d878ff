// Package orcref is an independent reading of the ORC specification: a strict
// decoder and an adversarial encoder written without using any goorc code.
package orcref

import (
	"fmt"
	"math"
	"strings"
)

type Kind int

const (
	Boolean Kind = iota
	Byte
	Short
	Int
	Long
	Float
	Double
	String
	Binary
	Timestamp
	List
	Map
	Struct
	Union
	Decimal
	Date
	Varchar
	Char
)

var kindNames = []string{"boolean", "byte", "short", "int", "long", "float", "double", "string", "binary", "timestamp", "list", "map", "struct", "union", "decimal", "date", "varchar", "char"}

// Text reports whether values are strings.
func (k Kind) Text() bool {
	return k == String || k == Varchar || k == Char
}

func (k Kind) String() string {
	if int(k) < len(kindNames) && k >= 0 {
		return kindNames[k]
	}
	return fmt.Sprint("kind", int(k))
}

// Type is one node of a schema. Nulls: the column may hold nulls.
type Type struct {
	Kind  Kind     `json:"k"`
	Nulls bool     `json:"n,omitempty"`
	Dict  bool     `json:"d,omitempty"` // strings: dictionary encoding
	Seed  uint64   `json:"s,omitempty"` // of the generated values
	Names []string `json:"-"`
	Kids  []*Type  `json:"c,omitempty"`
	ID    int      `json:"-"`
	End   int      `json:"-"` // id after the last descendant
}

// Number sets ids in pre-order and default field names.
func (t *Type) Number() []*Type {
	var all []*Type
	var walk func(t *Type)
	walk = func(t *Type) {
		t.ID = len(all)
		all = append(all, t)
		t.Names = nil
		for i, c := range t.Kids {
			if t.Kind == Struct {
				t.Names = append(t.Names, fmt.Sprintf("f%d", i))
			}
			walk(c)
		}
		t.End = len(all)
	}
	walk(t)
	return all
}

func (t *Type) String() string {
	var sb strings.Builder
	sb.WriteString(t.Kind.String())
	if t.Dict {
		sb.WriteString("/dict")
	}
	if t.Nulls {
		sb.WriteString("?")
	}
	if len(t.Kids) > 0 {
		sb.WriteString("<")
		for i, c := range t.Kids {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(c.String())
		}
		sb.WriteString(">")
	}
	return sb.String()
}

// Val is one value: nil (null), bool, int64 (byte..long, date), F32, F64,
// string (string), Bytes (binary), Dec, TS, []Val (struct), ListV, MapV.
type Val interface{}

type F32 uint32
type F64 uint64
type Bytes string
type Dec struct{ P, S int64 }
type TS struct {
	S int64
	N uint64
}
type ListV []Val
type MapV struct{ K, V []Val }

func Equal(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case []Val:
		y, ok := b.([]Val)
		return ok && eqList(x, y)
	case ListV:
		y, ok := b.(ListV)
		return ok && eqList(x, y)
	case MapV:
		y, ok := b.(MapV)
		return ok && eqList(x.K, y.K) && eqList(x.V, y.V)
	}
	switch b.(type) {
	case []Val, ListV, MapV:
		return false
	}
	return a == b
}

func eqList(x, y []Val) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !Equal(x[i], y[i]) {
			return false
		}
	}
	return true
}

func Format(v Val) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case []Val:
		return "{" + fmtList(x) + "}"
	case ListV:
		return "[" + fmtList(x) + "]"
	case MapV:
		return "map(" + fmtList(x.K) + " -> " + fmtList(x.V) + ")"
	case F32:
		return fmt.Sprintf("%g(0x%08x)", math.Float32frombits(uint32(x)), uint32(x))
	case F64:
		return fmt.Sprintf("%g(0x%016x)", math.Float64frombits(uint64(x)), uint64(x))
	case string:
		return clip(fmt.Sprintf("%q", x))
	case Bytes:
		return clip(fmt.Sprintf("0x%x", string(x)))
	}
	return fmt.Sprint(v)
}

func clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s…(%d)", s[:60], len(s))
	}
	return s
}

func fmtList(x []Val) string {
	var ss []string
	for i, v := range x {
		if i == 8 {
			ss = append(ss, fmt.Sprintf("…%d", len(x)))
			break
		}
		ss = append(ss, Format(v))
	}
	return strings.Join(ss, ",")
}

// Project keeps the included columns of a row.
func Project(t *Type, v Val, inc map[int]bool) Val {
	if v == nil || inc == nil {
		return v
	}
	if t.Kind == Struct {
		x := v.([]Val)
		var r []Val
		for i, c := range t.Kids {
			if inc[c.ID] {
				r = append(r, Project(c, x[i], inc))
			}
		}
		return r
	}
	return v
}

// ProjectType is the schema of projected rows.
func ProjectType(t *Type, inc map[int]bool) *Type {
	if inc == nil {
		return t
	}
	n := *t
	if t.Kind == Struct {
		n.Kids, n.Names = nil, nil
		for i, c := range t.Kids {
			if inc[c.ID] {
				n.Kids = append(n.Kids, ProjectType(c, inc))
				n.Names = append(n.Names, t.Names[i])
			}
		}
	}
	return &n
}
