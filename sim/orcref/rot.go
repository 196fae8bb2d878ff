package orcref

import (
	"bytes"
	"compress/flate"
)

// Rot damages one item while a file is encoded: the Site-th number or stream
// (counted as they are encoded) is replaced by something else. Unlike flipped
// bytes of the finished file this gets past compression and framing.
type Rot struct {
	Site int    `json:"site"`
	Arg  uint64 `json:"arg"`
	Bomb bool   `json:"bomb,omitempty"` // one chunk of the stream inflates to very much
}

var (
	rotten   []Rot
	rotAt    int
	semantic []int
	frames   []int
)

// Sites counts the places where a file can rot, and lists those where whole
// sequences of values do and those which are whole streams.
func Sites(t *Type, rows []Val, o EncOpts) (int, []int, []int) {
	o.Rot = nil
	semantic, frames = nil, nil
	Encode(t, rows, o)
	return rotAt, semantic, frames
}

// BombBytes is the length of a chunk which inflates to 700 MB.
const BombBytes = 750_000

var bombs [256][]byte

// bomb is deflated data, about a thousandth of what it inflates to.
func bomb(c byte) []byte {
	if bombs[c] == nil {
		var z bytes.Buffer
		w, _ := flate.NewWriter(&z, 9)
		mega := bytes.Repeat([]byte{c}, 1<<20)
		w.Write(mega)
		w.Flush()
		first := z.Len()
		w.Write(mega)
		w.Flush()
		again := append([]byte(nil), z.Bytes()[first:]...)
		z.Truncate(first)
		for i := 0; i < 699; i++ {
			z.Write(again)
		}
		z.Write([]byte{1, 0, 0, 0xff, 0xff})
		if z.Len() > BombBytes {
			panic("harness: bomb too large")
		}
		bombs[c] = z.Bytes()
	}
	return bombs[c]
}

// bombHere returns the chunk to put into the stream framed now.
func bombHere() []byte {
	frames = append(frames, rotAt)
	for _, r := range rotten {
		if r.Site == rotAt && r.Bomb {
			b := bomb([]byte{0, 0xff, 0x80, 'a'}[r.Arg%4])
			h := len(b) << 1
			return append([]byte{byte(h), byte(h >> 8), byte(h >> 16)}, b...)
		}
	}
	return nil
}

// rotVals changes one of the numbers of a stream, most often to one which is
// just right or just wrong: limit is the first number out of bounds, if any.
func rotVals(vs []int64, limit int64) []int64 {
	semantic = append(semantic, rotAt)
	a, ok := rotHere()
	if !ok || len(vs) == 0 {
		return vs
	}
	r := &rnd{a}
	vs = append([]int64(nil), vs...)
	at := r.n(len(vs))
	if r.n(3) == 0 {
		at = len(vs) - 1 - r.n(3)%len(vs)
	}
	v := vs[at]
	switch r.n(10) {
	case 0:
		v = limit
	case 1:
		v = limit - 1
	case 2:
		v = limit + 1
	case 3, 4:
		v++
	case 5, 6:
		v--
	case 7:
		v = -v - 1
	case 8:
		v = int64(rotInt(r.next()))
	case 9: // many
		for i := range vs {
			if r.n(3) == 0 {
				vs[i] += int64(r.n(3)) - 1
			}
		}
		v = vs[at]
	}
	vs[at] = v
	return vs
}

// rotGaps moves one patch of a run of k values.
func rotGaps(gaps []int, k int) []int {
	semantic = append(semantic, rotAt)
	a, ok := rotHere()
	if !ok || len(gaps) == 0 {
		return gaps
	}
	r := &rnd{a}
	gaps = append([]int(nil), gaps...)
	sum := 0
	for _, g := range gaps {
		sum += g
	}
	last := len(gaps) - 1
	switch r.n(5) {
	case 0, 1: // the last one just beyond the end
		if g := gaps[last] + k - sum; g >= 0 && g < 256 {
			gaps[last] = g
		}
	case 2:
		if g := gaps[last] + k - 1 - sum; g >= 0 && g < 256 {
			gaps[last] = g
		}
	case 3:
		gaps[r.n(len(gaps))] = r.n(256)
	case 4:
		if i := r.n(len(gaps)); gaps[i] < 255 {
			gaps[i]++
		}
	}
	return gaps
}

func rotInt(b uint64) uint64 {
	switch (b >> 8) % 6 {
	case 0:
		return 1<<63 - 1
	case 1:
		return 1 << 63
	case 2:
		return 1<<31 - 1 + (b>>20)%3
	case 3:
		return 1<<32 - 1 + (b>>20)%3
	case 4:
		return 1 << (b % 64)
	}
	return b >> (b % 64)
}

func rotHere() (uint64, bool) {
	at := rotAt
	rotAt++
	for _, r := range rotten {
		if r.Site == at && !r.Bomb {
			return r.Arg, true
		}
	}
	return 0, false
}

func rotUint(v uint64) uint64 {
	a, ok := rotHere()
	if !ok {
		return v
	}
	b := a >> 4
	switch a % 16 {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return v + 1
	case 3:
		return v - 1
	case 4:
		return 1<<31 - 1
	case 5:
		return 1 << 31
	case 6:
		return 1<<32 + b%3
	case 7:
		return 1<<63 - 1
	case 8:
		return 1 << 63
	case 9:
		return 1<<64 - 1 - b%200
	case 10:
		return v * 2
	case 11:
		return v / 2
	case 12:
		return v ^ 1<<(b%64)
	case 13:
		return b % 20
	case 14:
		return b % 3000
	}
	return 1 << (b % 64)
}

func rotBytes(p []byte) []byte {
	a, ok := rotHere()
	if !ok {
		return p
	}
	r := &rnd{a}
	b := append([]byte(nil), p...)
	for i := 1 + r.n(4); i > 0; i-- {
		if len(b) == 0 {
			return []byte{byte(r.next())}
		}
		at := r.n(len(b))
		switch r.n(8) {
		case 0:
			b[at] ^= 1 << uint(r.n(8))
		case 1:
			b[at] = byte(r.next())
		case 2:
			b[at] = 0xff
		case 3: // a number which goes on and on
			for j := at; j < len(b) && j < at+1+r.n(12); j++ {
				b[j] |= 0x80
			}
		case 4:
			b = b[:at]
		case 5:
			b = append(b, byte(r.next()))
		case 6:
			for j := at; j < len(b) && j < at+1+r.n(12); j++ {
				b[j] = byte(r.next())
			}
		case 7: // something is missing
			n := 1 + r.n(len(b)-at)
			b = append(b[:at], b[at+n:]...)
		}
	}
	return b
}
