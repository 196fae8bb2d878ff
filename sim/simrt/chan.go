package simrt

import (
	"runtime"
	"sync"
	"time"
)

// Channels of the code under test stay Go channels; operations that would
// block poll instead, because the token must not be held by a blocked task. A
// channel without a buffer gets one value of buffer, and its senders wait
// until that is taken.

type unbuf struct {
	sent uint64
	tmp  bool // made during a simulation
}

var (
	unbufMu sync.Mutex
	unbufs  = map[interface{}]*unbuf{}
)

// Chan makes a channel of the code under test.
func Chan[C comparable](mk func(int) C, n int) C {
	if n != 0 {
		return mk(n)
	}
	c := mk(1)
	unbufMu.Lock()
	unbufs[c] = &unbuf{tmp: s != nil}
	unbufMu.Unlock()
	return c
}

func dropChans() {
	unbufMu.Lock()
	for k, u := range unbufs {
		if u.tmp {
			delete(unbufs, k)
		}
	}
	unbufMu.Unlock()
}

// ChanWait lets others run before the next attempt.
func ChanWait() {
	m := s
	if m == nil {
		runtime.Gosched()
		return
	}
	t := m.cur
	if t.backoff < 100e6 {
		t.backoff += t.backoff + 1000
	}
	m.settle()
	t.steps += 5000
	if t.limit > 0 && t.steps > t.limit {
		st := t.steps
		t.limit = 0
		m.arm()
		panic(HangError{st})
	}
	Sleep(t.backoff)
}

func chanDone() {
	if m := s; m != nil {
		m.cur.backoff = 0
	}
	Lib()
}

// To is the send operation.
func To[T any](c chan<- T) func(T) {
	return func(v T) {
		Lib()
		for {
			select {
			case c <- v:
				var u *unbuf
				unbufMu.Lock()
				n := len(unbufs)
				unbufMu.Unlock()
				if n > 0 {
					u = find(c)
				}
				if u != nil {
					u.sent++
					for no := u.sent; len(c) > 0 && u.sent == no; {
						ChanWait()
					}
				}
				chanDone()
				return
			default:
				ChanWait()
			}
		}
	}
}

func find[T any](c chan<- T) *unbuf {
	unbufMu.Lock()
	defer unbufMu.Unlock()
	for k, u := range unbufs {
		if b, ok := k.(chan T); ok && (chan<- T)(b) == c {
			return u
		}
	}
	return nil
}

// Recv is the receive operation.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the receive operation with two results.
func Recv2[T any](c <-chan T) (T, bool) {
	Lib()
	for {
		select {
		case v, ok := <-c:
			chanDone()
			return v, ok
		default:
			ChanWait()
		}
	}
}

// ChanIter iterates over a channel.
func ChanIter[T any](c <-chan T) *chanIter[T] { return &chanIter[T]{c: c} }

type chanIter[T any] struct {
	c <-chan T
	v T
}

func (i *chanIter[T]) Next() bool {
	var ok bool
	i.v, ok = Recv2(i.c)
	return ok
}

func (i *chanIter[T]) Key() T { return i.v }

// TimeAfter stands in for time.After.
func TimeAfter(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	if s == nil {
		c <- time.Time{}
		return c
	}
	Go(func() {
		Sleep(int64(d))
		c <- TimeNow()
	})
	return c
}
