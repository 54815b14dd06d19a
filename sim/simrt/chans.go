package simrt

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
	"weak"
)

// Channels in instrumented code are simulated: a side table keyed by the
// channel holds its queue. Nothing in the tree uses channels today; this is
// here so that a change that does stays inside the simulation. The table does
// not keep a channel alive: an entry whose channel is gone is dropped, and so
// is the entry of a channel that lay where a new one lies now.

type chanState struct {
	ptr    uintptr
	ref    weak.Pointer[byte]
	cap    int
	buf    []any
	head   int
	n      int
	taken  int // values picked up
	sent   int
	closed bool
	recvs  int // receivers waiting
}

var (
	chans  = make([]*chanState, 1<<12) // open addressing, a power of two, at most half full
	nchans int
	used   = make([]int32, 1<<11)
	selKey int64 // something happened on some channel
)

//go:norace
func resetChans() {
	for i := 0; i < nchans; i++ {
		chans[used[i]] = nil
	}
	nchans = 0
}

//go:norace
func (s *chanState) dead() bool { return s.ptr != 0 && s.ref.Value() == nil }

//go:norace
func newChan(p unsafe.Pointer, c int) *chanState {
	k := c
	if k == 0 {
		k = 1
	}
	s := &chanState{ptr: uintptr(p), cap: c, buf: make([]any, k)}
	if p != nil {
		s.ref = weak.Make((*byte)(p))
	}
	return s
}

//go:norace
func chanOf(p unsafe.Pointer, c int) *chanState {
	ptr := uintptr(p)
	h := int(mix(uint64(ptr)) & uint64(len(chans)-1))
	for chans[h] != nil {
		if chans[h].ptr == ptr {
			if chans[h].dead() {
				chans[h] = newChan(p, c)
			}
			return chans[h]
		}
		h = (h + 1) & (len(chans) - 1)
	}
	if nchans == len(used) {
		if rehash(len(chans)); nchans > len(used)/2 {
			rehash(4 * len(chans))
		}
		return chanOf(p, c)
	}
	s := newChan(p, c)
	chans[h] = s
	used[nchans] = int32(h) // no append: growing reads under the race detector
	nchans++
	return s
}

// rehash drops the entries of channels that are gone.
//
//go:norace
func rehash(size int) {
	old, idx, n := chans, used, nchans
	chans, used, nchans = make([]*chanState, size), make([]int32, size/2), 0
	for k := 0; k < n; k++ {
		s := old[idx[k]]
		if s.dead() {
			continue
		}
		h := int(mix(uint64(s.ptr)) & uint64(size-1))
		for chans[h] != nil {
			h = (h + 1) & (size - 1)
		}
		chans[h] = s
		used[nchans] = int32(h)
		nchans++
	}
}

// SweepChans lets go of what was kept for channels that are gone.
//
//go:norace
func SweepChans() {
	live := 0
	for k := 0; k < nchans; k++ {
		if !chans[used[k]].dead() {
			live++
		}
	}
	size := 1 << 12
	for size < 4*live {
		size *= 4
	}
	rehash(size)
}

//go:norace
func (s *chanState) woken() {
	Wake(unsafe.Pointer(s))
	Wake(unsafe.Pointer(&selKey))
}

//go:norace
func (s *chanState) send(v any) bool {
	key := unsafe.Pointer(s)
	for {
		if aborting {
			return true
		}
		if s.closed {
			return false
		}
		if s.ptr != 0 && s.n < len(s.buf) {
			break
		}
		Block(key)
	}
	s.put(v)
	my := s.sent
	for s.cap == 0 && s.taken < my && !aborting {
		Block(key)
	}
	return true
}

//go:norace
func (s *chanState) put(v any) {
	s.buf[(s.head+s.n)%len(s.buf)] = v
	s.n++
	s.sent++
	raceReleaseMerge(unsafe.Pointer(s))
	s.woken()
}

//go:norace
func (s *chanState) recv() (any, bool) {
	key := unsafe.Pointer(s)
	for s.n == 0 {
		if s.closed || aborting {
			raceAcquire(key)
			return nil, false
		}
		s.recvs++
		Wake(unsafe.Pointer(&selKey))
		Block(key)
		s.recvs--
	}
	v := s.buf[s.head]
	s.buf[s.head] = nil
	s.head = (s.head + 1) % len(s.buf)
	s.n--
	s.taken++
	raceAcquire(key)
	raceReleaseMerge(key)
	s.woken()
	return v, true
}

//go:norace
func (s *chanState) close() bool {
	if s.closed {
		return false
	}
	s.closed = true
	raceReleaseMerge(unsafe.Pointer(s))
	s.woken()
	return true
}

//go:norace
func (s *chanState) length() int {
	if s.cap == 0 {
		return 0
	}
	return s.n
}

// SendTo is ch <- v, written SendTo(ch)(v).
func SendTo[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	return func(v T) {
		if !chanOf(reflect.ValueOf(ch).UnsafePointer(), cap(ch)).send(v) {
			panic("send on closed channel")
		}
		runtime.KeepAlive(ch)
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (v T, ok bool) {
	x, ok := chanOf(reflect.ValueOf(ch).UnsafePointer(), cap(ch)).recv()
	runtime.KeepAlive(ch)
	if ok {
		v, _ = x.(T)
	}
	return v, ok
}

// Recv is <-ch.
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2[C, T](ch)
	return v
}

// Close is close(ch).
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	if !chanOf(reflect.ValueOf(ch).UnsafePointer(), cap(ch)).close() {
		panic("close of closed channel")
	}
	runtime.KeepAlive(ch)
}

// Len is len(ch).
func Len[C ~chan T | ~chan<- T | ~<-chan T, T any](ch C) int {
	n := chanOf(reflect.ValueOf(ch).UnsafePointer(), cap(ch)).length()
	runtime.KeepAlive(ch)
	return n
}

// After is time.After on the simulated clock.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		SendTo(ch)(Now())
	})
	return ch
}

// SelCase is one case of a select statement.
type SelCase interface {
	chanState() *chanState
	isSend() bool
	do()
}

// RCase is a receive case; V and OK are set when it was chosen.
type RCase[T any] struct {
	s  *chanState
	ch any
	V  T
	OK bool
}

func (c *RCase[T]) chanState() *chanState { return c.s }
func (c *RCase[T]) isSend() bool          { return false }
func (c *RCase[T]) do() {
	var x any
	x, c.OK = c.s.recv()
	if c.OK {
		c.V, _ = x.(T)
	}
}

type sCase struct {
	s  *chanState
	ch any
	v  any
}

func (c *sCase) chanState() *chanState { return c.s }
func (c *sCase) isSend() bool          { return true }
func (c *sCase) do() {
	if !c.s.send(c.v) {
		panic("send on closed channel")
	}
}

// RecvCase is case <-ch.
func RecvCase[C ~chan T | ~<-chan T, T any](ch C) *RCase[T] {
	return &RCase[T]{s: chanOf(reflect.ValueOf(ch).UnsafePointer(), cap(ch)), ch: ch}
}

// SendCase is case ch <- v, written SendCase(ch)(v).
func SendCase[C ~chan T | ~chan<- T, T any](ch C) func(T) SelCase {
	return func(v T) SelCase {
		return &sCase{chanOf(reflect.ValueOf(ch).UnsafePointer(), cap(ch)), ch, v}
	}
}

//go:norace
func ready(s *chanState, send bool) bool {
	if s.ptr == 0 {
		return false
	}
	if !send {
		return s.n > 0 || s.closed
	}
	if s.closed {
		return true
	}
	if s.cap == 0 {
		return s.n == 0 && s.recvs > 0
	}
	return s.n < s.cap
}

//go:norace
func waiting(cs []SelCase, d int) {
	for _, c := range cs {
		if !c.isSend() {
			c.chanState().recvs += d
		}
	}
}

// Sel performs a select statement and returns the chosen case, -1 for the
// default.
func Sel(def bool, cs ...SelCase) int {
	for {
		var rs []int
		for i, c := range cs {
			if ready(c.chanState(), c.isSend()) {
				rs = append(rs, i)
			}
		}
		if len(rs) > 0 {
			i := rs[int(mapOrder()%uint64(len(rs)))]
			tick()
			cs[i].do()
			runtime.KeepAlive(cs)
			return i
		}
		if def {
			Poll()
			return -1
		}
		if Aborting() {
			return len(cs) - 1
		}
		waiting(cs, 1)
		for _, c := range cs {
			if !c.isSend() {
				c.chanState().woken()
			}
		}
		Block(unsafe.Pointer(&selKey))
		waiting(cs, -1)
		runtime.KeepAlive(cs)
	}
}

// Forever is select {}.
func Forever() { Block(unsafe.Pointer(&chans)) }
