package vrt

import (
	"runtime"
	"unsafe"
)

type waiter struct {
	t    *Task
	sel  *selState
	idx  int
	val  any
	ok   bool
	done bool
	vc   VC
	dead bool
}

type selState struct {
	fired int
	ws    []*waiter
}

type elem struct {
	v  any
	vc VC
}

type chanState struct {
	keep   any
	cap    int
	buf    []elem
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	obj    HObj
	cvc    VC
	rvcs   []VC
	nsend  int
}

func chptr[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (w *World) chanOf(p uintptr, c int, keep any) *chanState {
	if p == 0 {
		return nil
	}
	s := w.chans[p]
	if s == nil {
		s = &chanState{cap: c, keep: keep}
		w.chans[p] = s
	}
	return s
}

func csS[T any](ch chan<- T) *chanState {
	return W.chanOf(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
}
func csR[T any](ch <-chan T) *chanState {
	return W.chanOf(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
}

func popw(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.dead {
			continue
		}
		return x
	}
	return nil
}

func peekw(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		if x.dead {
			*q = (*q)[1:]
			continue
		}
		return x
	}
	return nil
}

func (x *waiter) fire() {
	x.done = true
	if x.sel != nil {
		x.sel.fired = x.idx
		for _, o := range x.sel.ws {
			o.dead = true
		}
	}
	x.dead = true
}

func (s *chanState) canSend() bool {
	return s.closed || peekw(&s.recvq) != nil || len(s.buf) < s.cap
}

func (s *chanState) canRecv() bool {
	return len(s.buf) > 0 || s.closed || peekw(&s.sendq) != nil
}

// doSend performs a send that canSend.
func (s *chanState) doSend(v any) {
	t := W.cur
	if s.closed {
		panic("send on closed channel")
	}
	// the k-th receive happens before the (k+cap)-th send completes
	k := s.nsend - s.cap
	if s.cap > 0 && k >= 0 && k < len(s.rvcs) {
		t.vc.join(s.rvcs[k])
	}
	s.nsend++
	vc := t.vc.clone()
	t.vc[t.idx]++
	s.obj.hash(t, 11)
	if r := popw(&s.recvq); r != nil {
		r.val, r.ok, r.vc = v, true, vc
		if s.cap == 0 {
			t.vc.join(r.t.vc)
		} else {
			s.rvcs = append(s.rvcs, r.t.vc.clone())
		}
		r.fire()
		return
	}
	s.buf = append(s.buf, elem{v, vc})
}

func (s *chanState) doRecv() (any, bool) {
	t := W.cur
	s.obj.hash(t, 12)
	if len(s.buf) > 0 {
		e := s.buf[0]
		s.buf = s.buf[1:]
		t.vc.join(e.vc)
		s.rvcs = append(s.rvcs, t.vc.clone())
		t.vc[t.idx]++
		if x := popw(&s.sendq); x != nil {
			s.buf = append(s.buf, elem{x.val, x.vc})
			s.nsend++
			x.vc = t.vc.clone()
			x.fire()
		}
		return e.v, true
	}
	if x := popw(&s.sendq); x != nil { // unbuffered
		t.vc.join(x.vc)
		v := x.val
		x.vc = t.vc.clone()
		t.vc[t.idx]++
		x.fire()
		return v, true
	}
	// closed
	t.vc.join(s.cvc)
	return nil, false
}

// SendTo returns the send function of ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		w := W
		if w == nil || w.killing {
			return
		}
		w.point("send")
		s := csS(ch)
		if s == nil {
			w.block("send on nil channel", func() bool { return false })
		}
		if s.canSend() {
			s.doSend(v)
			return
		}
		t := w.cur
		x := &waiter{t: t, val: v, vc: t.vc.clone()}
		t.vc[t.idx]++
		s.sendq = append(s.sendq, x)
		w.block("send", func() bool { return x.done || s.closed })
		if !x.done {
			x.dead = true
			panic("send on closed channel")
		}
		t.vc.join(x.vc)
		s.obj.hash(t, 13)
	}
}

// Send sends v on ch.
func Send[T any](ch chan<- T, v T) { SendTo(ch)(v) }

// Recv receives from ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 receives from ch with the ok flag.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	w := W
	if w == nil {
		return zero, false
	}
	if w.killing {
		runtime.Goexit()
	}
	w.point("recv")
	s := csR(ch)
	if s == nil {
		w.block("receive from nil channel", func() bool { return false })
	}
	var v any
	var ok bool
	if s.canRecv() {
		v, ok = s.doRecv()
	} else {
		t := w.cur
		x := &waiter{t: t}
		s.recvq = append(s.recvq, x)
		w.block("recv", func() bool { return x.done || s.closed })
		if x.done {
			v, ok = x.val, x.ok
			t.vc.join(x.vc)
			s.obj.hash(t, 14)
		} else {
			x.dead = true
			v, ok = s.doRecv()
		}
	}
	if !ok {
		return zero, false
	}
	r, _ := v.(T)
	return r, true
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	w := W
	if w == nil || w.killing {
		return
	}
	w.point("close")
	s := csS(ch)
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	t := w.cur
	s.cvc = t.vc.clone()
	t.vc[t.idx]++
	s.obj.hash(t, 15)
	s.closed = true
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	w := W
	if w == nil || w.killing {
		return 0
	}
	w.point("len")
	s := csR(ch)
	if s == nil {
		return 0
	}
	s.obj.hash(w.cur, 16)
	return len(s.buf)
}

// PeekLen is len(ch) without a scheduling point (harness).
func PeekLen[T any](ch <-chan T) int {
	s := csR(ch)
	if s == nil {
		return 0
	}
	return len(s.buf)
}

// TryRecv receives without blocking and without a scheduling point (harness).
func TryRecv[T any](ch <-chan T) (T, bool) {
	var zero T
	if W == nil || W.killing {
		return zero, false
	}
	s := csR(ch)
	if s == nil || !s.canRecv() {
		return zero, false
	}
	v, ok := s.doRecv()
	if !ok {
		return zero, false
	}
	r, _ := v.(T)
	return r, true
}

// ChanRange starts a range over a channel.
func ChanRange[T any](ch <-chan T) (<-chan T, T) {
	var v T
	return ch, v
}

// RangeRecv receives the next element of a range.
func RangeRecv[T any](ch <-chan T, v *T) bool {
	Enter()
	x, ok := Recv2(ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// Case is one select case.
type Case interface {
	state() *chanState
	isSend() bool
	sendVal() any
	set(v any, ok bool)
}

// RCase is a receive case.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) state() *chanState { return csR(c.ch) }
func (c *RCase[T]) isSend() bool      { return false }
func (c *RCase[T]) sendVal() any      { return nil }
func (c *RCase[T]) set(v any, ok bool) {
	c.OK = ok
	if ok {
		c.V, _ = v.(T)
	}
}

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase makes a send case.
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

func (c *SCase[T]) state() *chanState  { return csS(c.ch) }
func (c *SCase[T]) isSend() bool       { return true }
func (c *SCase[T]) sendVal() any       { return c.v }
func (c *SCase[T]) set(v any, ok bool) {}

// Select performs a select; returns the case index or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w == nil {
		return -1
	}
	if w.killing {
		runtime.Goexit()
	}
	w.point("select")
	sts := make([]*chanState, len(cases))
	var ready []int
	for i, c := range cases {
		sts[i] = c.state()
		if sts[i] == nil {
			continue
		}
		if c.isSend() && sts[i].canSend() || !c.isSend() && sts[i].canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && w.sched {
			k = w.choose(KSelect, len(ready), nil, false)
			w.cur.h = mix(w.cur.h, uint64(k)+0x5e1)
		}
		i := ready[k]
		if cases[i].isSend() {
			sts[i].doSend(cases[i].sendVal())
		} else {
			v, ok := sts[i].doRecv()
			cases[i].set(v, ok)
		}
		return i
	}
	t := w.cur
	if hasDefault {
		for _, s := range sts {
			if s != nil {
				s.obj.hash(t, 17)
			}
		}
		return -1
	}
	sel := &selState{fired: -1}
	for i, c := range cases {
		if sts[i] == nil {
			continue
		}
		x := &waiter{t: t, sel: sel, idx: i}
		if c.isSend() {
			x.val = c.sendVal()
			x.vc = t.vc.clone()
			sts[i].sendq = append(sts[i].sendq, x)
		} else {
			sts[i].recvq = append(sts[i].recvq, x)
		}
		sel.ws = append(sel.ws, x)
	}
	t.vc[t.idx]++
	w.block("select", func() bool {
		if sel.fired >= 0 {
			return true
		}
		for _, s := range sts {
			if s != nil && s.closed {
				return true
			}
		}
		return false
	})
	if sel.fired >= 0 {
		i := sel.fired
		for _, x := range sel.ws {
			if x.idx == i {
				t.vc.join(x.vc)
				sts[i].obj.hash(t, 18)
				if !cases[i].isSend() {
					cases[i].set(x.val, x.ok)
				}
			}
		}
		return i
	}
	for _, x := range sel.ws {
		x.dead = true
	}
	for i, s := range sts {
		if s != nil && s.closed {
			if cases[i].isSend() {
				panic("send on closed channel")
			}
			v, ok := s.doRecv()
			cases[i].set(v, ok)
			return i
		}
	}
	panic("vrt: select woke without a case")
}

// BlockForever is select{}.
func BlockForever() { W.block("select{}", func() bool { return false }) }

// TimerSend delivers v on a timer channel without blocking (from a timer).
func TimerSend[T any](ch chan T, v T) {
	w := W
	if w == nil || w.killing {
		return
	}
	s := csS((chan<- T)(ch))
	if r := popw(&s.recvq); r != nil {
		r.val, r.ok = any(v), true
		r.fire()
		return
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, elem{v: v})
	}
}
