// Package vrt is a deterministic cooperative scheduler for rewritten Go code.
//
// Exactly one task runs at a time. Every visible operation of the rewritten
// code (lock, channel operation, atomic, network call, promoted field access)
// first calls point(), where the explorer decides which enabled task goes on.
// An execution is fully determined by its sequence of choices.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"unsafe"
)

// Kind of a choice point.
type Kind uint8

const (
	KSched  Kind = iota // which task continues
	KSelect             // which ready select case
	KEnv                // environment answer, costs a deviation
	KFree               // input enumeration, free
)

// Choice is one resolved choice point.
type Choice struct {
	Kind Kind
	N    int
	Pick int
	Key  uint64 // state hash before the choice (for pruning)
	Free bool
}

type taskState uint8

const (
	tsReady taskState = iota
	tsBlocked
	tsSleep
	tsQuiesce
	tsDone
)

// Task is one goroutine of the program under test.
type Task struct {
	idx    int
	key    uint64
	nchild uint64
	name   string
	wake   chan struct{}
	end    chan struct{}
	state  taskState
	ready  func() bool
	wakeAt int64
	vc     VC
	h      uint64
	what   string
	low    bool
}

type timer struct {
	at   int64
	seq  uint64
	fire func()
	dead bool
	vc   VC
}

// Failure is a property violation found in one execution.
type Failure struct {
	Msg   string
	Stack string
}

// World is the state of one execution.
type World struct {
	tasks   []*Task
	cur     *Task
	now     int64
	timers  []*timer
	seq     uint64
	prefix  []int
	Choices []Choice
	chans   map[uintptr]*chanState
	shadow  map[unsafe.Pointer]*shadow
	mshadow map[unsafe.Pointer]*shadow
	objs    map[uint64]*HObj
	ids     map[any]uint64
	idn     uint64

	Failure  *Failure
	finished bool
	killing  bool
	aborter  *Task
	done     chan struct{}
	wg       sync.WaitGroup
	Points   int
	enters   int
	maxPts   int
	maxEnter int
	Trace    []string
	tracing  bool
	Pruned   bool
	visit    func(i int, key uint64) bool // true: already explored, stop
	Races    map[int]bool
	Outcome  []string
	Stats    map[string]int64
	Diverged string
	ext      map[string]any
	sched    bool // scheduling choices enabled
	timeDev  bool
	evh      uint64
	Case     func() string
}

// W is the running world (nil outside executions).
var W *World

// Promoted holds the ids of field classes that are scheduling points.
var Promoted = map[int]bool{}

// FieldNames is filled by the rewritten code: id -> Type.field.
var FieldNames = map[int]string{}

var resets []func()

// OnReset registers a function that restores package-level state.
func OnReset(f func()) { resets = append(resets, f) }

// Config of one execution.
type Config struct {
	Prefix   []int
	Visit    func(i int, key uint64) bool
	Trace    bool
	MaxPts   int
	MaxEnter int
}

// Run performs one execution of body.
func Run(cfg Config, body func()) *World {
	for _, f := range resets {
		f()
	}
	w := &World{
		prefix: cfg.Prefix, visit: cfg.Visit, tracing: cfg.Trace,
		chans: map[uintptr]*chanState{}, shadow: map[unsafe.Pointer]*shadow{},
		mshadow: map[unsafe.Pointer]*shadow{},
		objs:    map[uint64]*HObj{}, ids: map[any]uint64{},
		done: make(chan struct{}), maxPts: cfg.MaxPts, maxEnter: cfg.MaxEnter,
		Races: map[int]bool{}, Stats: map[string]int64{}, ext: map[string]any{},
		now: 0, sched: true,
	}
	if w.maxPts == 0 {
		w.maxPts = 200000
	}
	if w.maxEnter == 0 {
		w.maxEnter = 400000
	}
	W = w
	main := w.newTask(nil, "main")
	w.cur = main
	w.start(main, body, true)
	main.wake <- struct{}{}
	<-w.done
	w.killing = true
	if w.aborter != nil {
		<-w.aborter.end
	}
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.state != tsDone {
			w.cur = t
			select {
			case t.wake <- struct{}{}:
			default:
			}
			<-t.end
		}
	}
	w.wg.Wait()
	W = nil
	return w
}

func (w *World) newTask(parent *Task, name string) *Task {
	t := &Task{idx: len(w.tasks), name: name, wake: make(chan struct{}, 1), end: make(chan struct{})}
	if parent != nil {
		parent.nchild++
		t.key = mix(parent.key, parent.nchild+0x51)
		t.vc = parent.vc.clone()
		t.h = mix(parent.h, t.key)
	} else {
		t.key = 0x9e3779b97f4a7c15
		t.h = t.key
	}
	w.tasks = append(w.tasks, t)
	t.vc = t.vc.grow(len(w.tasks))
	t.vc[t.idx] = 1
	return t
}

func (w *World) start(t *Task, f func(), isMain bool) {
	w.wg.Add(1)
	ec := t.end
	go func() {
		defer w.wg.Done()
		defer func() {
			close(ec)
		}()
		normal := false
		defer func() {
			r := recover()
			t.state = tsDone
			if w.killing {
				return
			}
			if r != nil {
				w.fail(fmt.Sprintf("panic in task %s: %v%s", t.name, r, w.caseText()), string(debug.Stack()))
				w.finish()
				return
			}
			if !normal { // Goexit called by the code itself
				if w.finished {
					return
				}
			}
			if isMain {
				w.finish()
				return
			}
			if w.finished {
				return
			}
			w.next(t)
		}()
		<-t.wake
		if w.killing {
			return
		}
		f()
		normal = true
	}()
}

func (w *World) finish() {
	if !w.finished {
		w.finished = true
		w.killing = true
		close(w.done)
	}
}

func (w *World) fail(msg, stack string) {
	if w.Failure == nil {
		w.Failure = &Failure{Msg: msg, Stack: trimStack(stack)}
	}
}

func trimStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// abort ends the execution from the running task.
func (w *World) abort() {
	if !w.finished {
		w.aborter = w.cur
	}
	w.finish()
	runtime.Goexit()
}

func (w *World) caseText() string {
	if w.Case == nil {
		return ""
	}
	return " [case: " + w.Case() + "]"
}

// SetCase names the enumerated case being run, for reports.
func SetCase(f func() string) {
	if W != nil {
		W.Case = f
	}
}

// Fail records a violation and ends the execution.
func Fail(format string, a ...any) {
	w := W
	if w == nil {
		panic("vrt.Fail outside a world: " + fmt.Sprintf(format, a...))
	}
	if w.killing {
		return
	}
	w.fail(fmt.Sprintf(format, a...)+w.caseText(), "")
	w.abort()
}

// Fatal models process termination by the code under test (log.Fatal, os.Exit).
func Fatal(what string) {
	w := W
	if w == nil || w.killing {
		runtime.Goexit()
	}
	w.fail("process terminated: "+what, string(debug.Stack()))
	w.abort()
}

// enabled tasks in canonical order: the running one first if it can go on,
// then the others in round-robin order.
func (w *World) enabled(self *Task, selfOK bool) []*Task {
	var en []*Task
	if selfOK {
		en = append(en, self)
	}
	n := len(w.tasks)
	base := 0
	if self != nil {
		base = self.idx
	}
	var lows []*Task
	for k := 1; k <= n; k++ {
		t := w.tasks[(base+k)%n]
		if t == self && (selfOK || t.state == tsDone) {
			continue
		}
		if t.runnable() {
			if t.low {
				lows = append(lows, t)
				continue
			}
			en = append(en, t)
		}
	}
	return append(en, lows...)
}

func (t *Task) runnable() bool {
	switch t.state {
	case tsReady:
		return true
	case tsBlocked:
		return t.ready()
	}
	return false
}

func (w *World) stateKey(en []*Task) uint64 {
	var s uint64 = uint64(w.now) * 0x9e3779b97f4a7c15
	for _, t := range w.tasks {
		s += mix(t.key, t.h^uint64(t.state)<<56)
	}
	s = mix(s, w.evh)
	for _, t := range en {
		s = mix(s, t.key)
	}
	return s
}

// choose resolves a choice point with n alternatives.
func (w *World) choose(kind Kind, n int, en []*Task, free bool) int {
	if n <= 1 {
		return 0
	}
	i := len(w.Choices)
	pick := 0
	key := mix(w.stateKey(en), uint64(kind)*7+uint64(w.cur.idx)<<8+uint64(n)<<32)
	if i < len(w.prefix) {
		pick = w.prefix[i]
		if pick >= n {
			w.Diverged = fmt.Sprintf("choice %d: recorded pick %d but only %d alternatives (kind %d)", i, pick, n, kind)
			w.abort()
		}
	} else if w.visit != nil && kind != KFree {
		if w.visit(i, key) {
			w.Pruned = true
			w.abort()
		}
	}
	w.Choices = append(w.Choices, Choice{Kind: kind, N: n, Pick: pick, Key: key, Free: free})
	return pick
}

// point is called by the running task before a visible operation.
func (w *World) point(what string) {
	if w.killing {
		return
	}
	t := w.cur
	t.h = mix(t.h, 0x9017)
	w.Points++
	if w.Points > w.maxPts {
		w.fail(fmt.Sprintf("no termination: more than %d visible operations in one execution (last: %s by %s)", w.maxPts, what, t.name), string(debug.Stack()))
		w.abort()
	}
	t.what = what
	if w.tracing {
		w.Trace = append(w.Trace, fmt.Sprintf("[%d %s] %s%s", t.idx, t.name, what, callsite()))
	}
	if !w.sched {
		return
	}
	en := w.enabled(t, true)
	if len(en) > 1 {
		k := w.choose(KSched, len(en), en, false)
		if k != 0 {
			t.state = tsReady
			w.switchTo(en[k])
		}
	}
}

func (w *World) switchTo(n *Task) {
	me := w.cur
	if n == me {
		me.state = tsReady
		return
	}
	n.state = tsReady
	n.ready = nil
	w.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if w.killing {
		runtime.Goexit()
	}
}

// block parks the running task until ready() holds.
func (w *World) block(what string, ready func() bool) {
	if w.killing {
		runtime.Goexit()
	}
	t := w.cur
	t.what = what
	for {
		if ready() {
			return
		}
		t.state = tsBlocked
		t.ready = ready
		if w.tracing {
			w.Trace = append(w.Trace, fmt.Sprintf("[%d %s] blocks: %s", t.idx, t.name, what))
		}
		w.yieldFrom(t)
		t.state = tsReady
		t.ready = nil
	}
}

// yieldFrom hands the processor to some other task; t is not runnable (or is
// in a special state). Returns when t was chosen again.
func (w *World) yieldFrom(t *Task) {
	n := w.pickNext(t)
	if n == nil {
		w.abort()
	}
	if n == t {
		t.state = tsReady
		return
	}
	w.switchTo(n)
}

// next is called when t has ended.
func (w *World) next(t *Task) {
	n := w.pickNext(t)
	if n == nil {
		w.finish()
		return
	}
	n.state = tsReady
	n.ready = nil
	w.cur = n
	n.wake <- struct{}{}
}

func (w *World) pickNext(t *Task) *Task {
	for {
		en := w.enabled(t, false)
		if len(en) > 0 {
			k := 0
			if len(en) > 1 && w.sched {
				// in next() we are not allowed to Goexit through choose's abort
				k = w.chooseNoAbort(en)
				if k < 0 {
					return nil
				}
			}
			return en[k]
		}
		// idle: a quiescing task first
		for _, q := range w.tasks {
			if q.state == tsQuiesce {
				for _, o := range w.tasks {
					q.vc.join(o.vc)
				}
				return q
			}
		}
		if !w.advance() {
			w.deadlock()
			return nil
		}
	}
}

func (w *World) chooseNoAbort(en []*Task) int {
	i := len(w.Choices)
	key := mix(w.stateKey(en), 0x1001)
	pick := 0
	if i < len(w.prefix) {
		pick = w.prefix[i]
		if pick >= len(en) {
			w.Diverged = fmt.Sprintf("choice %d: recorded pick %d but only %d alternatives", i, pick, len(en))
			return -1
		}
	} else if w.visit != nil {
		if w.visit(i, key) {
			w.Pruned = true
			return -1
		}
	}
	w.Choices = append(w.Choices, Choice{Kind: KSched, N: len(en), Pick: pick, Key: key})
	return pick
}

func (w *World) deadlock() {
	if w.finished {
		return
	}
	var b strings.Builder
	for _, t := range w.tasks {
		if t.state != tsDone {
			fmt.Fprintf(&b, " %s(%s)", t.name, t.what)
		}
	}
	w.fail("deadlock: no task can continue; blocked:"+b.String(), "")
}

// advance moves virtual time to the next timer or sleeper. All tasks are idle.
func (w *World) advance() bool {
	var at int64 = -1
	for _, t := range w.tasks {
		if t.state == tsSleep && (at < 0 || t.wakeAt < at) {
			at = t.wakeAt
		}
	}
	for _, tm := range w.timers {
		if !tm.dead && (at < 0 || tm.at < at) {
			at = tm.at
		}
	}
	if at < 0 {
		return false
	}
	if at > w.now {
		w.now = at
		// every task is idle: passing time orders everything before it
		all := VC{}
		for _, t := range w.tasks {
			all = all.joined(t.vc)
		}
		for _, t := range w.tasks {
			if t.state != tsDone {
				t.vc.join(all)
			}
		}
	}
	if w.tracing {
		w.Trace = append(w.Trace, fmt.Sprintf("-- time %.3fs", float64(w.now)/1e9))
	}
	for _, t := range w.tasks {
		if t.state == tsSleep && t.wakeAt <= w.now {
			t.state = tsReady
			t.h = mix(t.h, uint64(w.now))
		}
	}
	sort.SliceStable(w.timers, func(i, j int) bool {
		if w.timers[i].at != w.timers[j].at {
			return w.timers[i].at < w.timers[j].at
		}
		return w.timers[i].seq < w.timers[j].seq
	})
	var due []*timer
	rest := w.timers[:0]
	for _, tm := range w.timers {
		if tm.dead {
			continue
		}
		if tm.at <= w.now {
			due = append(due, tm)
		} else {
			rest = append(rest, tm)
		}
	}
	w.timers = rest
	for _, tm := range due {
		tm.dead = true
		tm.fire()
	}
	return true
}

// Go starts f as a new task.
func Go(f func()) {
	w := W
	if w == nil {
		panic("vrt.Go outside a world")
	}
	if w.killing {
		return
	}
	spawn(w, f, callerName(2))
	w.point("go")
}

// GoNamed starts a named harness task.
func GoNamed(name string, f func()) {
	spawn(W, f, name)
	W.point("go")
}

func spawn(w *World, f func(), name string) *Task {
	t := w.newTask(w.cur, name)
	w.cur.vc[w.cur.idx]++
	w.cur.h = mix(w.cur.h, t.key)
	w.start(t, f, false)
	return t
}

func callerName(skip int) string {
	pc, _, _, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	n := runtime.FuncForPC(pc).Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func callsite() string {
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/vrt/") {
			i := strings.LastIndex(f.File, "/")
			j := strings.LastIndex(f.Function, "/")
			return fmt.Sprintf(" @%s:%d %s", f.File[i+1:], f.Line, f.Function[j+1:])
		}
		if !more {
			return ""
		}
	}
}

// Enter is called at every function entry and loop iteration of rewritten code.
func Enter() {
	w := W
	if w == nil || w.killing {
		return
	}
	w.enters++
	if w.enters > w.maxEnter {
		w.fail(fmt.Sprintf("no termination: more than %d function calls and loop iterations in one execution%s", w.maxEnter, w.caseText()), string(debug.Stack()))
		w.abort()
	}
}

// ResetBudget restarts the non-termination budget (per enumerated case).
func ResetBudget() { W.enters = 0; W.Points = 0 }

// Yield is an explicit scheduling point.
func Yield() { W.point("yield") }

// Quiesce waits until no other task can continue without time passing.
func Quiesce() {
	w := W
	if w.killing {
		runtime.Goexit()
	}
	t := w.cur
	t.what = "quiesce"
	t.state = tsQuiesce
	w.yieldFrom(t)
	t.state = tsReady
	t.h = mix(t.h, 0x77)
}

// SchedOff disables scheduling choices (setup phases).
func SchedOff() { W.sched = false }

// SchedOn enables scheduling choices.
func SchedOn() { W.sched = true }

// Sleep suspends the running task in virtual time.
func Sleep(d int64) {
	w := W
	if w == nil {
		return
	}
	if w.killing {
		runtime.Goexit()
	}
	w.point("sleep")
	t := w.cur
	if d < 0 {
		d = 0
	}
	t.what = "sleep"
	t.state = tsSleep
	t.wakeAt = w.now + d
	w.yieldFrom(t)
	t.state = tsReady
}

// Now is the virtual time in nanoseconds since the start of the execution.
func Now() int64 {
	if W == nil {
		return 0
	}
	return W.now
}

// AddTimer runs fire (outside any task, must not block) after d.
func AddTimer(d int64, fire func()) (cancel func() bool) {
	w := W
	w.seq++
	if d < 0 {
		d = 0
	}
	tm := &timer{at: w.now + d, seq: w.seq, fire: fire}
	w.timers = append(w.timers, tm)
	return func() bool {
		was := !tm.dead
		tm.dead = true
		return was
	}
}

// SpawnFromTimer starts a task from a timer callback.
func SpawnFromTimer(f func(), name string) {
	w := W
	if w.killing {
		return
	}
	t := w.newTask(w.tasks[0], name)
	w.start(t, f, false)
}

// Choose enumerates inputs exhaustively (free of deviation cost).
func Choose(n int) int {
	w := W
	k := w.choose(KFree, n, nil, true)
	w.cur.h = mix(w.cur.h, uint64(k)+0xabc)
	return k
}

// Deviate is an environment answer: 0 is the default, others cost a deviation.
func Deviate(n int) int {
	w := W
	if w.killing {
		return 0
	}
	if !w.sched {
		return 0
	}
	k := w.choose(KEnv, n, nil, false)
	w.cur.h = mix(w.cur.h, uint64(k)+0xdef)
	return k
}

// Outcome records an observed outcome (for distinct-outcome statistics).
func Outcome(s string) { W.Outcome = append(W.Outcome, s) }

// Count adds to a statistics counter.
func Count(k string, n int64) { W.Stats[k] += n }

// Live lists the tasks that have not ended, by name.
func Live() []string {
	var l []string
	for _, t := range W.tasks {
		if t.state != tsDone && t != W.cur {
			l = append(l, t.name+"("+t.what+")")
		}
	}
	return l
}

// TaskIndex returns the index of the running task.
func TaskIndex() int { return W.cur.idx }

// Low marks the running task as low priority in the default schedule.
func Low() { W.cur.low = true }

// Ext stores per-execution state of shims.
func Ext(k string, mk func() any) any {
	if v, ok := W.ext[k]; ok {
		return v
	}
	v := mk()
	W.ext[k] = v
	return v
}

// Killing reports that the execution is being torn down.
func Killing() bool { return W == nil || W.killing }

// Active reports that a world is running.
func Active() bool { return W != nil && !W.killing }

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C15 + (a << 6) + (a >> 2))
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 32
	return x
}

// Tracing reports whether the execution is traced.
func Tracing() bool { return W != nil && W.tracing }

// Tracef adds a line to the trace.
func Tracef(f string, a ...any) {
	if W != nil && W.tracing && !W.killing {
		W.Trace = append(W.Trace, fmt.Sprintf(f, a...))
	}
}
