package vrt

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"unsafe"
)

// VC is a vector clock indexed by task.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) grow(n int) VC {
	for len(v) < n {
		v = append(v, 0)
	}
	return v
}

func (v *VC) join(o VC) {
	*v = (*v).grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) joined(o VC) VC { c := v.clone(); c.join(o); return c }

// HObj is a synchronization object: clock plus trace hash.
type HObj struct {
	vc VC
	h  uint64
}

// Acquire: the running task observes o.
func (o *HObj) Acquire() {
	w := W
	if w == nil || w.killing {
		return
	}
	t := w.cur
	t.vc.join(o.vc)
	o.hash(t, 1)
}

// Release: o observes the running task.
func (o *HObj) Release() {
	w := W
	if w == nil || w.killing {
		return
	}
	t := w.cur
	o.vc.join(t.vc)
	t.vc[t.idx]++
	o.hash(t, 2)
}

// AcqRel does both.
func (o *HObj) AcqRel() {
	w := W
	if w == nil || w.killing {
		return
	}
	t := w.cur
	t.vc.join(o.vc)
	o.vc.join(t.vc)
	t.vc[t.idx]++
	o.hash(t, 3)
}

func (o *HObj) hash(t *Task, k uint64) {
	n := mix(mix(t.h, o.h), k)
	t.h, o.h = n, n
}

// Touch orders the running task's event in the trace hash (harness logs).
func Touch(name string) {
	w := W
	if w == nil || w.killing {
		return
	}
	k := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		k = (k ^ uint64(name[i])) * 1099511628211
	}
	o := w.objs[k]
	if o == nil {
		o = &HObj{h: k}
		w.objs[k] = o
	}
	o.hash(w.cur, 5)
}

// Point is a visible operation of a shim.
func Point(what string) {
	if w := W; w != nil && !w.killing {
		w.point(what)
	}
}

// Block parks the running task until ready() holds.
func Block(what string, ready func() bool) {
	if w := W; w != nil {
		w.block(what, ready)
	}
}

type access struct {
	task  int
	clock uint32
}

type shadow struct {
	w     access
	hasW  bool
	r     []access
	keep  any
	hobj  HObj
	id    int // field class + 1 of the last plain access
}

func (s *shadow) rd(t *Task) (race bool) {
	if s.hasW && s.w.task != t.idx && s.w.clock > t.vc.at(s.w.task) {
		race = true
	}
	for i := range s.r {
		if s.r[i].task == t.idx {
			s.r[i].clock = t.vc[t.idx]
			return
		}
	}
	s.r = append(s.r, access{t.idx, t.vc[t.idx]})
	return
}

func (s *shadow) wr(t *Task) (race bool) {
	if s.hasW && s.w.task != t.idx && s.w.clock > t.vc.at(s.w.task) {
		race = true
	}
	for _, a := range s.r {
		if a.task != t.idx && a.clock > t.vc.at(a.task) {
			race = true
		}
	}
	s.r = s.r[:0]
	s.w = access{t.idx, t.vc[t.idx]}
	s.hasW = true
	return
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Rd records a read of *p (field class id) and returns p.
func Rd[T any](p *T, id int) *T {
	if W != nil {
		accessField(unsafe.Pointer(p), id, false)
	}
	return p
}

// Wr records a write of *p and returns p.
func Wr[T any](p *T, id int) *T {
	if W != nil {
		accessField(unsafe.Pointer(p), id, true)
	}
	return p
}

func accessField(p unsafe.Pointer, id int, write bool) {
	w := W
	if w.killing || p == nil || len(w.tasks) == 1 {
		return
	}
	prom := Promoted[id]
	if prom {
		if write {
			w.point("write " + FieldNames[id])
		} else {
			w.point("read " + FieldNames[id])
		}
	}
	s := w.shadow[p]
	if s == nil {
		s = &shadow{}
		w.shadow[p] = s
	}
	t := w.cur
	var race bool
	if write {
		race = s.wr(t)
	} else {
		race = s.rd(t)
	}
	s.id = id + 1
	if prom {
		s.hobj.hash(t, 4)
	}
	if race && !prom {
		w.Races[id] = true
	}
}

// AtomicAccess records an access of a sync/atomic function to *p, so that
// plain accesses which are not ordered with it are found.
func AtomicAccess(p unsafe.Pointer, write bool) {
	w := W
	if w == nil || w.killing || p == nil || len(w.tasks) == 1 {
		return
	}
	s := w.shadow[p]
	if s == nil {
		s = &shadow{}
		w.shadow[p] = s
	}
	var race bool
	if write {
		race = s.wr(w.cur)
	} else {
		race = s.rd(w.cur)
	}
	s.hobj.hash(w.cur, 6)
	if race && s.id > 0 && !Promoted[s.id-1] {
		w.Races[s.id-1] = true
	}
}

// AllocSize limits what one make() may ask for: larger requests stand for
// running out of memory.
func AllocSize[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if W != nil && !W.killing && n > 0 && uint64(n) > 1<<28 {
		panic(fmt.Sprintf("out of memory: one allocation of %d elements", n))
	}
	return n
}

func mapPtr(m any) unsafe.Pointer { return reflect.ValueOf(m).UnsafePointer() }

func accessMap(m any, id int, write bool) {
	w := W
	if w == nil || w.killing {
		return
	}
	p := mapPtr(m)
	if p == nil || len(w.tasks) == 1 {
		return
	}
	s := w.mshadow[p]
	if s == nil {
		s = &shadow{keep: m}
		w.mshadow[p] = s
	}
	t := w.cur
	var race bool
	if write {
		race = s.wr(t)
	} else {
		race = s.rd(t)
	}
	if race {
		kind := "read"
		if write {
			kind = "write"
		}
		w.fail(fmt.Sprintf("unsynchronized concurrent map access (Go aborts the process with \"concurrent map access\"): %s at %s by task %s is not ordered with an access by another task", kind, FieldNames[id], t.name), string(debug.Stack()))
		w.abort()
	}
}

// MR records a map read.
func MR[M any](m M, id int) M { accessMap(m, id, false); return m }

// MW records a map write.
func MW[M any](m M, id int) M { accessMap(m, id, true); return m }

// Copy is the copy builtin on slices, with a scheduling point when shared.
func Copy[T any](dst, src []T) int {
	w := W
	if w != nil && !w.killing && len(w.tasks) > 1 && CopyPoints {
		w.point("copy")
		w.cur.h = mix(w.cur.h, 0xc0)
	}
	return copy(dst, src)
}

// TryLocks: the rewritten code asks whether a lock is free, so that letting go
// of one is a scheduling point as well.
var TryLocks bool

// CopyPoints makes copy() a scheduling point.
var CopyPoints bool

// MapIter iterates a map in a deterministic, explorer-chosen order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	id   int
}

// MapRange starts an iteration.
func MapRange[M ~map[K]V, K comparable, V any](m M, id int) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: m, id: id}
	if m == nil {
		return it, k, v
	}
	accessMap(m, id, false)
	for kk := range m {
		it.keys = append(it.keys, kk)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		if W != nil && !W.killing {
			n := len(it.keys)
			if n > 4 {
				n = 4
			}
			r := Deviate(n) // rotate: every key can come first
			it.keys = append(append([]K(nil), it.keys[r:]...), it.keys[:r]...)
		}
	}
	return it, k, v
}

// Next advances.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	Enter()
	for len(it.keys) > 0 {
		kk := it.keys[0]
		it.keys = it.keys[1:]
		accessMap(it.m, it.id, false)
		vv, ok := it.m[kk]
		if !ok {
			continue
		}
		if k != nil {
			*k = kk
		}
		if v != nil {
			*v = vv
		}
		return true
	}
	return false
}

func sortKeys[K comparable](ks []K) {
	sort.SliceStable(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
}

func keyLess(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		if vb.Kind() == reflect.String {
			return va.String() < vb.String()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if vb.Kind() == va.Kind() {
			return va.Int() < vb.Int()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if vb.Kind() == va.Kind() {
			return va.Uint() < vb.Uint()
		}
	}
	return ObjID(a) < ObjID(b)
}

// MapKey registers a map key so that iteration order is reproducible.
func MapKey[K any](k K) K {
	if W != nil && !W.killing {
		switch any(k).(type) {
		case string, int, int32, int64, uint, uint32, uint64, byte:
		default:
			ObjID(any(k))
		}
	}
	return k
}

// ObjID numbers objects in order of first appearance in the execution.
func ObjID(a any) uint64 {
	w := W
	if w == nil {
		return 0
	}
	if a == nil {
		return 0
	}
	if !reflect.TypeOf(a).Comparable() {
		return 0
	}
	id, ok := w.ids[a]
	if !ok {
		w.idn++
		id = w.idn
		w.ids[a] = id
	}
	return id
}

// Set records a write of *p that happens after its value was computed.
func Set[T any](p *T, id int) func(T) {
	return func(v T) { *Wr(p, id) = v }
}

// Zero resets a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
