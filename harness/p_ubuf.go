package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"ustack"
	"ustack/vrt"
)

// deque is the reference model of a UBuf: head room, bytes, tail room.
type deque struct {
	head, tail int
	data       []byte
	cap, res   int
	ctr        byte
}

func newDeque(capacity, res int) *deque {
	return &deque{head: res, tail: capacity - res, cap: capacity, res: res}
}

func (d *deque) clone() *deque {
	c := *d
	c.data = append([]byte(nil), d.data...)
	return &c
}

func (d *deque) fresh(n int) []byte {
	p := make([]byte, n)
	for i := range p {
		d.ctr++
		p[i] = d.ctr
	}
	return p
}

func (d *deque) put(p []byte) { d.data = append(d.data, p...); d.tail -= len(p) }
func (d *deque) putHead(p []byte) {
	d.data = append(append([]byte(nil), p...), d.data...)
	d.head -= len(p)
}
func (d *deque) take(n int) []byte {
	p := append([]byte(nil), d.data[:n]...)
	d.data = d.data[n:]
	d.head += n
	return p
}
func (d *deque) reset() { d.data = nil; d.head = d.res; d.tail = d.cap - d.res }

func (d *deque) same(ub *ustack.UBuf) string {
	if ub.Capacity() != d.cap {
		return fmt.Sprintf("capacity %d, want %d", ub.Capacity(), d.cap)
	}
	if ub.ReadableLength() != len(d.data) {
		return fmt.Sprintf("readable length %d, want %d", ub.ReadableLength(), len(d.data))
	}
	if ub.HeadWritableLength() != d.head {
		return fmt.Sprintf("head-writable length %d, want %d", ub.HeadWritableLength(), d.head)
	}
	if ub.TailWritableLength() != d.tail {
		return fmt.Sprintf("tail-writable length %d, want %d", ub.TailWritableLength(), d.tail)
	}
	if len(d.data) > 0 {
		p := make([]byte, len(d.data))
		n, err := ub.Peek(p)
		if n != len(p) || err != nil || !bytes.Equal(p, d.data) {
			return fmt.Sprintf("contents % x (n=%d err=%v), want % x", p, n, err, d.data)
		}
	}
	return ""
}

type ubOp struct {
	name string
	f    func(ub *ustack.UBuf, d *deque) string
}

func opWrite(k int) ubOp {
	return ubOp{fmt.Sprintf("Write(%d bytes)", k), func(ub *ustack.UBuf, d *deque) string {
		p := d.fresh(k)
		q := append([]byte(nil), p...)
		n, err := ub.Write(q)
		w := k
		if w > d.tail {
			w = d.tail
		}
		d.put(p[:w])
		if n != w || (k > 0 && (err != nil) != (w < k)) {
			return fmt.Sprintf("returned %d, %v; want %d", n, err, w)
		}
		for i := range q { // the caller may reuse its slice
			q[i] = 0xee
		}
		return ""
	}}
}

func opWriteByte() ubOp {
	return ubOp{"WriteByte", func(ub *ustack.UBuf, d *deque) string {
		p := d.fresh(1)
		err := ub.WriteByte(p[0])
		if (err != nil) != (d.tail < 1) {
			return fmt.Sprintf("err %v with tail room %d", err, d.tail)
		}
		if err == nil {
			d.put(p)
		}
		return ""
	}}
}

func opHead(k int) ubOp {
	return ubOp{fmt.Sprintf("WriteHeadBytes(%d bytes)", k), func(ub *ustack.UBuf, d *deque) string {
		p := d.fresh(k)
		q := append([]byte(nil), p...)
		err := ub.WriteHeadBytes(q)
		if k > 0 && (err != nil) != (d.head < k) {
			return fmt.Sprintf("err %v with head room %d", err, d.head)
		}
		if err == nil {
			d.putHead(p)
		}
		for i := range q {
			q[i] = 0xee
		}
		return ""
	}}
}

func opHeadByte() ubOp {
	return ubOp{"WriteHeadByte", func(ub *ustack.UBuf, d *deque) string {
		p := d.fresh(1)
		err := ub.WriteHeadByte(p[0])
		if (err != nil) != (d.head < 1) {
			return fmt.Sprintf("err %v with head room %d", err, d.head)
		}
		if err == nil {
			d.putHead(p)
		}
		return ""
	}}
}

func opRead(k int) ubOp {
	return ubOp{fmt.Sprintf("Read(%d bytes)", k), func(ub *ustack.UBuf, d *deque) string {
		p := make([]byte, k)
		n, err := ub.Read(p)
		w := k
		if w > len(d.data) {
			w = len(d.data)
		}
		empty := len(d.data) == 0
		want := d.take(w)
		if n != w || !bytes.Equal(p[:w], want) || (!empty && k > 0 && (err != nil) != (w < k)) {
			return fmt.Sprintf("returned %d, % x, %v; want % x", n, p, err, want)
		}
		for i := w; i < k; i++ {
			if p[i] != 0 {
				return "wrote past the reported length"
			}
		}
		return ""
	}}
}

func opReadByte() ubOp {
	return ubOp{"ReadByte", func(ub *ustack.UBuf, d *deque) string {
		b, err := ub.ReadByte()
		if (err != nil) != (len(d.data) < 1) {
			return fmt.Sprintf("err %v with %d readable", err, len(d.data))
		}
		if err == nil {
			if w := d.take(1); w[0] != b {
				return fmt.Sprintf("returned %x, want %x", b, w[0])
			}
		}
		return ""
	}}
}

func opPeek(k int) ubOp {
	return ubOp{fmt.Sprintf("Peek(%d bytes)", k), func(ub *ustack.UBuf, d *deque) string {
		p := make([]byte, k)
		n, err := ub.Peek(p)
		w := k
		if w > len(d.data) {
			w = len(d.data)
		}
		if n != w || !bytes.Equal(p[:w], d.data[:w]) || (k > 0 && (err != nil) != (w < k)) {
			return fmt.Sprintf("returned %d, % x, %v; want % x", n, p, err, d.data[:w])
		}
		return ""
	}}
}

func opPeekByte() ubOp {
	return ubOp{"PeekByte", func(ub *ustack.UBuf, d *deque) string {
		b, err := ub.PeekByte()
		if (err != nil) != (len(d.data) < 1) || (err == nil && b != d.data[0]) {
			return fmt.Sprintf("returned %x, %v with % x readable", b, err, d.data)
		}
		return ""
	}}
}

func opReset() ubOp {
	return ubOp{"Reset", func(ub *ustack.UBuf, d *deque) string { ub.Reset(); d.reset(); return "" }}
}

// integer methods by width, order (0 unsuffixed, 1 BE, 2 LE)
type intMethods struct {
	w, h func(*ustack.UBuf, uint64) error
	r, p func(*ustack.UBuf) (uint64, error)
}

func im[T uint16 | uint32 | uint64](w, h func(*ustack.UBuf, T) error, r, p func(*ustack.UBuf) (T, error)) intMethods {
	return intMethods{
		func(u *ustack.UBuf, v uint64) error { return w(u, T(v)) },
		func(u *ustack.UBuf, v uint64) error { return h(u, T(v)) },
		func(u *ustack.UBuf) (uint64, error) { v, e := r(u); return uint64(v), e },
		func(u *ustack.UBuf) (uint64, error) { v, e := p(u); return uint64(v), e },
	}
}

type ub = ustack.UBuf

var ints = map[int][3]intMethods{
	2: {im((*ub).WriteU16, (*ub).WriteHeadU16, (*ub).ReadU16, (*ub).PeekU16),
		im((*ub).WriteU16BE, (*ub).WriteHeadU16BE, (*ub).ReadU16BE, (*ub).PeekU16BE),
		im((*ub).WriteU16LE, (*ub).WriteHeadU16LE, (*ub).ReadU16LE, (*ub).PeekU16LE)},
	4: {im((*ub).WriteU32, (*ub).WriteHeadU32, (*ub).ReadU32, (*ub).PeekU32),
		im((*ub).WriteU32BE, (*ub).WriteHeadU32BE, (*ub).ReadU32BE, (*ub).PeekU32BE),
		im((*ub).WriteU32LE, (*ub).WriteHeadU32LE, (*ub).ReadU32LE, (*ub).PeekU32LE)},
	8: {im((*ub).WriteU64, (*ub).WriteHeadU64, (*ub).ReadU64, (*ub).PeekU64),
		im((*ub).WriteU64BE, (*ub).WriteHeadU64BE, (*ub).ReadU64BE, (*ub).PeekU64BE),
		im((*ub).WriteU64LE, (*ub).WriteHeadU64LE, (*ub).ReadU64LE, (*ub).PeekU64LE)},
}

var orderName = []string{"", "BE", "LE"}

func layout(v uint64, w, order int) []byte {
	var b [8]byte
	if order == 2 {
		binary.LittleEndian.PutUint64(b[:], v)
		return append([]byte(nil), b[:w]...)
	}
	binary.BigEndian.PutUint64(b[:], v)
	return append([]byte(nil), b[8-w:]...)
}

func unlayout(p []byte, order int) uint64 {
	var b [8]byte
	if order == 2 {
		copy(b[:], p)
		return binary.LittleEndian.Uint64(b[:])
	}
	copy(b[8-len(p):], p)
	return binary.BigEndian.Uint64(b[:])
}

func opIntWrite(w, order int, v uint64, head bool) ubOp {
	name := fmt.Sprintf("WriteU%d%s(%#x)", w*8, orderName[order], v)
	if head {
		name = "Head" + name
	}
	return ubOp{name, func(u *ustack.UBuf, d *deque) string {
		m := ints[w][order]
		room := d.tail
		fn := m.w
		if head {
			room, fn = d.head, m.h
		}
		err := fn(u, v)
		if (err != nil) != (room < w) {
			return fmt.Sprintf("err %v with room %d", err, room)
		}
		if err == nil {
			if head {
				d.putHead(layout(v, w, order))
			} else {
				d.put(layout(v, w, order))
			}
		}
		return ""
	}}
}

func opIntRead(w, order int, peek bool) ubOp {
	name := fmt.Sprintf("ReadU%d%s", w*8, orderName[order])
	if peek {
		name = fmt.Sprintf("PeekU%d%s", w*8, orderName[order])
	}
	return ubOp{name, func(u *ustack.UBuf, d *deque) string {
		m := ints[w][order]
		fn := m.r
		if peek {
			fn = m.p
		}
		v, err := fn(u)
		if (err != nil) != (len(d.data) < w) {
			return fmt.Sprintf("err %v with %d readable", err, len(d.data))
		}
		if err == nil {
			p := append([]byte(nil), d.data[:w]...)
			if !peek {
				p = d.take(w)
			}
			if want := unlayout(p, order); v != want {
				return fmt.Sprintf("returned %#x, want %#x", v, want)
			}
		}
		return ""
	}}
}

// seqs runs f on every sequence of length n over 0..k-1 (all shorter ones are prefixes).
func seqs(n, k int, f func(s []int)) {
	s := make([]int, n)
	for {
		f(s)
		i := n - 1
		for i >= 0 {
			s[i]++
			if s[i] < k {
				break
			}
			s[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// dirty returns a slice whose whole capacity holds old bytes.
func dirty(n, c int) []byte {
	p := make([]byte, c)
	for i := range p {
		p[i] = 0xa5
	}
	return p[:n]
}

type ubConfig struct {
	name string
	mk   func() (*ustack.UBuf, *deque)
}

func ubConfigs(caps []int) []ubConfig {
	var l []ubConfig
	for _, c := range caps {
		c := c
		for r := 0; r <= c; r++ {
			r := r
			l = append(l, ubConfig{fmt.Sprintf("UBufAllocWithHeadReserved(%d,%d)", c, r), func() (*ustack.UBuf, *deque) {
				return ustack.UBufAllocWithHeadReserved(c, r), newDeque(c, r)
			}})
			for _, ln := range []int{0, c / 2, c} {
				ln := ln
				if ln == c/2 && c/2 == 0 {
					continue
				}
				l = append(l, ubConfig{fmt.Sprintf("UBufFromWithHeadReserved(len %d cap %d,%d)", ln, c, r), func() (*ustack.UBuf, *deque) {
					return ustack.UBufFromWithHeadReserved(dirty(ln, c), r), newDeque(c, r)
				}})
			}
		}
		l = append(l, ubConfig{fmt.Sprintf("UBufAlloc(%d)", c), func() (*ustack.UBuf, *deque) { return ustack.UBufAlloc(c), newDeque(c, 0) }})
		l = append(l, ubConfig{fmt.Sprintf("UBufFrom(len 1 cap %d)", c), func() (*ustack.UBuf, *deque) { return ustack.UBufFrom(dirty(1, c)), newDeque(c, 0) }})
	}
	return l
}

func runSeqs(cfgs []ubConfig, ops []ubOp, depth int) {
	cfg := cfgs[vrt.Choose(len(cfgs))]
	var cur []int
	upto := 0
	vrt.SetCase(func() string {
		s := cfg.name
		for i := 0; i <= upto && i < len(cur); i++ {
			s += "; " + ops[cur[i]].name
		}
		return s
	})
	var n, tr int64
	seqs(depth, len(ops), func(s []int) {
		cur, upto = s, 0
		vrt.ResetBudget()
		u, d := cfg.mk()
		if u == nil {
			vrt.Fail("constructor returned nil")
		}
		for i, o := range s {
			upto = i
			if e := ops[o].f(u, d); e != "" {
				vrt.Fail("%s: %s", ops[o].name, e)
			}
			if e := d.same(u); e != "" {
				vrt.Fail("after %s: %s", ops[o].name, e)
			}
		}
		n++
		tr += int64(len(s))
	})
	vrt.Count("traces", n)
	vrt.Count("states", n)
	vrt.Count("transitions", tr)
	vrt.Outcome(fmt.Sprintf("%s: %d sequences of %d of %d operations agree with the deque", cfg.name, n, depth, len(ops)))
}

func init() {
	scenario(&Scenario{Name: "ubuf/deque", Props: []string{"C01"}, Shards: [2]int{8, 8},
		What: "all operation sequences (14 operations, depth 4 quick / 5 thorough) on every constructor, capacity 1..3 (quick) / 1..5, head reservation and wrapped-slice length, against a byte deque",
		Body: func() {
			ops := []ubOp{opWrite(0), opWrite(1), opWrite(2), opWrite(4), opWriteByte(), opHead(1), opHead(2), opHeadByte(),
				opRead(1), opRead(3), opReadByte(), opPeek(2), opPeekByte(), opReset()}
			caps := []int{1, 2, 3}
			if tier == 1 {
				caps = []int{1, 2, 3, 4, 5}
			}
			runSeqs(ubConfigs(caps), ops, pick(4, 5))
		}})
	scenario(&Scenario{Name: "ubuf/deque-ints", Props: []string{"C01", "C02"}, Shards: [2]int{8, 8},
		What: "all operation sequences mixing integer and byte operations at head and tail (depth 3 quick / 4 thorough) over capacities that do and do not hold them",
		Body: func() {
			ops := []ubOp{opWrite(1), opHead(1), opRead(1), opReset(), opWrite(0), opHead(0)}
			for _, w := range []int{2, 4, 8} {
				for _, o := range []int{0, 1, 2} {
					v := uint64(0xf1e2d3c4b5a69788)
					if w < 8 {
						v >>= uint(64 - 8*w)
					}
					ops = append(ops, opIntWrite(w, o, v, false), opIntWrite(w, o, v, true), opIntRead(w, o, false), opIntRead(w, o, true))
				}
			}
			var cfgs []ubConfig
			rs := []int{0, 2, 5, 8, 9}
			if tier == 1 {
				rs = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10}
			}
			for _, c := range []int{3, 9, 12} {
				c := c
				for _, r := range rs {
					r := r
					if r > c {
						continue
					}
					cfgs = append(cfgs, ubConfig{fmt.Sprintf("UBufAllocWithHeadReserved(%d,%d)", c, r), func() (*ustack.UBuf, *deque) {
						if (c+r)&1 == 1 {
							return ustack.UBufFromWithHeadReserved(dirty(r, c), r), newDeque(c, r)
						}
						return ustack.UBufAllocWithHeadReserved(c, r), newDeque(c, r)
					}})
				}
			}
			runSeqs(cfgs, ops, pick(3, 4))
		}})
	scenario(&Scenario{Name: "ubuf/int-values", Props: []string{"C02"},
		What: "all 2^16 16-bit values and all one- and two-byte patterns of the wider widths, every method family, head and tail, exact layout, read-back and peek",
		Body: func() {
			name := ""
			vrt.SetCase(func() string { return name })
			var n int64
			try := func(w, o int, v uint64, head bool) {
				vrt.ResetBudget()
				u := ustack.UBufFromWithHeadReserved(dirty(1, 2*w+3), w+1)
				d := newDeque(2*w+3, w+1)
				for _, op := range []ubOp{opWrite(1), opIntWrite(w, o, v, head), opIntRead(w, o, true), opIntRead(w, o, false)} {
					name = op.name
					if e := op.f(u, d); e != "" {
						vrt.Fail("%s of %#x head=%v: %s", op.name, v, head, e)
					}
					if e := d.same(u); e != "" {
						vrt.Fail("after %s of %#x head=%v: %s", op.name, v, head, e)
					}
				}
				n++
			}
			for _, o := range []int{0, 1, 2} {
				for _, head := range []bool{false, true} {
					for v := 0; v < 1<<16; v += pick(7, 1) {
						try(2, o, uint64(v), head)
					}
					for _, w := range []int{2, 4, 8} {
						for i := 0; i < w; i++ {
							for j := 0; j < w; j++ {
								for _, a := range []uint64{0, 1, 0x7f, 0x80, 0xff} {
									for _, b := range []uint64{0, 1, 0x7f, 0x80, 0xfe} {
										v := a<<(8*i) | b<<(8*j)
										try(w, o, v, head)
										try(w, o, ^v&(1<<(8*w)-1), head)
									}
								}
							}
						}
					}
				}
			}
			vrt.Count("traces", n)
			vrt.Count("states", n)
			vrt.Count("transitions", n*4)
			vrt.Outcome(fmt.Sprintf("%d value/order/position combinations round-trip with the declared layout", n))
		}})
	scenario(&Scenario{Name: "ubuf/streams", Props: []string{"C03"}, Shards: [2]int{8, 8},
		What: "all scripts of reader and writer answers (byte count x {nil, EOF, other error}) interleaved with reads, writes and snapshots, depth 3 quick / 4 thorough",
		Body: streamBody})
	scenario(&Scenario{Name: "ubuf/snapshots", Props: []string{"C04"}, Shards: [2]int{8, 8},
		What: "all histories (depth 5 quick / 6 thorough) of writes, head writes, reads, resets, ReadFrom and copy-on-write/direct snapshots over up to 3 handles; every handle compared with its own private deque after every step",
		Body: snapshotBody})
	scenario(&Scenario{Name: "ubuf/snapshots-every-op", Props: []string{"C04"}, Shards: [2]int{8, 8},
		What: "from boundary states of capacities 9, 11, 17 and 70000: a copy-on-write, direct or second-level snapshot, then every operation (all integer methods, byte slices, streams, reset) on any handle, then every operation on any handle; every handle compared with its own private deque",
		Body: snapshotOps})
	for _, b := range []int{0, 1} {
		b := b
		scenario(&Scenario{Name: []string{"ubuf/cow-2tasks", "ubuf/cow-3tasks"}[b], Props: []string{"C05"}, Bound: [2]int{[]int{3, 2}[b], []int{5, 3}[b]}, Shards: [2]int{8, 8}, Cap: [2]int{16000000, 60000000}, CopyPoints: true,
			What: "all interleavings of tasks that each own one copy-on-write handle and run every 2-operation script; data copies and completions of atomics are scheduling points",
			Body: func() { cowBody(2 + b) }})
	}
}

// everyState runs every operation once from every state (capacity, head
// reservation, read position, write position) of a UBuf.
func everyState(caps, big []int, mkOps func(sizes []int) []ubOp) {
	all := append(append([]int(nil), caps...), big...)
	ci := vrt.Choose(len(all))
	c := all[ci]
	old := vrt.Choose(2) == 1 // the storage holds old bytes
	name, st := "", ""
	vrt.SetCase(func() string { return st + "; " + name })
	pos := func(lo, hi int) []int {
		var l []int
		if ci < len(caps) {
			for i := lo; i <= hi; i++ {
				l = append(l, i)
			}
			return l
		}
		seen := map[int]bool{}
		for _, i := range []int{lo, lo + 1, lo + 9, (lo + hi) / 2, hi - 9, hi - 1, hi} {
			if i >= lo && i <= hi && !seen[i] {
				seen[i] = true
				l = append(l, i)
			}
		}
		return l
	}
	var n int64
	for _, res := range pos(0, c) {
		for _, w := range pos(res, c) {
			for _, r := range pos(0, w) {
				mk := func() (*ustack.UBuf, *deque) {
					u, d := ustack.UBufAllocWithHeadReserved(c, res), newDeque(c, res)
					if old {
						u = ustack.UBufFromWithHeadReserved(dirty(c/2, c), res)
					}
					if w > res {
						opWrite(w-res).f(u, d)
					}
					if r > res {
						opRead(r-res).f(u, d)
					} else if r < res {
						opHead(res-r).f(u, d)
					}
					return u, d
				}
				st = fmt.Sprintf("capacity %d, reserved %d, read position %d, write position %d, old bytes %v", c, res, r, w, old)
				var sizes []int
				seen := map[int]bool{}
				for _, k := range []int{r, w - r, c - w} {
					for _, i := range append(pos(0, k), k+1) {
						if !seen[i] {
							seen[i] = true
							sizes = append(sizes, i)
						}
					}
				}
				for _, op := range mkOps(sizes) {
					vrt.ResetBudget()
					u, d := mk()
					name = "reach the state"
					if e := d.same(u); e != "" {
						vrt.Fail("%s", e)
					}
					name = op.name
					if e := op.f(u, d); e != "" {
						vrt.Fail("%s: %s", op.name, e)
					}
					if e := d.same(u); e != "" {
						vrt.Fail("after %s: %s", op.name, e)
					}
					n++
				}
			}
		}
	}
	vrt.Count("traces", n)
	vrt.Count("states", n)
	vrt.Count("transitions", n)
	vrt.Outcome(fmt.Sprintf("capacity %d: %d (state, operation) pairs agree with the deque", c, n))
}

func stateCaps() ([]int, []int) {
	var l []int
	for i := 1; i <= pick(14, 32); i++ {
		l = append(l, i)
	}
	return l, []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 2048, 4095, 4096, 4097, 65535, 65536, 65537}
}

func init() {
	scenario(&Scenario{Name: "ubuf/every-state", Props: []string{"C01"}, Shards: [2]int{8, 8},
		What: "every byte operation, with every size, once from every state (head reservation, read and write position) of every capacity up to 14 (thorough 32), and from boundary states of capacities up to 65537",
		Body: func() {
			c, b := stateCaps()
			everyState(c, b, func(sizes []int) []ubOp {
				ops := []ubOp{opWriteByte(), opHeadByte(), opReadByte(), opPeekByte(), opReset()}
				for _, k := range sizes {
					ops = append(ops, opWrite(k), opHead(k), opRead(k), opPeek(k))
				}
				return ops
			})
		}})
	scenario(&Scenario{Name: "ubuf/ints-every-state", Props: []string{"C01", "C02"}, Shards: [2]int{8, 8},
		What: "every integer operation once from every state of every capacity up to 14 (thorough 32), and from boundary states of capacities up to 65537",
		Body: func() {
			c, b := stateCaps()
			everyState(c, b, func([]int) []ubOp {
				var ops []ubOp
				for _, w := range []int{2, 4, 8} {
					for _, o := range []int{0, 1, 2} {
						v := uint64(0xf1e2d3c4b5a69788) >> uint(64-8*w)
						ops = append(ops, opIntWrite(w, o, v, false), opIntWrite(w, o, v, true), opIntRead(w, o, false), opIntRead(w, o, true))
					}
				}
				return ops
			})
		}})
	scenario(&Scenario{Name: "ubuf/streams-every-state", Props: []string{"C03"}, Shards: [2]int{8, 8},
		What: "every reader and writer answer (count x error, short writes with and without an error) once from every state of every capacity up to 14 (thorough 32), and from boundary states of capacities up to 65537",
		Body: func() {
			c, b := stateCaps()
			everyState(c, b, func(sizes []int) []ubOp {
				var ops []ubOp
				for _, k := range sizes {
					for _, e := range []error{nil, io.EOF, errScript} {
						ops = append(ops, opReadFrom(answer{n: k, err: e}), opWriteTo(answer{n: k, err: e}))
					}
					ops = append(ops, opWriteTo(answer{n: k, mute: true}))
				}
				return ops
			})
		}})
}

var errScript = errors.New("scripted error")

type answer struct {
	n    int
	err  error
	mute bool // a short write is reported without an error
}

type scriptReader struct {
	a     answer
	d     *deque
	given []byte
	room  int
	calls int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.calls++
	r.room = len(p)
	n := r.a.n
	if n > len(p) {
		n = len(p)
	}
	r.given = r.d.fresh(n)
	copy(p, r.given)
	return n, r.a.err
}

type scriptWriter struct {
	a     answer
	got   []byte
	want  []byte // what is still to come
	bad   string
	last  error
	calls int
}

// Write accepts what the script says; the buffer may offer its data in
// several calls as long as it goes on where the previous one ended.
func (w *scriptWriter) Write(p []byte) (int, error) {
	w.calls++
	if !bytes.HasPrefix(w.want, p) && w.bad == "" {
		w.bad = fmt.Sprintf("call %d offered % x, want % x", w.calls, p, w.want)
	}
	if w.last != nil && w.bad == "" {
		w.bad = fmt.Sprintf("called again after the writer reported %v", w.last)
	}
	if w.calls > 100+len(w.want)+len(w.got) && w.bad == "" {
		w.bad = "endless calls of the writer"
	}
	n := w.a.n
	if n > len(p) {
		n = len(p)
	}
	w.got = append(w.got, p[:n]...)
	if w.bad == "" {
		w.want = w.want[n:]
	}
	w.last = w.a.err
	if n < len(p) && w.last == nil && (!w.a.mute || w.bad != "") {
		w.last = io.ErrShortWrite
	}
	return n, w.last
}

func opReadFrom(a answer) ubOp {
	return ubOp{fmt.Sprintf("ReadFrom(reader giving %d,%v)", a.n, a.err), func(u *ustack.UBuf, d *deque) string {
		r := &scriptReader{a: a, d: d}
		n, err := u.ReadFrom(r)
		if r.calls > 1 {
			return fmt.Sprintf("reader called %d times", r.calls)
		}
		if r.calls == 0 {
			if d.tail > 0 || n != 0 {
				return fmt.Sprintf("returned %d, %v without asking the reader, tail room %d", n, err, d.tail)
			}
			return ""
		}
		if r.room > d.tail {
			return fmt.Sprintf("offered %d bytes of room, has %d", r.room, d.tail)
		}
		if int(n) != len(r.given) || err != a.err {
			return fmt.Sprintf("reported %d, %v; the reader delivered %d, %v", n, err, len(r.given), a.err)
		}
		d.put(r.given)
		return ""
	}}
}

func opWriteTo(a answer) ubOp {
	return ubOp{fmt.Sprintf("WriteTo(writer taking %d,%v)", a.n, a.err), func(u *ustack.UBuf, d *deque) string {
		w := &scriptWriter{a: a, want: append([]byte(nil), d.data...)}
		n, err := u.WriteTo(w)
		if w.bad != "" {
			return w.bad
		}
		if w.calls == 0 {
			if len(d.data) > 0 || n != 0 {
				return fmt.Sprintf("returned %d, %v without asking the writer, %d readable", n, err, len(d.data))
			}
			return ""
		}
		if err == io.ErrShortWrite && a.mute && len(w.got) < len(d.data) {
			err = nil // what the writer should have said
		}
		if int(n) != len(w.got) || err != w.last || err == nil && !a.mute && len(w.got) < len(d.data) {
			return fmt.Sprintf("reported %d, %v; the writer accepted %d of %d, %v", n, err, len(w.got), len(d.data), w.last)
		}
		d.take(len(w.got))
		return ""
	}}
}

// opSnap replaces the buffer's storage relation: a COW snapshot exists meanwhile.
func opSnapHold(t int) ubOp {
	return ubOp{fmt.Sprintf("snapshot(type %d) held", t), func(u *ustack.UBuf, d *deque) string {
		s := ustack.UBufMakeSnapshot(u, t)
		if s == nil {
			return "snapshot is nil"
		}
		return d.same(s)
	}}
}

func streamBody() {
	var ops []ubOp
	for n := 0; n <= 3; n++ {
		for _, e := range []error{nil, io.EOF, errScript} {
			ops = append(ops, opReadFrom(answer{n: n, err: e}))
			if e != io.EOF {
				ops = append(ops, opWriteTo(answer{n: n, err: e}))
			}
		}
	}
	ops = append(ops, opWriteTo(answer{n: 1, mute: true}), opRead(1), opWrite(1), opHead(1), opReset(), opSnapHold(ustack.UBufSnapshotTypeCopyOnWrite))
	var cfgs []ubConfig
	for _, c := range []int{1, 2, 3, 4} {
		for r := 0; r <= 1; r++ {
			c, r := c, r
			cfgs = append(cfgs, ubConfig{fmt.Sprintf("UBufAllocWithHeadReserved(%d,%d)", c, r), func() (*ustack.UBuf, *deque) {
				return ustack.UBufAllocWithHeadReserved(c, r), newDeque(c, r)
			}})
			cfgs = append(cfgs, ubConfig{fmt.Sprintf("UBufFromWithHeadReserved(len 1 cap %d,%d)", c, r), func() (*ustack.UBuf, *deque) {
				return ustack.UBufFromWithHeadReserved(dirty(1, c), r), newDeque(c, r)
			}})
		}
	}
	runSeqs(cfgs, ops, pick(3, 4))
}

func snapshotBody() {
	type cfg struct{ c, r, pre int }
	var cfgs []cfg
	for _, c := range []int{1, 2, 4} {
		for r := 0; r <= 2 && r <= c; r++ {
			for p := 0; p <= 1 && r+p <= c; p++ {
				cfgs = append(cfgs, cfg{c, r, p})
			}
		}
	}
	ops := []ubOp{opWrite(1), opHeadByte(), opRead(1), opReset(), opReadFrom(answer{n: 1})}
	if tier == 1 {
		ops = append(ops, opIntWrite(2, 1, 0xa1b2, false), opHead(2))
	}
	no := len(ops)
	c := cfgs[vrt.Choose(len(cfgs))]
	depth := pick(5, 6)
	first := 0
	if tier == 1 {
		first = vrt.Choose(no + 2)
	}
	var hist []string
	vrt.SetCase(func() string { return fmt.Sprintf("cap %d reserved %d prefilled %d: %v", c.c, c.r, c.pre, hist) })
	var n, tr int64
	seq := make([]int, depth)
	// enumerate by counting in the variable radix given by the live handles
	var rec func(i, handles int)
	run := func() {
		hist = hist[:0]
		vrt.ResetBudget()
		us := []*ustack.UBuf{ustack.UBufAllocWithHeadReserved(c.c, c.r)}
		ds := []*deque{newDeque(c.c, c.r)}
		if c.pre > 0 {
			opWrite(c.pre).f(us[0], ds[0])
		}
		for k := range seq {
			h, o := seq[k]/(no+2), seq[k]%(no+2)
			if o < no {
				hist = append(hist, fmt.Sprintf("#%d.%s", h, ops[o].name))
				ds[h].ctr = byte(16 * (k + 1))
				if e := ops[o].f(us[h], ds[h]); e != "" {
					vrt.Fail("%s", e)
				}
			} else {
				t := []int{ustack.UBufSnapshotTypeCopyOnWrite, ustack.UBufSnapshotTypeCopyDirectly}[o-no]
				hist = append(hist, fmt.Sprintf("#%d=snapshot(#%d,type %d)", len(us), h, t))
				s := ustack.UBufMakeSnapshot(us[h], t)
				if s == nil {
					vrt.Fail("snapshot is nil")
				}
				us = append(us, s)
				ds = append(ds, ds[h].clone())
			}
			for x := range us {
				if e := ds[x].same(us[x]); e != "" {
					vrt.Fail("handle #%d: %s", x, e)
				}
			}
			tr++
		}
		n++
	}
	rec = func(i, handles int) {
		if i == depth {
			run()
			return
		}
		for h := 0; h < handles; h++ {
			for o := 0; o < no+2; o++ {
				if o >= no && handles == 3 {
					continue
				}
				seq[i] = h*(no+2) + o
				nh := handles
				if o >= no {
					nh++
				}
				rec(i+1, nh)
			}
		}
	}
	if tier == 1 {
		seq[0] = first
		nh := 1
		if first >= no {
			nh = 2
		}
		rec(1, nh)
	} else {
		rec(0, 1)
	}
	vrt.Count("traces", n)
	vrt.Count("states", n)
	vrt.Count("transitions", tr)
	vrt.Outcome(fmt.Sprintf("cap %d reserved %d prefilled %d: %d histories isolated", c.c, c.r, c.pre, n))
}

// snapshotOps: every operation on either handle right after a snapshot, from
// every state, then every operation on either handle again.
func snapshotOps() {
	caps := []int{9, 11, 17, 70000}
	c := caps[vrt.Choose(len(caps))]
	kind := vrt.Choose(3) // copy on write, direct, a snapshot of a snapshot
	kinds := []string{"copy on write", "direct copy", "copy on write of a copy on write"}
	mid := c / 2
	var ops []ubOp
	for _, w := range []int{2, 4, 8} {
		for _, o := range []int{0, 1, 2} {
			v := uint64(0xf1e2d3c4b5a69788) >> uint(64-8*w)
			ops = append(ops, opIntWrite(w, o, v, false), opIntWrite(w, o, v, true), opIntRead(w, o, false))
		}
	}
	ops = append(ops, opWriteByte(), opHeadByte(), opReadByte(), opReset(), opReadFrom(answer{n: 2}), opReadFrom(answer{n: 1 << 20}), opWriteTo(answer{n: 1}), opWriteTo(answer{n: 1 << 20}))
	for _, k := range []int{0, 1, mid, c} {
		ops = append(ops, opWrite(k), opHead(k), opRead(k))
	}
	st := ""
	var hist [2]string
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s, then %s, %s", st, kinds[kind], hist[0], hist[1]) })
	var n int64
	for _, res := range []int{0, 1, mid, c} {
		for _, w := range []int{res, mid, c - 1, c} {
			for _, r := range []int{0, 1, res, w} {
				if w < res || r > w || r < 0 || c > 100 && (res != mid || w == c-1 || r == 1) {
					continue
				}
				st = fmt.Sprintf("capacity %d, reserved %d, read position %d, write position %d", c, res, r, w)
				mk := func() ([]*ustack.UBuf, []*deque) {
					u, d := ustack.UBufFromWithHeadReserved(dirty(1, c), res), newDeque(c, res)
					if w > res {
						opWrite(w-res).f(u, d)
					}
					if r > res {
						opRead(r-res).f(u, d)
					} else if r < res {
						opHead(res-r).f(u, d)
					}
					us, ds := []*ustack.UBuf{u}, []*deque{d}
					snap := func(t int) {
						us = append(us, ustack.UBufMakeSnapshot(us[len(us)-1], t))
						ds = append(ds, d.clone())
					}
					if kind == 1 {
						snap(ustack.UBufSnapshotTypeCopyDirectly)
					} else {
						snap(ustack.UBufSnapshotTypeCopyOnWrite)
					}
					if kind == 2 {
						snap(ustack.UBufSnapshotTypeCopyOnWrite)
					}
					return us, ds
				}
				big := c > 100
				for h1 := 0; h1 < 2+kind/2; h1++ {
					for _, o1 := range ops {
						for h2 := 0; h2 < 2+kind/2; h2++ {
							for k2, o2 := range ops {
								if big && k2%13 != 1 || k2%2 == (h1+h2)&1 && tier == 0 {
									continue
								}
								vrt.ResetBudget()
								us, ds := mk()
								for k, h := range []int{h1, h2} {
									op := []ubOp{o1, o2}[k]
									hist = [2]string{fmt.Sprintf("#%d.%s", h1, o1.name), ""}
									if k == 1 {
										hist[1] = fmt.Sprintf("#%d.%s", h2, o2.name)
									}
									ds[h].ctr = byte(100 * (k + 1))
									if e := op.f(us[h], ds[h]); e != "" {
										vrt.Fail("%s", e)
									}
									for x := range us {
										if e := ds[x].same(us[x]); e != "" {
											vrt.Fail("handle #%d: %s", x, e)
										}
									}
								}
								n++
							}
						}
					}
				}
			}
		}
	}
	vrt.Count("traces", n)
	vrt.Count("states", n)
	vrt.Count("transitions", 2*n)
	vrt.Outcome(fmt.Sprintf("capacity %d, %s: %d histories isolated", c, kinds[kind], n))
}

func cowBody(tasks int) {
	ops := []ubOp{opWrite(1), opHeadByte(), opRead(1), opReset(), opReadFrom(answer{n: 1}),
		{"snapshot+write+write source", func(u *ustack.UBuf, d *deque) string {
			s := ustack.UBufMakeSnapshot(u, ustack.UBufSnapshotTypeCopyOnWrite)
			e := d.clone()
			e.ctr += 100
			if x := opWrite(1).f(s, e); x != "" {
				return x
			}
			vrt.Yield()
			if x := e.same(s); x != "" {
				return "new snapshot: " + x
			}
			if x := opWrite(1).f(u, d); x != "" {
				return x
			}
			if x := e.same(s); x != "" {
				return "new snapshot after the source was written: " + x
			}
			return d.same(u)
		}}}
	u := ustack.UBufAllocWithHeadReserved(6, 2)
	d := newDeque(6, 2)
	d.ctr = 0x10
	opWrite(2).f(u, d)
	us, ds := []*ustack.UBuf{u}, []*deque{d}
	for i := 1; i < tasks; i++ {
		from := 0
		if i == 2 {
			from = vrt.Choose(2)
		}
		us = append(us, ustack.UBufMakeSnapshot(us[from], ustack.UBufSnapshotTypeCopyOnWrite))
		ds = append(ds, ds[from].clone())
	}
	scripts := make([][]int, tasks)
	for i := range scripts {
		scripts[i] = []int{vrt.Choose(len(ops))}
		if tasks == 2 || tier == 1 {
			scripts[i] = append(scripts[i], vrt.Choose(len(ops)))
		}
	}
	vrt.SetCase(func() string {
		s := ""
		for i, sc := range scripts {
			s += fmt.Sprintf("task %d:", i)
			for _, o := range sc {
				s += " " + ops[o].name
			}
			s += "; "
		}
		return s
	})
	fin := 0
	for i := range us {
		i := i
		ds[i].ctr = byte(0x20 * (i + 2))
		vrt.GoNamed(fmt.Sprintf("user%d", i), func() {
			for _, o := range scripts[i] {
				if e := ops[o].f(us[i], ds[i]); e != "" {
					vrt.Fail("handle #%d %s: %s", i, ops[o].name, e)
				}
				vrt.Yield()
				if e := ds[i].same(us[i]); e != "" {
					vrt.Fail("handle #%d after %s: %s", i, ops[o].name, e)
				}
			}
			fin++
		})
	}
	vrt.Quiesce()
	if fin != tasks {
		vrt.Fail("only %d of %d tasks finished", fin, tasks)
	}
	res := ""
	for i := range us {
		if e := ds[i].same(us[i]); e != "" {
			vrt.Fail("handle #%d at the end: %s", i, e)
		}
		res += fmt.Sprintf("%x/", ds[i].data)
	}
	vrt.Outcome(res)
}
