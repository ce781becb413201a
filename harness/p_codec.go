package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"ustack"
	"ustack/vrt"
)

// ---- the codecs, with an independent reference decoder -------------------

type rec struct {
	N int
	S string
	B []byte
	M map[string]int
	F float64
	P *rec
}

type codecT struct {
	name string
	mk   func() ustack.DataProcessor
	msgs []any // representable messages
	bad  []any // must not be sent
	dec  func([]byte) (any, bool)
	same func(got, sent any) bool
}

func deref(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		return rv.Elem().Interface()
	}
	return v
}

// normal form: empty and nil slices/maps are the same thing to a codec
func norm(v any) any {
	r, ok := deref(v).(rec)
	if !ok {
		return deref(v)
	}
	if len(r.B) == 0 {
		r.B = nil
	}
	if len(r.M) == 0 {
		r.M = nil
	}
	if r.P != nil {
		p := norm(*r.P).(rec)
		r.P = &p
	}
	return r
}

func sameObj(got, sent any) bool {
	if _, ok := got.(*rec); !ok {
		return false
	}
	return reflect.DeepEqual(norm(got), norm(sent))
}

func genericEnc(m interface{}, w io.Writer) error {
	if m == "late" {
		w.Write([]byte("#12"))
		return errors.New("fails after writing")
	}
	n, ok := m.(int)
	if !ok {
		return errors.New("not an int")
	}
	s := strconv.Itoa(n)
	// several writes
	if _, err := w.Write([]byte{'#'}); err != nil {
		return err
	}
	for i := 0; i < len(s); i++ {
		if _, err := w.Write([]byte{s[i]}); err != nil {
			return err
		}
	}
	return nil
}

func genericDec(r io.Reader) (interface{}, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	// (what comes with an error is not a message)
	if len(b) < 2 || b[0] != '#' {
		return -99, errors.New("bad")
	}
	n, err := strconv.Atoi(string(b[1:]))
	if err != nil {
		return n, err
	}
	return n, nil
}

func recs() []any {
	return []any{
		rec{}, &rec{N: 1}, rec{N: math.MinInt64, S: "x"}, rec{N: math.MaxInt64}, rec{S: "h\u00e9\u4e16 \"\\<>&\n\x00"},
		rec{B: []byte{0, 1, 0x83, 0x10, 0x23, 0xff}}, rec{M: map[string]int{"a": 1, "": -1}}, &rec{F: 0.1, N: -7},
		rec{F: math.SmallestNonzeroFloat64}, rec{P: &rec{N: 3, S: "in"}}, rec{S: strings.Repeat("z", 40)},
	}
}

func codecs() []codecT {
	return []codecT{
		{"bytes", ustack.NewBytesCodec, []any{[]byte{1}, []byte{0x83}, []byte{0, 0, 0, 1, 7}, []byte{0x10}, []byte{0x23, 0}, []byte("hello"), []byte{0xff, 0xff, 0xff, 0xff}, []byte{0}},
			[]any{nil, "s", 7, rec{}, &rec{}, []int{1}, [1]byte{1}, []string{"a"}},
			func(b []byte) (any, bool) { return append([]byte{}, b...), len(b) > 0 },
			func(g, s any) bool {
				x, ok := g.([]byte)
				y, ok2 := s.([]byte)
				return ok && ok2 && bytes.Equal(x, y)
			}},
		{"string", ustack.NewStringCodec, []any{"a", "\x83", "\x00\x00\x00\x01x", "\x10", "h\u00e9llo", "\xff\xfe", "\x00", "#1"},
			[]any{nil, []byte("s"), 7, rec{}, &rec{}, []string{"a"}},
			func(b []byte) (any, bool) { return string(b), len(b) > 0 },
			func(g, s any) bool { return reflect.DeepEqual(g, s) }},
		{"json", func() ustack.DataProcessor { return ustack.NewJSONCodec(reflect.TypeOf(rec{})) }, recs(),
			[]any{nil, make(chan int), func() {}, math.Inf(1), rec{F: math.NaN()}},
			func(b []byte) (any, bool) { r := &rec{}; return r, json.Unmarshal(b, r) == nil }, sameObj},
		{"gob", func() ustack.DataProcessor { return ustack.NewGOBCodec(reflect.TypeOf(rec{})) }, recs(),
			[]any{nil, make(chan int), func() {}},
			func(b []byte) (any, bool) { r := &rec{}; return r, gob.NewDecoder(bytes.NewReader(b)).Decode(r) == nil }, sameObj},
		{"generic", func() ustack.DataProcessor { return ustack.NewGenericCodec(nil, genericEnc, genericDec) }, []any{0, 1, -1, 42, math.MaxInt64, math.MinInt64, 1000, 7},
			[]any{nil, "s", rec{}, []byte{1}, "late"},
			func(b []byte) (any, bool) { m, err := genericDec(bytes.NewReader(b)); return m, err == nil },
			func(g, s any) bool { return reflect.DeepEqual(g, s) }},
	}
}

// ---- the other processors ------------------------------------------------

type procT struct {
	name string
	mk   func() ustack.DataProcessor
	add  int // bytes it adds to a message
	rsv  int // bytes it reports as overhead
}

func off(p ustack.DataProcessor) ustack.DataProcessor { p.SetEnable(false); return p }

func passFilter() ustack.DataProcessor {
	return ustack.NewFilter(func(ustack.Context, bool) bool { return false }, func(ustack.Context, bool) bool { return true })
}
func passForwarder() ustack.DataProcessor {
	return ustack.NewForwarder(func(ustack.Context, bool) bool { return false }, func(ustack.Context, bool) bool { return false })
}
func statEvery(n int) func() ustack.DataProcessor {
	return func() ustack.DataProcessor {
		return ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", n)
	}
}

func procs() []procT {
	return []procT{
		{"session", ustack.NewSessionResolver, 4, 4},
		{"frame", ustack.NewFrameDecoder, 4, 4},
		{"heartbeat", ustack.NewHeartbeat, 1, 1},
		{"stat", statEvery(1), 1, 1},
		{"filter", passFilter, 0, 0},
		{"forwarder", passForwarder, 0, 0},
		{"flow", ustack.NewFlowController, 0, 0},
		{"session(off)", func() ustack.DataProcessor { return off(ustack.NewSessionResolver()) }, 0, 4},
		{"frame(off)", func() ustack.DataProcessor { return off(ustack.NewFrameDecoder()) }, 0, 4},
		{"stat(off)", func() ustack.DataProcessor { return off(ustack.NewStatCounter()) }, 1, 1},
		{"balancer(off)", func() ustack.DataProcessor { return off(ustack.NewLoadBalancer()) }, 1, 1},
		{"filter(off)", func() ustack.DataProcessor { return off(ustack.NewFilter()) }, 0, 0},
		{"forwarder(off)", func() ustack.DataProcessor {
			return off(ustack.NewForwarder(func(ustack.Context, bool) bool { return true }))
		}, 0, 0},
		{"flow(off)", func() ustack.DataProcessor { return off(ustack.NewFlowController()) }, 0, 0},
		{"echo(off)", func() ustack.DataProcessor { return off(ustack.NewEcho()) }, 0, 0},
		{"discarder(off)", func() ustack.DataProcessor { return off(ustack.NewDiscarder()) }, 0, 0},
	}
}

type stackT []procT

func (s stackT) mk(top ...ustack.DataProcessor) []ustack.DataProcessor {
	l := append([]ustack.DataProcessor{}, top...)
	for _, p := range s {
		l = append(l, p.mk())
	}
	return l
}

func (s stackT) String() string {
	var n []string
	for _, p := range s {
		n = append(n, p.name)
	}
	return "[" + strings.Join(n, " ") + "]"
}

func (s stackT) add() (n int) {
	for _, p := range s {
		n += p.add
	}
	return
}

func (s stackT) reserved() (n int) {
	for _, p := range s {
		n += p.rsv
	}
	return
}

// framed: the lowest processor that adds bytes is an enabled frame decoder,
// so reads may be cut anywhere.
func (s stackT) framed() bool {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i].add > 0 {
			return s[i].name == "frame"
		}
	}
	return false
}

func (s stackT) has(name string) bool {
	for _, p := range s {
		if p.name == name {
			return true
		}
	}
	return false
}

// eachStack enumerates all ordered selections (with repetition) of at most k
// processors; the first two are chosen (so that they are sharded).
func eachStack(k int, all []procT, f func(stackT)) {
	a := vrt.Choose(len(all) + 1)
	if a == len(all) {
		f(nil)
		return
	}
	b := vrt.Choose(len(all) + 1)
	if b == len(all) {
		f(stackT{all[a]})
		return
	}
	var rec func(s stackT)
	rec = func(s stackT) {
		f(append(stackT(nil), s...))
		if len(s) < k {
			for _, p := range all {
				rec(append(s, p))
			}
		}
	}
	rec(stackT{all[a], all[b]})
}

func init() {
	scenario(&Scenario{Name: "codec/round-trip", Props: []string{"C12"}, Body: codecRoundTrip,
		What: "every codec x every ordered pair of corpus messages x stacks without and with frame decoder, all cut patterns of a period: equal message of the registered type, earlier deliveries unchanged, caller's message may change after sending"})
	scenario(&Scenario{Name: "codec/all-small-messages", Props: []string{"C12"}, Shards: [2]int{2, 4}, Body: codecSmall,
		What: "bytes, string, JSON, GOB, generic: every byte string of length <= 3 over an 8-letter alphabet (and every single byte) as payload"})
	scenario(&Scenario{Name: "codec/all-sizes", Props: []string{"C12"}, Shards: [2]int{4, 8}, Body: codecSizes,
		What: "every codec without, below and above a frame decoder: messages of every encoded size up to the default MTU of 2048 (JSON, GOB, generic: every content size), two fillings, in ascending and descending order: delivered equal, earlier ones unchanged"})
	scenario(&Scenario{Name: "codec/unencodable", Props: []string{"C12", "C10"}, Body: codecBad,
		What: "every codec x every message of a wrong or unencodable type, before and after good messages: nothing on the wire, nothing delivered"})
	scenario(&Scenario{Name: "codec/undecodable", Props: []string{"C12"}, Body: codecUndecodable,
		What: "every truncation, extension and single-byte change of every encoded corpus message: delivered exactly what the reference decoder yields, or nothing; the next message is unaffected"})
	scenario(&Scenario{Name: "codec/partly-decodable", Props: []string{"C12"}, Shards: [2]int{2, 4}, Body: codecPartly,
		What: "JSON and GOB: all sequences of 3 received objects out of those that lack fields, have further fields, or fail to decode after some fields were decoded"})
	scenario(&Scenario{Name: "codec/two-connections", Props: []string{"C12"}, Bound: [2]int{3, 4}, Shards: [2]int{2, 4}, Body: codecConc,
		What: "two connections decode and two endpoints encode through one codec at the same time, all schedules within the bound"})
}

func codecRoundTrip() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	framed := vrt.Choose(2) == 1
	vrt.SchedOff()
	st := stackT{}
	if framed {
		st = stackT{procs()[1]}
	}
	var cases int64
	for i, m1 := range c.msgs {
		for j, m2 := range c.msgs {
			for _, step := range []int{0, 1, 3, 64} {
				if step > 0 && !framed {
					continue
				}
				vrt.ResetBudget()
				vrt.SetCase(func() string {
					return fmt.Sprintf("%s codec, frame %v, message %s then %s, reads of %d bytes", c.name, framed, show(m1), show(m2), step)
				})
				a, b := newRig(256, st.mk(c.mk())...), newRig(256, st.mk(c.mk())...)
				sent := []any{c.msgs[i], c.msgs[j], c.msgs[i]}
				for _, m := range sent {
					if x, ok := m.([]byte); ok {
						// the caller reuses its slice after sending
						y := append([]byte(nil), x...)
						a.send(a.conn, y, nil)
						for k := range y {
							y[k] = 0xEE
						}
						continue
					}
					a.send(a.conn, m, nil)
				}
				w := a.takeWire()
				if len(w) != len(sent) {
					vrt.Fail("%d of %d messages were put on the wire", len(w), len(sent))
				}
				if step == 0 {
					for _, x := range w {
						b.recv(b.conn, x)
					}
				} else {
					s := bytes.Join(w, nil)
					for p := 0; p < len(s); p += step {
						b.recv(b.conn, s[p:min(p+step, len(s))])
					}
				}
				if len(b.got) != len(sent) {
					vrt.Fail("%d messages delivered, %d sent", len(b.got), len(sent))
				}
				for k, g := range b.got {
					if !c.same(g.msg, sent[k]) {
						vrt.Fail("message %d delivered as %s (%T), sent as %s", k, show(g.msg), g.msg, show(sent[k]))
					}
				}
				// a receiver may change what it got without affecting others
				if x, ok := b.got[0].msg.([]byte); ok {
					for k := range x {
						x[k] = 0x55
					}
					if !c.same(b.got[2].msg, sent[2]) || !c.same(b.got[1].msg, sent[1]) {
						vrt.Fail("delivered messages share memory")
					}
				}
				if x, ok := b.got[0].msg.(*rec); ok {
					x.N = 77
					for k := range x.B {
						x.B[k] = 0x55
					}
					x.M = map[string]int{"q": 9}
					if !c.same(b.got[2].msg, sent[2]) || !c.same(b.got[1].msg, sent[1]) {
						vrt.Fail("delivered messages share memory")
					}
				}
				cases++
			}
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases*3)
	vrt.Count("transitions", cases*6)
	vrt.Outcome(fmt.Sprintf("%s framed=%v: %d pairs equal", c.name, framed, cases))
}

func smallStrings(alpha []byte, n int, f func([]byte)) {
	var rec func(p []byte)
	rec = func(p []byte) {
		f(p)
		if len(p) < n {
			for _, c := range alpha {
				rec(append(p[:len(p):len(p)], c))
			}
		}
	}
	rec(nil)
}

func codecSmall() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	vrt.SchedOff()
	mkmsg := func(p []byte) any {
		switch c.name {
		case "bytes":
			return p
		case "string":
			return string(p)
		case "generic":
			n := 0
			for _, x := range p {
				n = n*256 + int(x)
			}
			return n
		}
		return rec{N: len(p) - 2, S: strings.ToValidUTF8(string(p), "?"), B: p}
	}
	a, b := newRig(256, c.mk()), newRig(256, c.mk())
	var cases int64
	try := func(p []byte) {
		m := mkmsg(p)
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s codec, message %s", c.name, show(m)) })
		a.send(a.conn, m, nil)
		w := a.takeWire()
		if len(p) == 0 && (c.name == "bytes" || c.name == "string") {
			// an empty message may be dropped
			if len(w) == 0 {
				return
			}
		}
		if len(w) != 1 {
			vrt.Fail("%d wire messages for one sent", len(w))
		}
		b.recv(b.conn, w[0])
		g := b.takeGot()
		if len(g) != 1 {
			if len(p) == 0 && len(g) == 0 {
				return
			}
			vrt.Fail("%d messages delivered for one sent", len(g))
		}
		if !c.same(g[0].msg, m) {
			vrt.Fail("delivered as %s (%T)", show(g[0].msg), g[0].msg)
		}
		cases++
	}
	smallStrings([]byte{0, 1, 0x0a, '"', 'a', 0x7f, 0x83, 0xff}, pick(3, 4), try)
	for i := 0; i < 256; i++ {
		try([]byte{byte(i)})
		try([]byte{byte(i), 'x'})
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*2)
	vrt.Outcome(fmt.Sprintf("%s: %d messages equal", c.name, cases))
}

func codecSizes() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	framed := vrt.Choose(2) == 1
	desc := vrt.Choose(2) == 1
	fill := vrt.Choose(2)
	vrt.SchedOff()
	st := stackT{}
	if framed {
		st = stackT{procs()[1]}
	}
	a, b := newRig(0, st.mk(c.mk())...), newRig(0, st.mk(c.mk())...)
	mk := func(n int) any {
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i*7 + n)
			if fill == 1 {
				p[i] = 0
			}
		}
		switch c.name {
		case "bytes":
			return p
		case "string":
			return string(p)
		case "generic":
			if n >= 18 {
				return nil
			}
			x := 1
			for i := 1; i < n; i++ {
				x *= 10
			}
			return x
		}
		return rec{N: n, S: strings.Repeat("z", n/2), B: p[n/2:]}
	}
	max := a.u.GetMTU() - a.u.GetOverhead()
	var cases int64
	var prev any
	var prevSent any
	for k := 1; k <= max; k++ {
		n := k
		if desc {
			n = max + 1 - k
		}
		m := mk(n)
		if m == nil {
			continue
		}
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			return fmt.Sprintf("%s codec, framed %v, a message with %d bytes of content", c.name, framed, n)
		})
		a.send(a.conn, m, nil)
		w := a.takeWire()
		if len(w) == 0 && c.name != "bytes" && c.name != "string" && n > max/2 {
			continue // its encoding may be too large
		}
		if len(w) != 1 {
			vrt.Fail("%d wire messages for one sent", len(w))
		}
		b.recv(b.conn, w[0])
		g := b.takeGot()
		if len(g) != 1 || !c.same(g[0].msg, m) {
			vrt.Fail("%d messages delivered, not the one that was sent", len(g))
		}
		if prev != nil && !c.same(prev, prevSent) {
			vrt.Fail("the message delivered before changed")
		}
		prev, prevSent = g[0].msg, m
		cases++
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*2)
	vrt.Outcome(fmt.Sprintf("%s %v %v: %d sizes", c.name, framed, desc, cases))
}

func codecBad() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	bad := c.bad[vrt.Choose(len(c.bad))]
	st := []stackT{{}, {procs()[1]}, {procs()[0], procs()[2], procs()[3], procs()[1]}}[vrt.Choose(3)]
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s codec on %s, unencodable message of type %T", c.name, st, bad)
	})
	a, b := newRig(256, st.mk(c.mk())...), newRig(256, st.mk(c.mk())...)
	a.send(a.conn, bad, nil)
	if w := a.takeWire(); len(w) != 0 {
		vrt.Fail("%d messages on the wire: % x", len(w), w[0])
	}
	for _, m := range []any{c.msgs[0], bad, c.msgs[1]} {
		a.send(a.conn, m, nil)
	}
	w := a.takeWire()
	if len(w) != 2 {
		vrt.Fail("%d messages on the wire, want the 2 good ones", len(w))
	}
	for _, x := range w {
		b.recv(b.conn, x)
	}
	if len(b.got) != 2 || !c.same(b.got[0].msg, c.msgs[0]) || !c.same(b.got[1].msg, c.msgs[1]) {
		vrt.Fail("the good messages around it were not delivered intact (%d delivered)", len(b.got))
	}
	// nothing registered for it must also hold when data has no buffer at all
	b.got = nil
	b.bottom.up.OnLowerData(ustack.NewUStackContext().SetConnection(b.conn))
	if len(b.got) != 0 {
		vrt.Fail("data without a buffer was delivered")
	}
	vrt.Outcome(fmt.Sprintf("%s %T dropped", c.name, bad))
}

// mutations of one encoded message
func mutate(e []byte, alpha []byte, f func(what string, m []byte)) {
	for n := 0; n < len(e); n++ {
		f(fmt.Sprintf("truncated to %d bytes", n), e[:n])
	}
	for _, x := range alpha {
		f(fmt.Sprintf("with %#x appended", x), append(append([]byte{}, e...), x))
		f(fmt.Sprintf("with %#x in front", x), append([]byte{x}, e...))
	}
	for i := range e {
		for _, x := range append([]byte{e[i] + 1, e[i] - 1, e[i] ^ 0x80}, alpha...) {
			m := append([]byte{}, e...)
			m[i] = x
			f(fmt.Sprintf("byte %d set to %#x", i, x), m)
		}
		if i+1 < len(e) {
			f(fmt.Sprintf("byte %d removed", i), append(append([]byte{}, e[:i]...), e[i+1:]...))
		}
	}
	f("doubled", append(append([]byte{}, e...), e...))
}

func codecUndecodable() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	mi := vrt.Choose(8)
	vrt.SchedOff()
	if mi >= len(c.msgs) {
		return
	}
	a := newRig(512, c.mk())
	a.send(a.conn, c.msgs[mi], nil)
	e := a.takeWire()[0]
	a.send(a.conn, c.msgs[1], nil)
	good := a.takeWire()[0]
	b := newRig(512, c.mk())
	var cases, dropped int64
	mutate(e, []byte{0, 1, 0x7f, 0x80, 0xff}, func(what string, m []byte) {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s codec, message %s %s", c.name, show(c.msgs[mi]), what) })
		want, ok := c.dec(m)
		b.recv(b.conn, m)
		g := b.takeGot()
		if ok {
			if len(g) != 1 || !reflect.DeepEqual(deref(g[0].msg), deref(want)) || reflect.TypeOf(g[0].msg) != reflect.TypeOf(want) {
				vrt.Fail("%d messages delivered, the bytes encode %s", len(g), show(want))
			}
		} else {
			dropped++
			if len(g) != 0 {
				vrt.Fail("undecodable bytes % x were delivered as %s", m, show(g[0].msg))
			}
		}
		b.recv(b.conn, good)
		g = b.takeGot()
		if len(g) != 1 || !c.same(g[0].msg, c.msgs[1]) {
			vrt.Fail("the following message was affected: %d delivered", len(g))
		}
		cases++
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*2)
	vrt.Outcome(fmt.Sprintf("%s msg %d: %d changes, %d dropped", c.name, mi, cases, dropped))
}

func codecConc() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	vrt.SetCase(func() string { return c.name + " codec" })
	a, b := newRig(256, c.mk()), newRig(256, c.mk())
	c1, c2 := &fconn{name: "c1"}, &fconn{name: "c2"}
	run := func(conn *fconn, ms []any) func() {
		return func() {
			for _, m := range ms {
				// encoder and decoder are shared, wires are per connection
				a.send(conn, m, nil)
				vrt.Touch("wire")
				var w []byte
				for i := len(a.wire) - 1; i >= 0; i-- {
					if a.wireConn[i] == conn {
						w = a.wire[i]
						break
					}
				}
				b.recv(conn, w)
			}
		}
	}
	s1, s2 := []any{c.msgs[1], c.msgs[2]}, []any{c.msgs[3], c.msgs[0]}
	d1, d2 := false, false
	vrt.GoNamed("one", func() { run(c1, s1)(); d1 = true })
	vrt.GoNamed("two", func() { run(c2, s2)(); d2 = true })
	vrt.Quiesce()
	if !d1 || !d2 {
		vrt.Fail("encoding or decoding did not end")
	}
	var g1, g2 []any
	for _, g := range b.got {
		if g.conn == c1 {
			g1 = append(g1, g.msg)
		} else {
			g2 = append(g2, g.msg)
		}
	}
	for i, p := range [][2][]any{{g1, s1}, {g2, s2}} {
		if len(p[0]) != len(p[1]) {
			vrt.Fail("connection %d: %d messages delivered, %d sent", i+1, len(p[0]), len(p[1]))
		}
		for k := range p[0] {
			if !c.same(p[0][k], p[1][k]) {
				vrt.Fail("connection %d: message %d delivered as %s, sent as %s", i+1, k, show(p[0][k]), show(p[1][k]))
			}
		}
	}
	vrt.Outcome(c.name)
}

// codecPartly: objects of other versions of the type, some of which fail to
// decode only after other fields were filled in.
func codecPartly() {
	cs := codecs()
	c := cs[2+vrt.Choose(2)]
	vrt.SchedOff()
	var in [][]byte
	if c.name == "json" {
		vals := [][2]string{{"N", "5"}, {"S", `"t"`}, {"B", `"AQID"`}, {"M", `{"k":1}`}, {"M", `{"l":2}`}, {"F", "2.5"}, {"P", `{"N":9}`}, {"P", `{"S":"u"}`}, {"Z", "1"}}
		bad := [][2]string{{"N", `"x"`}, {"S", "5"}, {"M", `{"j":"x"}`}, {"P", `{"N":"x"}`}}
		in = append(in, []byte("{}"), []byte("null"))
		for _, v := range vals {
			in = append(in, []byte(fmt.Sprintf(`{"%s":%s}`, v[0], v[1])))
			for _, w := range bad {
				in = append(in, []byte(fmt.Sprintf(`{"%s":%s,"%s":%s}`, v[0], v[1], w[0], w[1])), []byte(fmt.Sprintf(`{"%s":%s,"%s":%s}`, w[0], w[1], v[0], v[1])))
			}
		}
	} else {
		type p1 struct{ N int }
		type p2 struct{ S string }
		for _, x := range []any{p1{3}, p2{"a"}, struct{ B []byte }{[]byte{1, 2, 3}}, struct{ M map[string]int }{map[string]int{"k": 1}}, struct{ M map[string]int }{map[string]int{"l": 2}},
			struct {
				M map[string]int
				S int
			}{map[string]int{"z": 1}, 4}, struct {
				N int
				F string
			}{77, "f"}, struct {
				N int
				Q int
			}{78, 5}, struct{ P *p1 }{&p1{6}}, struct{ P *p2 }{&p2{"v"}}, 5, "text"} {
			var b bytes.Buffer
			if gob.NewEncoder(&b).Encode(x) == nil {
				in = append(in, b.Bytes())
				if b.Len() > 4 {
					in = append(in, b.Bytes()[:b.Len()-1])
				}
			}
		}
	}
	var cases, dropped int64
	try := func(l ...[]byte) {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s codec receives %q", c.name, l) })
		b := newRig(512, c.mk())
		var got, want []any
		for _, m := range l {
			b.recv(b.conn, append([]byte{}, m...))
			w, ok := c.dec(m)
			if ok {
				want = append(want, w)
			} else {
				dropped++
			}
			for _, g := range b.takeGot() {
				got = append(got, g.msg)
			}
			if len(got) != len(want) {
				vrt.Fail("%d messages delivered, %d decodable ones received", len(got), len(want))
			}
			for i := range got {
				if !reflect.DeepEqual(deref(got[i]), deref(want[i])) {
					vrt.Fail("message %d is %s, its bytes encode %s", i, show(got[i]), show(want[i]))
				}
			}
		}
		cases++
	}
	for _, x := range in {
		for _, y := range in {
			if tier == 1 || c.name == "gob" {
				for _, z := range in {
					try(x, y, z)
				}
			} else {
				try(x, y, in[2], in[5])
				try(x, y, in[len(in)-1])
			}
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases*3)
	vrt.Outcome(fmt.Sprintf("%s: %d sequences, %d undecodable", c.name, cases, dropped))
}
