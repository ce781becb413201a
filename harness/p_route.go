package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"ustack"
	"ustack/vrt"
)

func init() {
	scenario(&Scenario{Name: "session/all-pairs", Props: []string{"C11"}, Shards: [2]int{4, 8}, Body: sessPairs,
		What: "two real stacks over TCP/Unix, 14 endpoints per side with boundary session numbers 0..2^32-1: every sender x (no destination, every destination, set-and-cleared, sessions without endpoint; what was received, passed on by every endpoint), both directions, two processor orders"})
	scenario(&Scenario{Name: "session/random-access", Props: []string{"C11"}, Body: sessSweep,
		What: "every session number 0..4095 and every 2^k-1, 2^k, 2^k+1 up to 2^32-1, each with its neighbours as bystanders"})
	scenario(&Scenario{Name: "session/sequences", Props: []string{"C11"}, Shards: [2]int{2, 4}, Body: sessSeq,
		What: "every sequence of 3 (thorough 4) messages with (sender, destination) out of 3 endpoints and an unknown session, reusing one EndPointData object or fresh ones"})
	scenario(&Scenario{Name: "session/few-endpoints", Props: []string{"C11"}, Shards: [2]int{4, 8}, Body: sessFew,
		What: "every subset of 4 sessions has an endpoint; every sender session and destination, with and without an endpoint"})
	scenario(&Scenario{Name: "session/changed", Props: []string{"C11"}, Shards: [2]int{4, 8}, Body: sessChange,
		What: "every history of 4 (thorough 5) operations {A or B gets another of 4 sessions, A or B sends, the peer sends to each session} on a running stack"})
	scenario(&Scenario{Name: "session/concurrent", Props: []string{"C11"}, Bound: [2]int{3, 4}, Shards: [2]int{4, 8}, Body: sessConc,
		What: "two connections deliver messages for different sessions while two endpoints send, all schedules within the bound"})
	scenario(&Scenario{Name: "filter/truth-tables", Props: []string{"C21"}, Shards: [2]int{2, 4}, Body: filterTable,
		What: "filters and forwarders with 0..3 functions, every table of answers over sequences of 3 messages, both directions, every enable/disable history"})
	scenario(&Scenario{Name: "filter/discarder", Props: []string{"C21"}, Body: discardTable,
		What: "discarder in every position of small stacks, every enable/disable history of length 4, both directions"})
	scenario(&Scenario{Name: "filter/context-dependent", Props: []string{"C21"}, Body: filterContext,
		What: "functions that decide on message, direction, connection and session, chains of two filters/forwarders, all 2^k assignments"})
	scenario(&Scenario{Name: "filter/concurrent", Props: []string{"C21"}, Bound: [2]int{3, 4}, Shards: [2]int{2, 4}, Body: filterConc,
		What: "a filter and a forwarder used by two sending and one receiving goroutine, all schedules within the bound"})
	scenario(&Scenario{Name: "echo/all-stacks", Props: []string{"C22"}, Shards: [2]int{8, 8}, Body: echoStacks,
		What: "echo above every ordered selection of at most 3 (thorough 4) processors and below/above every codec, all message sizes 1..max for small MTUs, per-message and segmented reads; disabled echo and on/off histories"})
	scenario(&Scenario{Name: "echo/real-stacks", Props: []string{"C22"}, Bound: [2]int{3, 4}, Shards: [2]int{4, 8}, Body: echoReal,
		What: "a TCP/Unix echo server with two clients, all schedules within the bound; replies on the right connection, in order, nothing delivered upward"})
	scenario(&Scenario{Name: "loopback/all-stacks", Props: []string{"C22"}, Shards: [2]int{2, 4}, Body: loopStacks,
		What: "loopback below every ordered selection of at most 2 (thorough 3) processors and every codec; endpoints with different sessions, every destination"})
	scenario(&Scenario{Name: "loopback/concurrent", Props: []string{"C22"}, Bound: [2]int{3, 4}, Shards: [2]int{2, 4}, Body: loopConc,
		What: "two endpoints send through a loopback at the same time, all schedules within the bound"})
	scenario(&Scenario{Name: "config/setter-histories", Props: []string{"C26"}, Body: cfgHistories,
		What: "every object kind (stack, endpoint, endpoint data, context, 18 processors, feature, 3 transports): every sequence of at most 4 (thorough 5) setter calls over 2-3 names x 5 values against a map model, with a second object of the same kind as witness"})
	scenario(&Scenario{Name: "config/option-parsing", Props: []string{"C26"}, Body: cfgParse,
		What: "OptionParseByte/Int/Bool/ByteSlice on values of 20 dynamic types x several defaults"})
	scenario(&Scenario{Name: "config/options-in-effect", Props: []string{"C26"}, Body: cfgEffect,
		What: "MTU and processor options set before Run, of right and wrong type, are visible through the getters and in effect"})
}

// ---- C11 -----------------------------------------------------------------

var sessions = []int{0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 0x01000000, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32}

func epsFor(prefix string, l []int) []ustack.EndPoint {
	var r []ustack.EndPoint
	for _, s := range l {
		// names need not differ
		r = append(r, ustack.NewEndPoint(prefix, s))
	}
	return r
}

// onlyAt checks that exactly the wanted messages are in the receive channels.
func onlyAt(eps []ustack.EndPoint, want map[int][]string, conn ustack.TransportConnection) {
	for _, e := range eps {
		got := drain(e)
		checkStrings(got, want[e.GetSession()], fmt.Sprintf("endpoint of session %d", e.GetSession()))
		for _, d := range got {
			if conn != nil && d.GetConnection() != conn {
				vrt.Fail("endpoint of session %d: message on the wrong connection", e.GetSession())
			}
		}
	}
}

func sessStacks() []func() []ustack.DataProcessor {
	return []func() []ustack.DataProcessor{
		func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
		},
		func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewStatCounter(), ustack.NewSessionResolver(), ustack.NewHeartbeat(), ustack.NewFrameDecoder()}
		},
	}
}

func sessPairs() {
	kind := vrt.Choose(2)
	mk := sessStacks()[vrt.Choose(2)]
	vrt.SchedOff()
	ses, ces := epsFor("s", sessions), epsFor("c", sessions)
	s, c := twoStacks(kind, 64, mk, ses, ces)
	var cases int64
	dests := append([]int{}, sessions...)
	dests = append(dests, 3, 254, 65537, math.MaxUint32-1) // without endpoint
	step := func(desc string, from ustack.EndPoint, conn, peer ustack.TransportConnection, to []ustack.EndPoint, d ustack.EndPointData, dest int, other []ustack.EndPoint) {
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			return fmt.Sprintf("%s, sender session %d, %s", netName(kind), from.GetSession(), desc)
		})
		vrt.Send(from.GetTxChannel(), d)
		vrt.Quiesce()
		onlyAt(to, map[int][]string{dest: {d.GetData().(string)}}, peer)
		onlyAt(other, nil, nil)
		cases++
	}
	for i := range sessions {
		for _, dir := range []int{0, 1} {
			from, to, conn, peer, other := ces[i], ses, c.conns[0], s.conns[0], ces
			if dir == 1 {
				from, to, conn, peer, other = ses[i], ces, s.conns[0], c.conns[0], ses
			}
			fresh := func(t string) ustack.EndPointData {
				return ustack.NewEndPointData().SetConnection(conn).SetData(t)
			}
			step("no destination", from, conn, peer, to, fresh("plain"), from.GetSession(), other)
			step("destination set and cleared", from, conn, peer, to, fresh("cleared").SetDestinationSession(dests[(i+3)%len(dests)]).ClearDestinationSession(), from.GetSession(), other)
			for _, d := range dests {
				step(fmt.Sprintf("destination %d", d), from, conn, peer, to, fresh(fmt.Sprint("to", d)).SetDestinationSession(d), d, other)
			}
			// what was received is handed on by any endpoint of the receiver
			for j := range sessions {
				vrt.Send(from.GetTxChannel(), fresh("relayed"))
				vrt.Quiesce()
				got := drain(to[i])
				if len(got) != 1 {
					vrt.Fail("%d messages received instead of one", len(got))
				}
				step(fmt.Sprintf("received by session %d and passed on", from.GetSession()), to[j], peer, conn, other, got[0], to[j].GetSession(), to)
			}
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprintf("%s %d", netName(kind), cases))
}

func sessSweep() {
	vrt.SchedOff()
	var list []int
	for i := 0; i < pick(4096, 70000); i++ {
		list = append(list, i)
	}
	for k := 12; k <= 32; k++ {
		for d := -1; d <= 1; d++ {
			if v := 1<<k + d; v <= math.MaxUint32 {
				list = append(list, v)
			}
		}
	}
	a, b := newRig(64, ustack.NewSessionResolver()), newRig(64, ustack.NewSessionResolver())
	for _, v := range list {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("session %d", v) })
		ub := ustack.UBufAllocWithHeadReserved(64, a.u.GetOverhead())
		ub.Write([]byte{7})
		a.top.down.OnUpperData(ustack.NewUStackContext().SetConnection(a.conn).SetBuffer(ub).SetOption("session", v))
		w := a.takeWire()
		if len(w) != 1 {
			vrt.Fail("%d messages sent", len(w))
		}
		b.recv(b.conn, w[0])
		g := b.takeGot()
		if len(g) != 1 || g[0].session != v || !bytes.Equal(g[0].bytes, []byte{7}) {
			vrt.Fail("%d messages delivered; session %v", len(g), g[0].session)
		}
	}
	vrt.Count("traces", int64(len(list)))
	vrt.Count("states", int64(len(list)))
}

func sessSeq() {
	reuse := vrt.Choose(2) == 1
	k := pick(3, 4)
	s0, d0 := vrt.Choose(3), vrt.Choose(6)
	vrt.SchedOff()
	ss := []int{0, 1, 256}
	ses, ces := epsFor("s", ss), epsFor("c", ss)
	s, c := twoStacks(0, 64, sessStacks()[0], ses, ces)
	var cases int64
	// destination: 0 none, 1..3 endpoints, 4 unknown, 5 cleared
	seq := make([][2]int, k)
	seq[0] = [2]int{s0, d0}
	var rec func(i int)
	rec = func(i int) {
		if i < k {
			for a := 0; a < 3; a++ {
				for b := 0; b < 6; b++ {
					seq[i] = [2]int{a, b}
					rec(i + 1)
				}
			}
			return
		}
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("messages (sender, destination) %v reuse %v", seq, reuse) })
		want := map[int][]string{}
		shared := ustack.NewEndPointData()
		for n, x := range seq {
			d := shared
			if !reuse {
				d = ustack.NewEndPointData()
			}
			t := fmt.Sprint("m", n)
			d.SetConnection(c.conns[0]).SetData(t)
			to := ss[x[0]]
			switch x[1] {
			case 0, 5:
				if x[1] == 5 {
					d.SetDestinationSession(1)
				}
				if reuse || x[1] == 5 {
					d.ClearDestinationSession()
				}
			case 4:
				d.SetDestinationSession(77)
				to = 77
			default:
				to = ss[x[1]-1]
				d.SetDestinationSession(to)
			}
			want[to] = append(want[to], t)
			vrt.Send(ces[x[0]].GetTxChannel(), d)
			vrt.Quiesce()
		}
		onlyAt(ses, want, s.conns[0])
		cases++
	}
	rec(1)
	vrt.Count("traces", cases)
	vrt.Count("states", cases*int64(k))
	vrt.Outcome(fmt.Sprint(reuse, s0, d0))
}

func sessFew() {
	kind := vrt.Choose(2)
	set := vrt.Choose(16)
	vrt.SchedOff()
	univ := []int{0, 1, 256, math.MaxUint32}
	var have []int
	for i, x := range univ {
		if set>>i&1 == 1 {
			have = append(have, x)
		}
	}
	ses, ces := epsFor("e", have), epsFor("e", []int{0, 256, 7})
	s, c := twoStacks(kind, 64, sessStacks()[0], ses, ces)
	var cases int64
	for _, from := range ces {
		for d := -1; d <= len(univ); d++ {
			vrt.ResetBudget()
			to := from.GetSession()
			m := ustack.NewEndPointData().SetConnection(c.conns[0]).SetData("m")
			if d >= 0 {
				to = 77
				if d < len(univ) {
					to = univ[d]
				}
				m.SetDestinationSession(to)
			}
			vrt.SetCase(func() string {
				return fmt.Sprintf("%s, endpoints %v, message for %d", netName(kind), have, to)
			})
			vrt.Send(from.GetTxChannel(), m)
			vrt.Quiesce()
			onlyAt(ses, map[int][]string{to: {"m"}}, s.conns[0])
			cases++
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprint(kind, have))
}

func sessConc() {
	kind := vrt.Choose(2)
	mk := sessStacks()[0]
	ss := []int{0, 1, 65536}
	ses := epsFor("s", ss)
	var s *node2
	c1, c2 := newNode("c1", 64, mk()...), newNode("c2", 64, mk()...)
	e1, e2, e3 := ustack.NewEndPoint("e1", 1), ustack.NewEndPoint("e2", 65536), ustack.NewEndPoint("e3", 0)
	quiet(func() {
		s = newNode("server", 64, mk()...)
		for _, e := range ses {
			s.u.AddEndPoint(e)
		}
		s.u.AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
		vrt.Quiesce()
		c1.u.AddEndPoint(e1).AddEndPoint(e3).AddTransport(newTransport(kind, "c1", false, netAddr(kind))).Run()
		vrt.Quiesce()
		c2.u.AddEndPoint(e2).AddTransport(newTransport(kind, "c2", false, netAddr(kind))).Run()
	})
	if len(c1.conns) != 1 || len(c2.conns) != 1 || len(s.conns) != 2 {
		vrt.Fail("clients did not connect")
	}
	send(e1, c1.conns[0], "a1")
	send(e2, c2.conns[0], "b1")
	sendTo(e3, c1.conns[0], "x", 5)
	send(e3, c1.conns[0], "a0")
	vrt.Quiesce()
	onlyAt(ses, map[int][]string{1: {"a1"}, 65536: {"b1"}, 0: {"a0"}}, nil)
	onlyAt([]ustack.EndPoint{e1, e2, e3}, nil, nil)
	vrt.Outcome(netName(kind))
}

// ---- C21 -----------------------------------------------------------------

// crossing pushes one marked context through r and tells whether it passed,
// checking that it passed unchanged and only in its own direction.
// Variants: 0 a buffer and a message, 1 no connection, 2 a reference
// connection and no buffer, 3 a closed connection and an empty buffer.
func crossing(r *rig, up bool, tag int, fc *fconn, variant int) bool {
	r.got, r.wire, r.wireConn = nil, nil, nil
	ub := ustack.UBufAllocWithHeadReserved(32, 8)
	want := payload(tag, 3)
	if variant == 3 {
		want = nil
	} else {
		ub.Write(want)
	}
	var conn ustack.TransportConnection = fc
	fc.ref, fc.closed = variant == 2, variant == 3
	defer func() { fc.ref, fc.closed = false, false }()
	var seen ustack.Context
	x := ustack.NewUStackContext().SetMessage(tag).SetOption("session", tag).SetOption("k", "v")
	if variant == 1 {
		conn = nil
	} else {
		x.SetConnection(conn)
	}
	if variant != 2 {
		x.SetBuffer(ub)
	}
	n := 0
	grab := func(c ustack.Context) { seen = c; n++ }
	ou, ol := r.bottom.onUpper, r.top.onLower
	defer func() { r.bottom.onUpper, r.top.onLower = ou, ol }()
	wrong := 0
	if up {
		r.top.onLower = grab
		r.bottom.onUpper = func(ustack.Context) { wrong++ }
		r.bottom.up.OnLowerData(x)
	} else {
		r.bottom.onUpper = grab
		r.top.onLower = func(ustack.Context) { wrong++ }
		r.top.down.OnUpperData(x)
	}
	if wrong > 0 {
		vrt.Fail("message %d turned round", tag)
	}
	if n > 1 {
		vrt.Fail("message %d passed %d times", tag, n)
	}
	if n == 0 {
		return false
	}
	if seen.GetConnection() != conn || seen.GetMessage() != tag || seen.GetOption("session") != tag || seen.GetOption("k") != "v" ||
		(seen.GetBuffer() == nil) != (variant == 2) || (variant != 2 && !bytes.Equal(peekAll(seen.GetBuffer()), want)) {
		vrt.Fail("message %d passed changed", tag)
	}
	return true
}

func filterTable() {
	isFwd := vrt.Choose(2) == 1
	nf := vrt.Choose(4)
	first := vrt.Choose(4)    // (direction, enabled) of the first message
	odd := vrt.Choose(2) == 1 // the first message is empty and of a closed connection
	vrt.SchedOff()
	var cases int64
	const L = 3
	table := make([]int, L) // bit i: answer of function i for message m
	opt := make([]int, L)   // bit 0: up, bit 1: enabled
	type call struct {
		fn int
		up bool
	}
	var calls []call
	cur := 0
	var bad string
	conn := &fconn{name: "c"}
	fns := func(i int) func(ustack.Context, bool) bool {
		return func(c ustack.Context, up bool) bool {
			calls = append(calls, call{i, up})
			if c.GetMessage() != cur || (cur != 1 && c.GetConnection() != conn) {
				bad = "a function was shown something else than the message"
			}
			return table[cur]>>i&1 == 1
		}
	}
	mk := func() ustack.DataProcessor {
		if isFwd {
			var l []ustack.ForwardFn
			for i := 0; i < nf; i++ {
				l = append(l, fns(i))
			}
			return ustack.NewForwarder(l...)
		}
		var l []ustack.FilterFn
		for i := 0; i < nf; i++ {
			l = append(l, fns(i))
		}
		return ustack.NewFilter(l...)
	}
	name := "filter"
	if isFwd {
		name = "forwarder"
	}
	var rec func(i int)
	rec = func(i int) {
		if i < L {
			for t := 0; t < 1<<nf; t++ {
				for o := 0; o < 4; o++ {
					if i == 0 && o != first {
						continue
					}
					table[i], opt[i] = t, o
					rec(i + 1)
				}
			}
			return
		}
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			return fmt.Sprintf("%s with %d functions, answers per message %v (bits), direction/enable per message %v", name, nf, table, opt)
		})
		p := mk()
		r := newRig(64, p)
		bad = ""
		for cur = 0; cur < L; cur++ {
			up, en := opt[cur]&1 == 1, opt[cur]&2 != 0
			p.SetEnable(en)
			calls = nil
			variant := cur
			if cur == 0 && odd {
				variant = 3
			}
			pass := crossing(r, up, cur, conn, variant)
			// model
			any := table[cur]&(1<<nf-1) != 0
			want := true
			asked := 0
			if en {
				asked = nf
				for i := 0; i < nf; i++ {
					if table[cur]>>i&1 == 1 {
						asked = i + 1
						break
					}
				}
				want = any
				if isFwd {
					want = !any
				}
			}
			if pass != want {
				vrt.Fail("message %d passed=%v, want %v", cur, pass, want)
			}
			if len(calls) != asked {
				vrt.Fail("message %d: %d functions consulted, want %d", cur, len(calls), asked)
			}
			for i, c := range calls {
				if c.fn != i || c.up != up {
					vrt.Fail("message %d: consulted function %d with toUpper=%v as number %d", cur, c.fn, c.up, i)
				}
			}
			if bad != "" {
				vrt.Fail("message %d: %s", cur, bad)
			}
		}
		cases++
	}
	rec(0)
	vrt.Count("traces", cases)
	vrt.Count("states", cases*L)
	vrt.Count("transitions", cases*L)
	vrt.Outcome(fmt.Sprintf("%s %d functions: %d tables", name, nf, cases))
}

func discardTable() {
	all := procs()
	above := []stackT{{}, {all[4]}, {all[5]}, {all[6]}}[vrt.Choose(4)]
	below := []stackT{{}, {all[4]}, {all[5]}, {all[6]}}[vrt.Choose(4)]
	vrt.SchedOff()
	conn := &fconn{name: "c"}
	var cases int64
	for h := 0; h < 1<<8; h++ {
		vs := h % 5 % 4
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("discarder between %s and %s, history %08b", above, below, h) })
		d := ustack.NewDiscarder()
		l := append(above.mk(), d)
		r := newRig(64, append(l, below.mk()...)...)
		for i := 0; i < 4; i++ {
			en, up := h>>(2*i)&1 == 1, h>>(2*i+1)&1 == 1
			if i > 0 || !en {
				// a new discarder is enabled
				d.SetEnable(en)
			}
			want := !(en && up)
			if p := crossing(r, up, i+1, conn, (i+vs)%4); p != want {
				vrt.Fail("message %d (enabled %v, received %v) passed=%v", i, en, up, p)
			}
		}
		cases++
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases*4)
	vrt.Outcome(fmt.Sprintf("%s %s", above, below))
}

func filterContext() {
	k1, k2 := vrt.Choose(2), vrt.Choose(2)
	vrt.SchedOff()
	c1, c2 := &fconn{name: "1"}, &fconn{name: "2"}
	// 8 kinds of message: direction x connection x tag; accept set = bitmask
	kindOf := func(c ustack.Context, up bool) int {
		k := 0
		if up {
			k |= 1
		}
		if c.GetConnection() == c2 {
			k |= 2
		}
		if c.GetMessage() == 2 {
			k |= 4
		}
		return k
	}
	var m1, m2 int
	fn := func(m *int) func(ustack.Context, bool) bool {
		return func(c ustack.Context, up bool) bool { return *m>>kindOf(c, up)&1 == 1 }
	}
	mk := func(k int, m *int) ustack.DataProcessor {
		if k == 0 {
			return ustack.NewFilter(fn(m))
		}
		return ustack.NewForwarder(fn(m))
	}
	r := newRig(64, mk(k1, &m1), mk(k2, &m2))
	var cases int64
	step := pick(7, 1)
	for m1 = 0; m1 < 256; m1++ {
		for m2 = m1 % step; m2 < 256; m2 += step {
			vrt.ResetBudget()
			for k := 0; k < 8; k++ {
				conn := c1
				if k&2 != 0 {
					conn = c2
				}
				tag := 1
				if k&4 != 0 {
					tag = 2
				}
				vrt.SetCase(func() string {
					return fmt.Sprintf("kinds %d,%d, accept sets %08b %08b, message kind %03b", k1, k2, m1, m2, k)
				})
				p := crossing(r, k&1 == 1, tag, conn, 0)
				w1, w2 := m1>>k&1 == 1, m2>>k&1 == 1
				if k1 == 1 {
					w1 = !w1
				}
				if k2 == 1 {
					w2 = !w2
				}
				if p != (w1 && w2) {
					vrt.Fail("passed=%v, want %v", p, w1 && w2)
				}
			}
			cases++
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases*8)
	vrt.Outcome(fmt.Sprint(k1, k2, cases))
}

func filterConc() {
	vals := func(c ustack.Context, up bool) bool {
		// accepts by content
		return c.GetMessage().(int)%2 == 1
	}
	f := ustack.NewFilter(vals)
	g := ustack.NewForwarder(func(c ustack.Context, up bool) bool { return c.GetMessage().(int) >= 10 })
	r := newRig(64, f, g)
	var down, up []int
	r.bottom.onUpper = func(c ustack.Context) { vrt.Touch("d"); down = append(down, c.GetMessage().(int)) }
	r.top.onLower = func(c ustack.Context) { vrt.Touch("u"); up = append(up, c.GetMessage().(int)) }
	ctx := func(m int) ustack.Context {
		return ustack.NewUStackContext().SetMessage(m).SetConnection(r.conn)
	}
	vrt.GoNamed("s1", func() {
		for _, m := range []int{1, 2, 11} {
			vrt.Yield()
			r.top.down.OnUpperData(ctx(m))
		}
	})
	vrt.GoNamed("s2", func() {
		for _, m := range []int{4, 3} {
			vrt.Yield()
			r.top.down.OnUpperData(ctx(m))
		}
	})
	vrt.GoNamed("r", func() {
		for _, m := range []int{5, 6, 13} {
			vrt.Yield()
			r.bottom.up.OnLowerData(ctx(m))
		}
	})
	vrt.Quiesce()
	sort.Ints(down)
	if !reflect.DeepEqual(down, []int{1, 3}) || !reflect.DeepEqual(up, []int{5}) {
		vrt.Fail("passed down %v, up %v; want [1 3] and [5]", down, up)
	}
	vrt.Outcome("ok")
}

// ---- C22 -----------------------------------------------------------------

func echoStacks() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	above := vrt.Choose(2) == 1 // echo above the codec
	vrt.SchedOff()
	var cases int64
	all := append([]procT{}, procs()[:7]...)
	all = append(all, procs()[10])
	eachStack(pick(3, 4), all, func(st stackT) {
		if tier == 1 && len(st) == 4 && c.name != "bytes" {
			return
		}
		hows := []int{0}
		if st.framed() {
			hows = []int{0, 1, 5, 150}
		}
		for _, how := range hows {
			vrt.ResetBudget()
			vrt.SetCase(func() string {
				return fmt.Sprintf("%s codec, echo above codec %v, on %s, read mode %d", c.name, above, st, how)
			})
			mtu := 256
			e := ustack.NewEcho()
			var l []ustack.DataProcessor
			if above {
				l = append([]ustack.DataProcessor{e}, st.mk(c.mk())...)
			} else {
				l = append([]ustack.DataProcessor{c.mk(), e}, st.mk()...)
			}
			a, b := newRig(mtu, st.mk(c.mk())...), newRig(mtu, l...)
			ref := newRig(mtu, st.mk(c.mk())...)
			for _, m := range c.msgs[:5] {
				a.send(a.conn, m, 6)
				ref.send(ref.conn, m, 6)
			}
			w := a.takeWire()
			deliver(b, w, how)
			for _, x := range b.wireConn {
				if x != b.conn {
					vrt.Fail("an echo went to another connection")
				}
			}
			back := b.takeWire()
			if len(b.got) != 0 {
				vrt.Fail("an echoed message was delivered upward: %s", show(b.got[0].msg))
			}
			if len(back) != 5 {
				vrt.Fail("%d messages echoed, 5 received", len(back))
			}
			deliver(a, back, how)
			if len(a.got) != 5 {
				vrt.Fail("%d of 5 messages came back", len(a.got))
			}
			for i, g := range a.got {
				if !c.same(g.msg, c.msgs[i]) {
					vrt.Fail("message %d came back as %s, sent as %s", i, show(g.msg), show(c.msgs[i]))
				}
				if st.has("session") && g.session != 6 {
					vrt.Fail("message %d came back for session %v, sent with 6", i, g.session)
				}
			}
			a.got = nil
			// off: transparent both ways; on again: echoes
			e.SetEnable(false)
			a.send(a.conn, c.msgs[1], 6)
			deliver(b, a.takeWire(), how)
			if len(b.got) != 1 || len(b.wire) != 0 || (!above && !c.same(b.got[0].msg, c.msgs[1])) {
				vrt.Fail("disabled echo: %d delivered, %d sent back", len(b.got), len(b.wire))
			}
			b.got = nil
			e.SetEnable(true)
			a.send(a.conn, c.msgs[2], 6)
			deliver(b, a.takeWire(), how)
			if len(b.got) != 0 || len(b.wire) != 1 {
				vrt.Fail("echo enabled again: %d delivered, %d sent back", len(b.got), len(b.wire))
			}
			b.takeWire()
			// sending is not affected by echo
			b.send(b.conn, c.msgs[3], 6)
			deliver(a, b.takeWire(), how)
			if len(a.got) != 1 || !c.same(a.got[0].msg, c.msgs[3]) {
				vrt.Fail("a message sent by the echoing side was not delivered")
			}
			cases++
		}
		// every size at a small MTU
		if c.name == "bytes" {
			mtu := st.reserved() + 9
			for n := 1; n <= 9; n++ {
				vrt.ResetBudget()
				vrt.SetCase(func() string { return fmt.Sprintf("echo on %s, MTU %d, message of %d bytes", st, mtu, n) })
				l := append([]ustack.DataProcessor{c.mk(), ustack.NewEcho()}, st.mk()...)
				a, b := newRig(mtu, st.mk(c.mk())...), newRig(mtu, l...)
				m := payload(3, n)
				a.send(a.conn, m, 1)
				a.send(a.conn, m[:1], 1)
				how := 0
				if st.framed() {
					how = n
				}
				deliver(b, a.takeWire(), how)
				deliver(a, b.takeWire(), 0)
				if len(a.got) != 2 || !c.same(a.got[0].msg, m) || !c.same(a.got[1].msg, m[:1]) {
					vrt.Fail("%d messages came back intact", len(a.got))
				}
				cases++
			}
		}
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases*7)
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, cases))
}

func echoReal() {
	kind := vrt.Choose(2)
	all := procs()
	st := []stackT{{all[0], all[1]}, {all[2], all[1]}}[vrt.Choose(2)]
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s", netName(kind), st) })
	se := ustack.NewEndPoint("s", 0)
	e1, e2 := ustack.NewEndPoint("e1", 0), ustack.NewEndPoint("e2", 0)
	mk := func() []ustack.DataProcessor { return st.mk(ustack.NewStringCodec()) }
	s := newNode("server", 64, append([]ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewEcho()}, st.mk()...)...)
	c1, c2 := newNode("c1", 64, mk()...), newNode("c2", 64, mk()...)
	quiet(func() {
		s.u.AddEndPoint(se).AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
		vrt.Quiesce()
		c1.u.AddEndPoint(e1).AddTransport(newTransport(kind, "c1", false, netAddr(kind))).Run()
		vrt.Quiesce()
		c2.u.AddEndPoint(e2).AddTransport(newTransport(kind, "c2", false, netAddr(kind))).Run()
	})
	if len(c1.conns) != 1 || len(c2.conns) != 1 {
		vrt.Fail("clients did not connect")
	}
	send(e1, c1.conns[0], "a1")
	send(e2, c2.conns[0], "b1")
	send(e1, c1.conns[0], "a2")
	vrt.Quiesce()
	checkStrings(drain(e1), []string{"a1", "a2"}, "client 1")
	checkStrings(drain(e2), []string{"b1"}, "client 2")
	checkStrings(drain(se), nil, "echoing server's endpoint")
	vrt.Outcome(st.String())
}

func loopStacks() {
	cs := codecs()
	ci := vrt.Choose(len(cs) + 1) // the last: no codec, references
	vrt.SchedOff()
	var cases int64
	all := append([]procT{}, procs()[:7]...)
	all = append(all, procs()[10])
	eachStack(pick(2, 3), all, func(st stackT) {
		if ci == len(cs) && len(st) > 0 {
			return // the processors below need a buffer
		}
		vrt.ResetBudget()
		var top []ustack.DataProcessor
		c := cs[0]
		if ci < len(cs) {
			c = cs[ci]
			top = append(top, c.mk())
		}
		// (the frame decoder keeps nothing for a connection that is gone)
		framed := strings.Contains(st.String(), "frame")
		n := newNode("loop", 256, append(st.mk(top...), ustack.NewLoopback())...)
		bottom := newProbe("bottom")
		below := 0
		bottom.onUpper = func(ustack.Context) { below++ }
		n.u.AppendDataProcessor(bottom)
		eps := []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 1), ustack.NewEndPoint("c", 65536)}
		for _, e := range eps {
			n.u.AddEndPoint(e)
		}
		n.u.Run()
		for from := range eps {
			for to := -1; to < 4; to++ {
				vrt.SetCase(func() string {
					return fmt.Sprintf("loopback below %s, codec %d, endpoint %d sends to %d", st, ci, from, to)
				})
				var ms []any
				for k := 0; k < 3; k++ {
					ms = append(ms, c.msgs[(from+k)%len(c.msgs)])
				}
				for k, m := range ms {
					d := ustack.NewEndPointData().SetData(m)
					if k > 0 {
						d.SetConnection(&fconn{name: "c", closed: k == 2 && !framed})
					}
					if to == 3 {
						d.SetDestinationSession(99)
					} else if to >= 0 {
						d.SetDestinationSession(eps[to].GetSession())
					}
					vrt.Send(eps[from].GetTxChannel(), d)
				}
				vrt.Quiesce()
				dst := to
				if to < 0 {
					dst = from
				}
				for i, e := range eps {
					got := drain(e)
					if i != dst {
						if len(got) != 0 {
							vrt.Fail("endpoint %d got %s", i, showEpds(got))
						}
						continue
					}
					if len(got) != 3 {
						vrt.Fail("%d of 3 messages returned", len(got))
					}
					for k, g := range got {
						if ci == len(cs) {
							if !reflect.DeepEqual(g.GetData(), ms[k]) {
								vrt.Fail("message %d returned as %s, sent as %s", k, show(g.GetData()), show(ms[k]))
							}
						} else if !c.same(g.GetData(), ms[k]) {
							vrt.Fail("message %d returned as %s, sent as %s", k, show(g.GetData()), show(ms[k]))
						}
					}
				}
				if below != 0 {
					vrt.Fail("the loopback sent something down")
				}
				cases++
			}
		}
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases*3)
	vrt.Outcome(fmt.Sprintf("%d: %d", ci, cases))
}

func loopConc() {
	withSession := vrt.Choose(2) == 1
	l := []ustack.DataProcessor{ustack.NewStringCodec()}
	if withSession {
		l = append(l, ustack.NewSessionResolver())
	}
	l = append(l, ustack.NewLoopback())
	n := newNode("loop", 64, l...)
	a, b := ustack.NewEndPoint("a", 1), ustack.NewEndPoint("b", 2)
	quiet(func() { n.u.AddEndPoint(a).AddEndPoint(b).Run() })
	send(a, nil, "a1")
	send(b, &fconn{name: "c"}, "b1")
	send(a, &fconn{name: "c"}, "a2")
	sendTo(b, nil, "b2", 1)
	vrt.Quiesce()
	checkStrings(drain(b), []string{"b1"}, "endpoint b")
	got := drain(a)
	var own, other []string
	for _, d := range got {
		t, _ := d.GetData().(string)
		if t == "b2" {
			other = append(other, t)
		} else {
			own = append(own, t)
		}
	}
	if !reflect.DeepEqual(own, []string{"a1", "a2"}) || len(other) != 1 {
		vrt.Fail("endpoint a got %s", showEpds(got))
	}
	vrt.Outcome(showEpds(got))
}

// ---- C26 -----------------------------------------------------------------

type cfgObj struct {
	obj  any
	set  []func(v int) any // setter number i with value number v, returns the result
	get  []func() any      // getter matching setter i
	val  func(i, v int) any
	init []any
}

var cfgVals = []any{1, "x", nil, true, []byte{9}}

func optSetters(set func(string, any) any, get func(string) any) ([]func(int) any, []func() any) {
	var s []func(int) any
	var g []func() any
	for _, n := range []string{"MTU", "k", ""} {
		n := n
		s = append(s, func(v int) any { return set(n, cfgVals[v%len(cfgVals)]) })
		g = append(g, func() any { return get(n) })
	}
	return s, g
}

func cfgKinds() []string {
	k := []string{"stack", "endpoint", "endpointdata", "context", "feature", "tcp", "unix", "reference", "procbase"}
	for _, p := range []string{"bytes", "string", "json", "gob", "generic", "session", "frame", "heartbeat", "stat", "balancer", "flow", "filter", "forwarder", "discarder", "echo", "loopback"} {
		k = append(k, p)
	}
	return k
}

var cfgConns = []ustack.TransportConnection{&fconn{name: "1"}, &fconn{name: "2"}, nil}
var cfgBufs = []*ustack.UBuf{nil, nil}

func newCfg(kind string) *cfgObj {
	o := &cfgObj{}
	names := []string{"n1", "n2", ""}
	optVal := func(v int) any { return cfgVals[v%len(cfgVals)] }
	add := func(init any, val func(v int) any, set func(v int) any, get func() any) {
		o.set = append(o.set, set)
		o.get = append(o.get, get)
		o.init = append(o.init, init)
		i := len(o.set) - 1
		old := o.val
		o.val = func(j, v int) any {
			if j == i {
				return val(v)
			}
			return old(j, v)
		}
	}
	opts := func(set func(string, any) any, get func(string) any) {
		s, g := optSetters(set, get)
		for i := range s {
			add(nil, optVal, s[i], g[i])
		}
	}
	name := func(v int) any { return names[v%3] }
	proc := func(p ustack.DataProcessor) {
		o.obj = p
		add(p.GetName(), name, func(v int) any { return p.SetName(names[v%3]) }, func() any { return p.GetName() })
		opts(func(n string, v any) any { return p.SetOption(n, v) }, func(n string) any { return p.GetOption(n) })
		// setters without getter: only the returned object is checked
		nop := func(int) any { return nil }
		none := func() any { return nil }
		add(nil, nop, func(v int) any { return p.SetEnable(v%2 == 0) }, none)
		add(nil, nop, func(v int) any { return p.ForServer(v%2 == 0) }, none)
		add(nil, nop, func(v int) any { return p.SetUStack(ustack.NewUStack()) }, none)
		add(nil, nop, func(v int) any { return p.SetUpper(newProbe("u")) }, none)
		add(nil, nop, func(v int) any { return p.SetLower(newProbe("l")) }, none)
	}
	tran := func(t ustack.Transport) {
		o.obj = t
		add("", name, func(v int) any { return t.SetAddress(names[v%3]) }, func() any { return t.GetAddress() })
		opts(func(n string, v any) any { return t.SetOption(n, v) }, func(n string) any { return t.GetOption(n) })
		add(nil, func(int) any { return nil }, func(v int) any { return t.ForServer(v%2 == 0) }, func() any { return nil })
	}
	switch kind {
	case "stack":
		u := ustack.NewUStack()
		o.obj = u
		add(u.GetName(), name, func(v int) any { return u.SetName(names[v%3]) }, func() any { return u.GetName() })
		opts(func(n string, v any) any { return u.SetOption(n, v) }, func(n string) any { return u.GetOption(n) })
		none := func() any { return nil }
		add(nil, func(int) any { return nil }, func(int) any { return u.SetEventListener(func(ustack.Event) {}) }, none)
		add(nil, func(int) any { return nil }, func(int) any { return u.AddEndPoint(ustack.NewEndPoint("e", 0)) }, none)
		add(nil, func(int) any { return nil }, func(int) any { return u.AddTransport(newFtran("t")) }, none)
		add(nil, func(int) any { return nil }, func(int) any { return u.AppendDataProcessor(ustack.NewEcho()) }, none)
		add(nil, func(int) any { return nil }, func(int) any { return u.PublishEvent(ustack.Event{Type: 99}) }, none)
		add(nil, func(int) any { return nil }, func(int) any { return u.DeleteEndPoint(ustack.NewEndPoint("e", 0)) }, none)
		add(nil, func(int) any { return nil }, func(int) any { return u.DeleteTransport(newFtran("t")) }, none)
	case "endpoint":
		e := ustack.NewEndPoint("e", 5)
		o.obj = e
		add("e", name, func(v int) any { return e.SetName(names[v%3]) }, func() any { return e.GetName() })
		ss := []int{0, 7, math.MaxUint32}
		add(5, func(v int) any { return ss[v%3] }, func(v int) any { return e.SetSession(ss[v%3]) }, func() any { return e.GetSession() })
		tx, rx := e.GetTxChannel(), e.GetRxChannel()
		same := func() any {
			return e.GetTxChannel() == tx && e.GetRxChannel() == rx && tx != nil && rx != nil && tx != rx
		}
		add(true, func(int) any { return true }, func(int) any { return e.SetEventListener(func(ustack.EndPoint, ustack.Event) {}) }, same)
		add(true, func(int) any { return true }, func(int) any { return e.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {}) }, same)
	case "endpointdata":
		d := ustack.NewEndPointData()
		o.obj = d
		add(nil, func(v int) any { return connVal(v) }, func(v int) any { return d.SetConnection(cfgConns[v%3]) }, func() any { return anyConn(d.GetConnection()) })
		add(nil, optVal, func(v int) any { return d.SetData(optVal(v)) }, func() any { return d.GetData() })
		cur := -1
		ss := []int{0, 7, math.MaxUint32}
		add("none", func(v int) any {
			if v%4 == 3 {
				return "none"
			}
			return fmt.Sprint(ss[v%4])
		}, func(v int) any {
			cur = v
			if v%4 == 3 {
				return d.ClearDestinationSession()
			}
			return d.SetDestinationSession(ss[v%4])
		}, func() any {
			if !d.HasDestinationSession() {
				return "none"
			}
			return fmt.Sprint(d.GetDestinationSession())
		})
		_ = cur
	case "context":
		c := ustack.NewUStackContext()
		o.obj = c
		add(nil, func(v int) any { return connVal(v) }, func(v int) any { return c.SetConnection(cfgConns[v%3]) }, func() any { return anyConn(c.GetConnection()) })
		add(nil, optVal, func(v int) any { return c.SetMessage(optVal(v)) }, func() any { return c.GetMessage() })
		b1, b2 := ustack.UBufAlloc(3), ustack.UBufAlloc(3)
		bs := []*ustack.UBuf{b1, b2, nil}
		idx := func(b *ustack.UBuf) any {
			for i, x := range bs {
				if x == b {
					return i
				}
			}
			return -1
		}
		add(2, func(v int) any { return v % 3 }, func(v int) any { return c.SetBuffer(bs[v%3]) }, func() any { return idx(c.GetBuffer()) })
		opts(func(n string, v any) any { return c.SetOption(n, v) }, func(n string) any { return c.GetOption(n) })
	case "feature":
		f := ustack.NewFeatBase()
		o.obj = f
		add(f.GetName(), name, func(v int) any { return f.SetName(names[v%3]) }, func() any { return f.GetName() })
		opts(func(n string, v any) any { return f.SetOption(n, v) }, func(n string) any { return f.GetOption(n) })
		add(nil, func(int) any { return nil }, func(int) any { return f.SetUStack(ustack.NewUStack()) }, func() any { return nil })
		add(nil, func(int) any { return nil }, func(int) any { return f.Run() }, func() any { return nil })
	case "tcp":
		tran(ustack.NewTCPTransport("t"))
	case "unix":
		tran(ustack.NewUDSTransport("t"))
	case "reference":
		tran(ustack.NewReferenceTransport("t"))
	case "procbase":
		proc(ustack.NewProcBase())
	default:
		proc(procByName(kind))
	}
	return o
}

func anyConn(c ustack.TransportConnection) any {
	if c == nil {
		return nil
	}
	return c.GetName()
}

func connVal(v int) any { return anyConn(cfgConns[v%3]) }

func procByName(kind string) ustack.DataProcessor {
	for _, c := range codecs() {
		if c.name == kind {
			return c.mk()
		}
	}
	switch kind {
	case "session":
		return ustack.NewSessionResolver()
	case "frame":
		return ustack.NewFrameDecoder()
	case "heartbeat":
		return ustack.NewHeartbeat()
	case "stat":
		return ustack.NewStatCounter()
	case "balancer":
		return ustack.NewLoadBalancer()
	case "flow":
		return ustack.NewFlowController()
	case "filter":
		return passFilter()
	case "forwarder":
		return passForwarder()
	case "discarder":
		return ustack.NewDiscarder()
	case "echo":
		return ustack.NewEcho()
	}
	return ustack.NewLoopback()
}

func cfgHistories() {
	ks := cfgKinds()
	kind := ks[vrt.Choose(len(ks))]
	vrt.SchedOff()
	n := len(newCfg(kind).set)
	depth := pick(3, 4)
	if n > 9 {
		depth = pick(2, 3)
	}
	nv := 3
	if n <= 4 {
		nv = 4
	}
	if tier == 1 {
		nv = 5
	}
	var cases int64
	seq := make([][2]int, 0, depth)
	check := func(o *cfgObj, want []any, who string) {
		for i := range o.get {
			if g := o.get[i](); !reflect.DeepEqual(g, want[i]) {
				vrt.Fail("%s: getter %d returns %v, want %v", who, i, g, want[i])
			}
		}
	}
	run := func() {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s, (setter, value) sequence %v", kind, seq) })
		a, w := newCfg(kind), newCfg(kind)
		if a.obj == w.obj {
			vrt.Fail("two new objects are the same")
		}
		want := append([]any{}, a.init...)
		check(a, want, "new object")
		for _, x := range seq {
			r := a.set[x[0]](x[1])
			if r != a.obj {
				vrt.Fail("setter %d returns another object (%T)", x[0], r)
			}
			want[x[0]] = a.val(x[0], x[1])
			check(a, want, "object")
			check(w, w.init, "second object, never touched,")
		}
		vrt.Quiesce()
		cases++
	}
	var rec func()
	rec = func() {
		run()
		if len(seq) == depth {
			return
		}
		for i := 0; i < n; i++ {
			for v := 0; v < nv; v++ {
				seq = append(seq, [2]int{i, v})
				rec()
				seq = seq[:len(seq)-1]
			}
		}
	}
	rec()
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*int64(depth))
	vrt.Outcome(fmt.Sprintf("%s: %d histories", kind, cases))
}

func cfgParse() {
	type myInt int
	vals := []any{nil, 0, 1, -1, math.MaxInt64, int8(1), int16(1), int32(1), int64(1), uint(1), byte(0), byte(1), byte(255), uint16(1), uint64(1), float64(1), "1", "", true, false, []byte{}, []byte{1, 2}, []byte(nil), []int{1}, myInt(3), 'x', &struct{}{}}
	var n int64
	for _, v := range vals {
		vrt.SetCase(func() string { return fmt.Sprintf("option %#v (%T)", v, v) })
		for _, d := range []int{0, 7, -7} {
			g, ok := ustack.OptionParseInt(v, d)
			x, is := v.(int)
			if !is {
				x = d
			}
			if g != x || ok != is {
				vrt.Fail("OptionParseInt(default %d) = %d, %v; want %d, %v", d, g, ok, x, is)
			}
			n++
		}
		for _, d := range []byte{0, 7, 255} {
			g, ok := ustack.OptionParseByte(v, d)
			x, is := v.(byte)
			if !is {
				x = d
			}
			if g != x || ok != is {
				vrt.Fail("OptionParseByte(default %d) = %d, %v; want %d, %v", d, g, ok, x, is)
			}
			n++
		}
		for _, d := range []bool{false, true} {
			g, ok := ustack.OptionParseBool(v, d)
			x, is := v.(bool)
			if !is {
				x = d
			}
			if g != x || ok != is {
				vrt.Fail("OptionParseBool(default %v) = %v, %v; want %v, %v", d, g, ok, x, is)
			}
			n++
		}
		g, ok := ustack.OptionParseByteSlice(v)
		x, is := v.([]byte)
		if !bytes.Equal(g, x) || ok != is || (is && len(x) > 0 && &g[0] != &x[0]) {
			vrt.Fail("OptionParseByteSlice = %v, %v; want %v, %v", g, ok, x, is)
		}
		n++
	}
	vrt.Count("traces", n)
	vrt.Count("states", n)
}

func cfgEffect() {
	vals := []any{nil, 64, 100, "64", int64(64), 64.0, true}
	v1 := vals[vrt.Choose(len(vals))]
	v2 := vals[vrt.Choose(len(vals))]
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("MTU of two stacks set to %v and %v", v1, v2) })
	want := func(v any) int {
		if x, ok := v.(int); ok {
			return x
		}
		return 2048
	}
	a, b := ustack.NewUStack(), ustack.NewUStack()
	if a.GetMTU() != 2048 || a.GetOption("MTU") != nil {
		vrt.Fail("a new stack has MTU %d", a.GetMTU())
	}
	if v1 != nil {
		a.SetOption("MTU", v1)
	}
	b.SetOption("MTU", 33).SetOption("MTU", v2)
	f1, f2 := ustack.NewFeatBase().SetName("f1"), ustack.NewFeatBase().SetName("f2")
	a.AddFeature(f1).AddFeature(f2)
	if a.GetFeature("f1") != f1 || a.GetFeature("f2") != f2 || a.GetFeature("f3") != nil || b.GetFeature("f1") != nil {
		vrt.Fail("features are not found by their names")
	}
	if l := a.GetFeatures(); len(l) != 2 || l[0] != f1 || l[1] != f2 || len(b.GetFeatures()) != 0 {
		vrt.Fail("the feature list does not hold the added features in order")
	}
	if a.Run() != a || b.Run() != b {
		vrt.Fail("Run returns another object")
	}
	if a.GetMTU() != want(v1) || b.GetMTU() != want(v2) {
		vrt.Fail("MTUs in effect %d and %d, want %d and %d", a.GetMTU(), b.GetMTU(), want(v1), want(v2))
	}
	if a.GetOption("MTU") != v1 || b.GetOption("MTU") != v2 {
		vrt.Fail("options read back as %v and %v", a.GetOption("MTU"), b.GetOption("MTU"))
	}
	vrt.Outcome(fmt.Sprint(a.GetMTU(), b.GetMTU()))
}

// sessChange: an endpoint's session is the one it was given last.
func sessChange() {
	depth := pick(4, 5)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("history %v", h) })
	vrt.SchedOff()
	all := []int{1, 2, 3, 70000}
	cur := []int{1, 2}
	peers, mine := epsFor("s", all), epsFor("c", cur)
	s, c := twoStacks(0, 64, sessStacks()[0], peers, mine)
	for i := 0; i < depth; i++ {
		t := fmt.Sprint("m", i)
		k := vrt.Choose(14)
		switch {
		case k < 8:
			e, to := k/4, all[k%4]
			h = append(h, fmt.Sprintf("%d gets session %d", e, to))
			if cur[1-e] != to {
				mine[e].SetSession(to)
				cur[e] = to
			}
			if mine[e].GetSession() != cur[e] {
				vrt.Fail("GetSession returns %d", mine[e].GetSession())
			}
		case k < 10:
			h = append(h, fmt.Sprint(k-8, " sends"))
			vrt.Send(mine[k-8].GetTxChannel(), ustack.NewEndPointData().SetConnection(c.conns[0]).SetData(t))
			vrt.Quiesce()
			onlyAt(peers, map[int][]string{cur[k-8]: {t}}, s.conns[0])
		default:
			to := all[k-10]
			h = append(h, fmt.Sprint("the peer sends to ", to))
			vrt.Send(peers[k-10].GetTxChannel(), ustack.NewEndPointData().SetConnection(s.conns[0]).SetData(t))
			vrt.Quiesce()
			onlyAt(mine, map[int][]string{to: {t}}, c.conns[0])
		}
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}
