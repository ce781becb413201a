package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"strings"

	"ustack"
	"ustack/vrt"
)

const second = int64(1e9)

func init() {
	scenario(&Scenario{Name: "compose/all-stacks", Props: []string{"C09"}, Shards: [2]int{8, 8}, Body: composeAll,
		What: "every ordered selection with repetition of at most 3 (thorough 4) out of 16 processors under every codec; messages both ways with heartbeats and collect requests/responses exchanged in between, per-message reads, and 1-byte, 3-byte and coalesced reads where the lowest header is the frame decoder's"})
	scenario(&Scenario{Name: "compose/deep-stacks", Props: []string{"C09"}, Shards: [2]int{4, 8}, Body: composeDeep,
		What: "every order of {session, frame, heartbeat, stat, filter} (and, thorough, a disabled load balancer) all present at once, under every codec"})
	scenario(&Scenario{Name: "compose/real-stacks", Props: []string{"C09"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: composeReal,
		What: "two real stacks over TCP/Unix with session, heartbeat, statistics and frame decoder in four orders; endpoints send both ways while control messages flow, all schedules within the bound"})
	scenario(&Scenario{Name: "compose/empty-encodings", Props: []string{"C09"}, Shards: [2]int{4, 8}, Body: composeEmpty,
		What: "every stack of at most 3 processors that adds a header, under a generic codec that encodes one of its messages as no bytes at all"})
	scenario(&Scenario{Name: "compose/disabled-above", Props: []string{"C09"}, Shards: [2]int{2, 4}, Body: composeDisabled,
		What: "every codec with up to 3 (thorough 4) disabled processors, codecs of every kind included, in every arrangement above it and below it (nothing, one enabled or disabled processor): they let every message through unchanged"})
	scenario(&Scenario{Name: "compose/switching", Props: []string{"C09", "C10"}, Shards: [2]int{8, 8}, Body: composeSwitch,
		What: "every stack of at most 2 (thorough 3) out of {session, frame, statistics with collection, filter, forwarder, flow controller} with all, none or only the first enabled; every history of 4 operations {switch the k-th on or off at both peers, or at one of them if that does not change the format, 1 s passes}: after each, messages of 1 byte and of exactly MTU - overhead bytes pass both ways, whole, once, in order, and nothing else does"})
	scenario(&Scenario{Name: "mtu/all-sizes", Props: []string{"C10"}, Shards: [2]int{8, 8}, Body: mtuSizes,
		What: "every stack of at most 2 (thorough 3) of 10 processors, MTU = overhead+1 .. overhead+12, every encoded size 0..MTU+3, bytes/string/JSON/GOB/generic codecs: wire length = size + added bytes <= MTU and delivered whole, or nothing at all"})
	scenario(&Scenario{Name: "mtu/real-stacks", Props: []string{"C10"}, Shards: [2]int{2, 4}, Body: mtuReal,
		What: "two real stacks over TCP/Unix, MTU 20..28, a sequence of messages of every size up to MTU+3 interleaved with small ones"})
	scenario(&Scenario{Name: "garbage/short-strings", Props: []string{"C08"}, Shards: [2]int{8, 8}, Body: garbageShort,
		What: "every byte string of length <= 4 (thorough 5) over a 10-letter alphabet of tags, lengths and codec markers, in one read and one byte at a time, into every stack of a list x every codec; compared with a reference decoder of the whole stack"})
	scenario(&Scenario{Name: "garbage/framed-strings", Props: []string{"C08"}, Shards: [2]int{8, 8}, Body: garbageFramed,
		What: "every byte string of length <= 4 (thorough 5) correctly framed, followed by a good frame"})
	scenario(&Scenario{Name: "garbage/all-lengths", Props: []string{"C08"}, Shards: [2]int{8, 8}, Body: garbageSizes,
		What: "default MTU, every stack and codec: one frame or read of every length 0..MTU that starts with one of 16 combinations of tags and continues with one of 3 fillers"})
	scenario(&Scenario{Name: "garbage/damaged-messages", Props: []string{"C08"}, Shards: [2]int{8, 8}, Body: garbageMutated,
		What: "every truncation, insertion and single-byte change of the wire image of a good message, in every stack x codec, followed by good messages on another connection"})
	scenario(&Scenario{Name: "garbage/frame-lengths", Props: []string{"C08"}, Shards: [2]int{2, 4}, Body: garbageLengths,
		What: "every declared frame length around 0, MTU, cache size, 2^15, 2^16, 2^31, 2^32 x every number of following bytes 0..MTU, repeated three times"})
	scenario(&Scenario{Name: "garbage/beside-good-traffic", Props: []string{"C08"}, Bound: [2]int{1, 2}, Shards: [2]int{4, 8}, Body: garbageConc,
		What: "a TCP/Unix server: one peer sends each of a list of malformed inputs and then stays, closes or breaks, while another exchanges messages; all schedules within the bound"})
}

// pump carries everything sent on one rig to the other, until nothing is left.
func pump(a, b *rig, how int) {
	for i := 0; i < 50; i++ {
		wa, wb := a.takeWire(), b.takeWire()
		if len(wa)+len(wb) == 0 {
			return
		}
		deliver(b, wa, how)
		deliver(a, wb, how)
		vrt.Quiesce()
	}
	vrt.Fail("the two stacks exchange control messages endlessly without time passing")
}

// deliver: how 0 = one read per message, else reads of that many bytes.
func deliver(r *rig, w [][]byte, how int) {
	if how == 0 {
		for _, x := range w {
			r.recv(r.conn, x)
		}
		return
	}
	s := bytes.Join(w, nil)
	for p := 0; p < len(s); p += how {
		r.recv(r.conn, s[p:min(p+how, len(s))])
	}
}

func composeOne(st stackT, c codecT, how int) { composeUnder(nil, st, c, how) }

// composeUnder: the same with further processors above the codec.
func composeUnder(above, st stackT, c codecT, how int) {
	vrt.ResetBudget()
	vrt.SetCase(func() string { return fmt.Sprintf("%s codec on %s under %s, read mode %d", c.name, st, above, how) })
	const mtu = 256
	a, b := newRig(mtu, st.mk(append(above.mk(), c.mk())...)...), newRig(mtu, st.mk(append(above.mk(), c.mk())...)...)
	a.publish(ustack.UStackEventNewConnection, a.conn)
	b.publish(ustack.UStackEventNewConnection, b.conn)
	vrt.Quiesce()
	var fromA, fromB []any
	for i, m := range c.msgs[:min(4, len(c.msgs))] {
		a.send(a.conn, m, 0)
		fromA = append(fromA, m)
		if i == 1 {
			b.send(b.conn, c.msgs[2], 0)
			fromB = append(fromB, c.msgs[2])
			pump(a, b, how)
			vrt.Sleep(second * 11 / 10)
			vrt.Quiesce()
		}
		if i == 2 {
			pump(a, b, how)
		}
	}
	b.send(b.conn, c.msgs[1], 0)
	fromB = append(fromB, c.msgs[1])
	pump(a, b, how)
	check := func(r *rig, sent []any, who string) {
		for i, g := range r.got {
			if i >= len(sent) {
				vrt.Fail("%s: something that was never sent was delivered: %s", who, show(g.msg))
			}
			if !c.same(g.msg, sent[i]) {
				vrt.Fail("%s: message %d delivered as %s, sent as %s", who, i, show(g.msg), show(sent[i]))
			}
			if g.conn != r.conn {
				vrt.Fail("%s: message %d names another connection", who, i)
			}
		}
		if len(r.got) < len(sent) {
			vrt.Fail("%s: %d of %d messages delivered", who, len(r.got), len(sent))
		}
	}
	check(b, fromA, "peer B")
	check(a, fromB, "peer A")
	// end the senders of this rig
	a.conn.closed, b.conn.closed = true, true
	vrt.Count("traces", 1)
	vrt.Count("states", 8)
}

// composeDisabled: a disabled processor is transparent wherever it stands.
func composeDisabled() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	vrt.SchedOff()
	var offs []procT
	for _, p := range procs() {
		if strings.HasSuffix(p.name, "(off)") && p.add == 0 {
			offs = append(offs, p)
		}
	}
	for _, x := range cs {
		x := x
		offs = append(offs, procT{x.name + "-codec(off)", func() ustack.DataProcessor { return off(x.mk()) }, 0, 0})
	}
	below := []stackT{nil}
	for _, p := range append(procs(), offs...) {
		below = append(below, stackT{p})
	}
	n := 0
	eachStack(pick(3, 4), offs, func(above stackT) {
		for _, b := range below {
			if len(above)+len(b) > pick(3, 4) {
				continue
			}
			composeUnder(above, b, c, 0)
			n++
		}
	})
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, n))
}

func composeAll() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	vrt.SchedOff()
	n := 0
	eachStack(pick(3, 4), procs(), func(st stackT) {
		if tier == 1 && len(st) == 4 && c.name != "bytes" && c.name != "gob" {
			return
		}
		hows := []int{0}
		if st.framed() {
			hows = []int{0, 1, 3, 200}
		}
		for _, h := range hows {
			composeOne(st, c, h)
			n++
		}
	})
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, n))
}

func composeDeep() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	all := procs()
	items := []procT{all[0], all[1], all[2], all[3], all[4]}
	if tier == 1 {
		items = append(items, all[10])
	}
	first := vrt.Choose(len(items))
	vrt.SchedOff()
	items[0], items[first] = items[first], items[0]
	var rec func(k int)
	rec = func(k int) {
		if k == len(items) {
			st := append(stackT(nil), items...)
			composeOne(st, c, 0)
			if st.framed() {
				composeOne(st, c, 1)
				composeOne(st, c, 5)
			}
			return
		}
		for i := k; i < len(items); i++ {
			items[k], items[i] = items[i], items[k]
			rec(k + 1)
			items[k], items[i] = items[i], items[k]
		}
	}
	rec(1)
	vrt.Outcome(c.name)
}

func composeReal() {
	kind := vrt.Choose(2)
	all := procs()
	stacks := []stackT{{all[0], all[2], all[3], all[1]}, {all[3], all[2], all[0], all[1]}, {all[2], all[0], all[1]}, {all[0], all[3], all[4], all[1]}}
	st := stacks[vrt.Choose(len(stacks))]
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s", netName(kind), st) })
	se, ce := ustack.NewEndPoint("s", 3), ustack.NewEndPoint("c", 3)
	var s, c *node2
	quiet(func() {
		s, c = twoStacks(kind, 128, func() []ustack.DataProcessor { return st.mk(ustack.NewStringCodec()) }, []ustack.EndPoint{se}, []ustack.EndPoint{ce})
	})
	send(ce, c.conns[0], "c1")
	send(se, s.conns[0], "s1")
	send(ce, c.conns[0], "c2")
	vrt.Sleep(second + 1)
	send(se, s.conns[0], "\x83")
	vrt.Quiesce()
	checkStrings(drain(se), []string{"c1", "c2"}, "server endpoint")
	checkStrings(drain(ce), []string{"s1", "\x83"}, "client endpoint")
	vrt.Outcome(st.String())
}

func checkStrings(got []ustack.EndPointData, want []string, what string) {
	for i, d := range got {
		if i >= len(want) {
			vrt.Fail("%s: extra message %s after the %d sent", what, show(d.GetData()), len(want))
		}
		if x, ok := d.GetData().(string); !ok || x != want[i] {
			vrt.Fail("%s: message %d delivered as %s, sent as %q; all: %s", what, i, show(d.GetData()), want[i], showEpds(got))
		}
	}
	if len(got) < len(want) {
		vrt.Fail("%s: only %d of %d messages delivered: %s", what, len(got), len(want), showEpds(got))
	}
}

// ---- C10 -------------------------------------------------------------------

// sized returns a message whose encoding has about n bytes.
func sized(c codecT, n int) any {
	switch c.name {
	case "bytes":
		return payload(1, n)
	case "string":
		return strings.Repeat("s", n)
	case "generic":
		// "#" + n-1 digits
		v := 0
		for i := 1; i < n; i++ {
			v = v*10 + 1 + i%9
		}
		return v
	}
	return rec{S: strings.Repeat("q", n)}
}

func mtuSizes() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	all := append([]procT{}, procs()[:4]...)
	all = append(all, procs()[7:11]...)
	all = append(all, procs()[4], procs()[5])
	vrt.SchedOff()
	// encoded lengths, from the wire of a bare stack with a huge MTU
	bare := newRig(4096, c.mk())
	encLen := func(m any) int {
		bare.send(bare.conn, m, nil)
		w := bare.takeWire()
		if len(w) != 1 {
			vrt.Fail("%s codec: a message of the registered type was not sent with an MTU of 4096", c.name)
		}
		return len(w[0])
	}
	var cases int64
	k := pick(2, 3)
	eachStack(k, all, func(st stackT) {
		over := st.reserved()
		probe := newRig(4096, st.mk(c.mk())...)
		if o := probe.u.GetOverhead(); o != over {
			vrt.SetCase(func() string { return fmt.Sprintf("%s codec on %s", c.name, st) })
			vrt.Fail("the stack reports an overhead of %d, its processors need %d", o, over)
		}
		base := 0
		if c.name == "json" || c.name == "gob" {
			base = encLen(sized(c, 0)) - 1
		}
		for room := 0; room <= 12; room++ {
			mtu := over + base + room
			if mtu == 0 {
				continue
			}
			a, b := newRig(mtu, st.mk(c.mk())...), newRig(mtu, st.mk(c.mk())...)
			lo := 1
			if base > 0 {
				lo = 0
			}
			if c.name == "generic" {
				lo = 2
			}
			for n := lo; n <= room+over+3; n++ {
				if c.name == "generic" && n > 18 {
					break
				}
				m := sized(c, n)
				e := encLen(m)
				vrt.ResetBudget()
				vrt.SetCase(func() string {
					return fmt.Sprintf("%s codec on %s, MTU %d, overhead %d, encoded message of %d bytes", c.name, st, mtu, over, e)
				})
				a.send(a.conn, m, 9)
				w := a.takeWire()
				fits := e <= mtu-over
				if !fits {
					if len(w) != 0 {
						vrt.Fail("%d wire messages (%d bytes) for a message that does not fit", len(w), len(w[0]))
					}
					cases++
					continue
				}
				if len(w) != 1 {
					vrt.Fail("%d wire messages for one that fits", len(w))
				}
				if len(w[0]) != e+st.add() {
					vrt.Fail("%d bytes on the wire, want %d + %d", len(w[0]), e, st.add())
				}
				if len(w[0]) > mtu {
					vrt.Fail("%d bytes on the wire", len(w[0]))
				}
				b.recv(b.conn, w[0])
				g := b.takeGot()
				if len(g) != 1 || !c.same(g[0].msg, m) {
					vrt.Fail("not delivered complete: %d messages delivered", len(g))
				}
				cases++
			}
		}
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*2)
	vrt.Outcome(fmt.Sprintf("%s: %d sizes", c.name, cases))
}

func mtuReal() {
	kind := vrt.Choose(2)
	cs := codecs()[:2]
	c := cs[vrt.Choose(2)]
	all := procs()
	st := []stackT{{all[1]}, {all[0], all[2], all[3], all[1]}}[vrt.Choose(2)]
	mtu := st.reserved() + 1 + vrt.Choose(9)
	vrt.SchedOff()
	se, ce := ustack.NewEndPoint("s", 3), ustack.NewEndPoint("c", 3)
	if !st.has("session") {
		se.SetSession(0)
		ce.SetSession(0)
	}
	_, cl := twoStacks(kind, mtu, func() []ustack.DataProcessor { return st.mk(c.mk()) }, []ustack.EndPoint{se}, []ustack.EndPoint{ce})
	var want []any
	small := sized(c, 1)
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s codec on %s, MTU %d", netName(kind), c.name, st, mtu) })
	for n := 1; n <= mtu+3; n++ {
		m := sized(c, n)
		send(ce, cl.conns[0], m)
		if n <= mtu-st.reserved() {
			want = append(want, m)
		}
		send(ce, cl.conns[0], small)
		want = append(want, small)
	}
	vrt.Quiesce()
	got := drain(se)
	for i, g := range got {
		if i >= len(want) || !c.same(g.GetData(), want[i]) {
			vrt.Fail("message %d of the run 1..MTU+3 delivered as %s, %d expected in all", i, show(g.GetData()), len(want))
		}
	}
	if len(got) != len(want) {
		vrt.Fail("%d messages delivered, %d of those sent fit the MTU", len(got), len(want))
	}
	vrt.Outcome(fmt.Sprintf("%d delivered", len(got)))
}

// ---- C08 -------------------------------------------------------------------

// refStack is the reference receiver: which messages a conforming stack
// delivers for one connection's byte stream.
type refStack struct {
	st    stackT
	c     codecT
	mtu   int
	cache map[int][]byte
	dead  bool // after an oversized frame nothing more is specified
	out   []any
}

func (r *refStack) read(p []byte) { r.up(len(r.st)-1, append([]byte{}, p...)) }

func (r *refStack) up(i int, p []byte) {
	if r.dead {
		return
	}
	if i < 0 {
		if m, ok := r.c.dec(p); ok {
			r.out = append(r.out, m)
		}
		return
	}
	switch r.st[i].name {
	case "frame":
		if r.cache == nil {
			r.cache = map[int][]byte{}
		}
		r.cache[i] = append(r.cache[i], p...)
		for len(r.cache[i]) >= 4 && !r.dead {
			n := uint64(binary.BigEndian.Uint32(r.cache[i]))
			if n > uint64(r.mtu-4) {
				r.dead = true
				return
			}
			if uint64(len(r.cache[i])) < 4+n {
				return
			}
			f := append([]byte{}, r.cache[i][4:4+n]...)
			r.cache[i] = r.cache[i][4+n:]
			r.up(i-1, f)
		}
	case "session":
		if len(p) >= 4 {
			r.up(i-1, p[4:])
		}
	case "heartbeat":
		if len(p) >= 1 && p[0] != ustack.HeartbeatSelfMessageTag {
			r.up(i-1, p[1:])
		}
	case "stat", "stat(off)":
		if len(p) >= 1 && p[0] != ustack.StatCounterSelfMessageReqTag && p[0] != ustack.StatCounterSelfMessageResTag {
			r.up(i-1, p[1:])
		}
	case "balancer":
		if len(p) >= 1 && p[0] == 0 {
			r.up(i-1, p[1:])
		}
	case "balancer(off)":
		if len(p) >= 1 {
			r.up(i-1, p[1:])
		}
	default:
		r.up(i-1, p)
	}
}

func garbageStacks() []stackT {
	p := procs()
	lb := procT{"balancer", ustack.NewLoadBalancer, 1, 1}
	return []stackT{
		{}, {p[1]}, {p[0]}, {p[2]}, {p[3]}, {lb}, {p[9]}, {p[10]},
		{p[0], p[1]}, {p[2], p[1]}, {p[3], p[1]}, {lb, p[1]}, {p[4], p[5], p[1]},
		{p[0], p[2], p[3], p[1]}, {p[1], p[1]}, {p[1], p[0]}, {p[1], p[2]}, {p[1], p[3]}, {p[0], p[2], p[3]},
	}
}

func (r *refStack) check(b *rig, what string) {
	for i, g := range b.got {
		if i >= len(r.out) {
			if r.dead {
				// unspecified after an oversized frame, but it must at least be
				// a decoded message
				if g.msg == nil {
					vrt.Fail("%s: an undecoded message was delivered", what)
				}
				continue
			}
			vrt.Fail("%s: delivered %s, which the bytes do not encode (%d expected)", what, show(g.msg), len(r.out))
		}
		if !reflect.DeepEqual(deref(g.msg), deref(r.out[i])) || reflect.TypeOf(g.msg) != reflect.TypeOf(r.out[i]) {
			vrt.Fail("%s: message %d delivered as %s, the bytes encode %s", what, i, show(g.msg), show(r.out[i]))
		}
	}
	if len(b.got) < len(r.out) {
		vrt.Fail("%s: %d of the %d messages encoded in the bytes were delivered", what, len(b.got), len(r.out))
	}
}

// one input: the reads ps arrive on a fresh connection of rig b.
func garbageOne(b *rig, st stackT, c codecT, mtu int, ps [][]byte, desc func() string) {
	vrt.ResetBudget()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s codec on %s, MTU %d, %s", c.name, st, mtu, desc())
	})
	ref := &refStack{st: st, c: c, mtu: mtu}
	b.got = nil
	conn := &fconn{name: "evil"}
	for _, p := range ps {
		if len(p) == 0 {
			continue
		}
		ref.read(p)
		b.recv(conn, p)
	}
	ref.check(b, "garbage")
	b.got, b.wire, b.wireConn = nil, nil, nil
	conn.closed = true
	b.publish(ustack.UStackEventConnectionClosed, conn)
}

// goodStays checks that an honest connection of the same stack still works.
func goodStays(a, b *rig, st stackT, c codecT) {
	vrt.ResetBudget()
	b.got = nil
	for i := 0; i < 2; i++ {
		a.send(a.conn, c.msgs[i], 5)
		for _, w := range a.takeWire() {
			b.recv(b.conn, w)
		}
	}
	if len(b.got) != 2 || !c.same(b.got[0].msg, c.msgs[0]) || !c.same(b.got[1].msg, c.msgs[1]) {
		vrt.Fail("another connection no longer gets its messages afterwards (%d delivered)", len(b.got))
	}
	b.send(b.conn, c.msgs[1], 5)
	a.got = nil
	for _, w := range b.takeWire() {
		a.recv(a.conn, w)
	}
	if len(a.got) != 1 || !c.same(a.got[0].msg, c.msgs[1]) {
		vrt.Fail("another connection can no longer send afterwards")
	}
}

func garbagePair() (st stackT, c codecT, mtu int, a, b *rig) {
	ss, cs := garbageStacks(), codecs()
	st = ss[vrt.Choose(len(ss))]
	c = cs[vrt.Choose(len(cs))]
	vrt.SchedOff()
	mtu = 256
	mk := func() []ustack.DataProcessor { return st.mk(c.mk()) }
	a, b = newRig(mtu, mk()...), newRig(mtu, mk()...)
	// the enabled load balancer is unfinished: it does not accept its own tag
	return
}

func hasLB(st stackT) bool { return st.has("balancer") }

var evil = []byte{0, 1, 3, 0x10, 0x23, '#', '{', 0x7f, 0x83, 0xff}

func garbageShort() {
	st, c, mtu, a, b := garbagePair()
	var cases int64
	smallStrings(evil, pick(4, 5), func(p []byte) {
		garbageOne(b, st, c, mtu, [][]byte{p}, func() string { return fmt.Sprintf("bytes % x in one read", p) })
		cases++
		if len(p) > 1 {
			ps := make([][]byte, len(p))
			for i := range p {
				ps[i] = p[i : i+1]
			}
			garbageOne(b, st, c, mtu, ps, func() string { return fmt.Sprintf("bytes % x one at a time", p) })
			cases++
		}
	})
	vrt.SetCase(func() string { return fmt.Sprintf("%s codec on %s after all short strings", c.name, st) })
	if !hasLB(st) {
		goodStays(a, b, st, c)
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*3)
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, cases))
}

func framed(p []byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(p))), p...)
}

func garbageFramed() {
	st, c, mtu, a, b := garbagePair()
	if !st.has("frame") {
		return
	}
	var cases int64
	a.send(a.conn, c.msgs[1], 5)
	good := a.takeWire()[0]
	smallStrings(evil, pick(4, 5), func(p []byte) {
		f := framed(p)
		for i, ps := range [][][]byte{{f[:3], f[3:], good}, {f, good}, {append(append([]byte{}, f...), good...)}} {
			if i > 0 && tier == 0 && len(p) > 3 {
				break
			}
			garbageOne(b, st, c, mtu, ps, func() string {
				return fmt.Sprintf("frame holding % x, then a good message, reads %s", p, cutText(ps))
			})
			cases++
		}
	})
	vrt.SetCase(func() string { return fmt.Sprintf("%s codec on %s after all framed strings", c.name, st) })
	if !hasLB(st) {
		goodStays(a, b, st, c)
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*3)
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, cases))
}

func garbageMutated() {
	st, c, mtu, a, b := garbagePair()
	var cases int64
	for mi := 0; mi < pick(4, 7); mi++ {
		a.send(a.conn, c.msgs[mi], 5)
		w := a.takeWire()
		if len(w) != 1 {
			continue
		}
		mutate(w[0], []byte{0, 0x10, 0x23, 0x7f, 0x83, 0xff}, func(what string, m []byte) {
			desc := func() string { return fmt.Sprintf("wire image of message %s %s", show(c.msgs[mi]), what) }
			garbageOne(b, st, c, mtu, [][]byte{m}, desc)
			if len(m) > 2 {
				h := len(m) / 2
				garbageOne(b, st, c, mtu, [][]byte{m[:h], m[h:], w[0]}, desc)
			}
			cases += 2
		})
	}
	vrt.SetCase(func() string { return fmt.Sprintf("%s codec on %s after all damaged messages", c.name, st) })
	if !hasLB(st) {
		goodStays(a, b, st, c)
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*3)
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, cases))
}

func garbageLengths() {
	p := procs()
	st := []stackT{{p[1]}, {p[0], p[1]}, {p[1], p[1]}}[vrt.Choose(3)]
	c := codecs()[0]
	mtu := []int{16, 24}[vrt.Choose(2)]
	cache := []int{0, 8, 64}[vrt.Choose(3)]
	vrt.SchedOff()
	mk := func() []ustack.DataProcessor {
		l := st.mk(c.mk())
		for _, x := range l {
			if cache > 0 {
				x.SetOption("CacheCapacity", cache)
			}
		}
		return l
	}
	a, b := newRig(mtu, mk()...), newRig(mtu, mk()...)
	var lens []uint32
	for _, k := range []uint32{0, uint32(mtu), uint32(2 * mtu), 64, 255, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 0xffffffff} {
		for d := -6; d <= 6; d++ {
			lens = append(lens, k+uint32(d))
		}
	}
	var cases int64
	for _, n := range lens {
		for k := 0; k <= mtu-4; k++ {
			f := binary.BigEndian.AppendUint32(nil, n)
			f = append(f, payload(1, k)...)
			for _, split := range []int{0, 2, 4, 5} {
				if split > len(f) {
					continue
				}
				ps := [][]byte{f[:split], f[split:], f, f}
				garbageOne(b, st, c, mtu, ps, func() string {
					return fmt.Sprintf("cache option %d, frames declaring %d bytes followed by %d, first cut at %d", cache, n, k, split)
				})
				cases++
			}
		}
	}
	vrt.SetCase(func() string { return fmt.Sprintf("%s after all frame lengths", st) })
	goodStays(a, b, st, c)
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Count("transitions", cases*3)
	vrt.Outcome(fmt.Sprintf("%s: %d", st, cases))
}

func garbageConc() {
	kind := vrt.Choose(2)
	inputs := [][]byte{{0xff, 0xff, 0xff, 0xff, 1}, {0, 0, 0, 0}, {0, 0, 0, 1, 0x83}, {0, 0, 0, 1, 0x10, 0, 0, 0, 3, 0, 0x10, 9}, {0x7f, 0, 0}, bytes.Repeat([]byte{0xff}, 40), {0, 0, 0, 2, 0, 0x23}}
	in := inputs[vrt.Choose(len(inputs))]
	end := vrt.Choose(3)
	all := procs()
	st := stackT{all[2], all[3], all[1]}
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, peer sends % x and %s", netName(kind), in, []string{"stays", "closes", "breaks"}[end])
	})
	se, ce := ustack.NewEndPoint("s", 0), ustack.NewEndPoint("c", 0)
	var s, c *node2
	quiet(func() {
		s, c = twoStacks(kind, 64, func() []ustack.DataProcessor { return st.mk(ustack.NewStringCodec()) }, []ustack.EndPoint{se}, []ustack.EndPoint{ce})
	})
	good := s.conns[0]
	ev := rawDial(kind)
	vrt.GoNamed("evil", func() {
		ev.Write(in)
		switch end {
		case 1:
			ev.Close()
		case 2:
			ev.Break()
		}
	})
	send(ce, c.conns[0], "c1")
	send(se, good, "s1")
	send(ce, c.conns[0], "c2")
	vrt.Quiesce()
	checkStrings(perConn(drain(se), good), []string{"c1", "c2"}, "server endpoint")
	checkStrings(drain(ce), []string{"s1"}, "client endpoint")
	vrt.SchedOff()
	send(ce, c.conns[0], "c3")
	vrt.Quiesce()
	checkStrings(perConn(drain(se), good), []string{"c3"}, "server endpoint afterwards")
	vrt.Outcome(fmt.Sprintf("input % x end %d", in, end))
}

// garbageSizes: every length up to the default MTU.
func garbageSizes() {
	ss, cs := garbageStacks(), codecs()
	st := ss[vrt.Choose(len(ss))]
	c := cs[vrt.Choose(len(cs))]
	vrt.SchedOff()
	b := newRig(0, st.mk(c.mk())...)
	mtu := b.u.GetMTU()
	heads := [][]byte{{}, {0}, {0x23}, {0x10}, {0x83}, {0, 0, 0, 5}, {0, 0, 0, 5, 0x23}, {0, 0, 0, 5, 0x83}, {0, 0, 0, 5, 0, 0x23}, {0x23, 0x83}, {0, 0x23}, {0x83, 0x23}, {0, 0, 0x23}, {0, 0, 0, 0, 0, 0, 0x23}, {'#', '1'}, {'{'}}
	fills := []byte{0, 0xff, '7'}
	var cases int64
	step := pick(17, 1)
	for hi, h := range heads {
		for _, f := range fills {
			for n := len(h); n <= mtu; n++ {
				if n > 300 && n < mtu-12 && n%step != hi%step && n&(n-1) != 0 {
					continue
				}
				p := append(append([]byte{}, h...), bytes.Repeat([]byte{f}, n-len(h))...)
				if st.has("frame") && n <= mtu-4 {
					p = framed(p)
				}
				if len(p) > mtu || len(p) == 0 {
					continue
				}
				garbageOne(b, st, c, mtu, [][]byte{p}, func() string { return fmt.Sprintf("%d bytes, starting % x, then %#x", n, h, f) })
				cases++
			}
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprintf("%s: %d", c.name, cases))
}

// composeEmpty: a codec may encode a message as nothing; the headers below it
// still carry it.
func composeEmpty() {
	enc := func(m interface{}, w io.Writer) error {
		_, err := io.WriteString(w, strings.Repeat("x", m.(int)))
		if m.(int) == 0 {
			err = nil
		}
		return err
	}
	dec := func(r io.Reader) (interface{}, error) {
		p, err := io.ReadAll(r)
		return len(p), err
	}
	c := codecT{name: "generic", mk: func() ustack.DataProcessor { return ustack.NewGenericCodec(nil, enc, dec) }, msgs: []any{0, 3, 0, 1},
		same: func(g, s any) bool { return g == s }}
	vrt.SchedOff()
	n := 0
	eachStack(pick(3, 4), procs(), func(st stackT) {
		if st.add() == 0 {
			return
		}
		hows := []int{0}
		if st.framed() {
			hows = []int{0, 1, 3}
		}
		for _, h := range hows {
			composeOne(st, c, h)
			n++
		}
	})
	vrt.Outcome(fmt.Sprint(n))
}

// composeSwitch: processors are switched on and off between the messages.
func composeSwitch() {
	kinds := []struct {
		procT
		neutral bool // switching does not change the format
	}{
		{procT{"session", ustack.NewSessionResolver, 4, 4}, false},
		{procT{"frame", ustack.NewFrameDecoder, 4, 4}, false},
		{procT{"stat", statEvery(1), 1, 1}, true},
		{procT{"filter", passFilter, 0, 0}, true},
		{procT{"forwarder", passForwarder, 0, 0}, true},
		{procT{"flow", ustack.NewFlowController, 0, 0}, true},
	}
	n := pick(2, 3)
	var pickd []int
	for i := 0; i < n; i++ {
		k := vrt.Choose(len(kinds) + b2i(i > 0))
		if k == len(kinds) {
			break
		}
		pickd = append(pickd, k)
	}
	n = len(pickd)
	start := vrt.Choose(3) // all, none, the first
	type op struct {
		k, who int // who 0: both, 1: only the first peer
	}
	ops := []op{{-1, 0}}
	for i, k := range pickd {
		ops = append(ops, op{i, 0})
		if kinds[k].neutral {
			ops = append(ops, op{i, 1})
		}
	}
	const depth = 4
	h := make([]int, depth)
	h[0], h[1] = vrt.Choose(len(ops)), vrt.Choose(len(ops))
	vrt.SchedOff()
	var cases int64
	run := func() {
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			t := ""
			for _, k := range pickd {
				t += kinds[k].name + " "
			}
			t += fmt.Sprintf("below a bytes codec, enabled at first %s:", []string{"all", "none", "the first"}[start])
			for _, o := range h {
				switch x := ops[o]; {
				case x.k < 0:
					t += " 1 s passes,"
				case x.who == 0:
					t += fmt.Sprintf(" switch %d at both,", x.k)
				default:
					t += fmt.Sprintf(" switch %d at one,", x.k)
				}
			}
			return t
		})
		const mtu = 64
		var on [2][]bool
		var ps [2][]ustack.DataProcessor
		var rs [2]*rig
		for w := range rs {
			for i, k := range pickd {
				p := kinds[k].mk()
				e := start == 0 || start == 2 && i == 0
				p.SetEnable(e)
				on[w] = append(on[w], e)
				ps[w] = append(ps[w], p)
			}
			rs[w] = newRig(mtu, append([]ustack.DataProcessor{ustack.NewBytesCodec()}, ps[w]...)...)
			rs[w].publish(ustack.UStackEventNewConnection, rs[w].conn)
		}
		vrt.Quiesce()
		pump(rs[0], rs[1], 0)
		seq := byte(0)
		for _, o := range append([]int{0}, h...) {
			if x := ops[o]; x.k < 0 {
				vrt.Sleep(second)
				vrt.Quiesce()
			} else {
				for w := 0; w < 2-x.who; w++ {
					on[w][x.k] = !on[w][x.k]
					ps[w][x.k].SetEnable(on[w][x.k])
				}
			}
			for w := range rs {
				var want [][]byte
				for _, size := range []int{1, mtu - rs[w].u.GetOverhead()} {
					seq++
					m := bytes.Repeat([]byte{seq}, size)
					want = append(want, m)
					rs[w].send(rs[w].conn, m, 0)
				}
				pump(rs[0], rs[1], 0)
				if g := rs[w].takeGot(); len(g) != 0 {
					vrt.Fail("something is delivered to the sender: %s", show(g[0].msg))
				}
				g := rs[1-w].takeGot()
				for i, m := range want {
					if i >= len(g) {
						vrt.Fail("a message of %d bytes is not delivered", len(m))
					}
					if b, ok := g[i].msg.([]byte); !ok || !bytes.Equal(b, m) {
						vrt.Fail("a message of %d bytes is delivered as %s", len(m), show(g[i].msg))
					}
				}
				if len(g) > len(want) {
					vrt.Fail("something that was never sent is delivered: %s", show(g[len(want)].msg))
				}
			}
		}
		for w := range rs {
			rs[w].conn.closed = true
		}
		cases++
	}
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			run()
			return
		}
		for o := range ops {
			h[i] = o
			rec(i + 1)
		}
	}
	rec(2)
	vrt.Count("traces", cases)
	vrt.Count("states", cases*(depth+1))
	vrt.Outcome(fmt.Sprint(pickd, start))
}
