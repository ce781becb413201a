package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

func init() {
	scenario(&Scenario{Name: "heartbeat/patterns", Props: []string{"C19"}, Shards: [2]int{8, 8}, Body: hbPatterns,
		What: "every pattern of heartbeat arrivals on a half-second grid over 4 s (thorough 5.5 s), timeout 1..3 s, close-on-lost on/off, every quarter-second phase between connection and checks; virtual time"})
	scenario(&Scenario{Name: "heartbeat/two-connections", Props: []string{"C19"}, Shards: [2]int{8, 8}, Body: hbTwo,
		What: "two connections (same address) with every pair out of 7 arrival patterns, data received on, or sent to, either, both or none, close-on-lost on/off"})
	scenario(&Scenario{Name: "heartbeat/closed", Props: []string{"C19"}, Shards: [2]int{4, 8}, Body: hbClosed,
		What: "a connection closed by the peer, the application or deletion of the transport at every quarter second around the timeout"})
	scenario(&Scenario{Name: "heartbeat/closed-race", Props: []string{"C19"}, Bound: [2]int{3, 4}, Shards: [2]int{8, 8}, Body: hbClosedRace,
		What: "the connection is closed, or a heartbeat arrives, at the very moment of a check; all schedules within the bound"})
	scenario(&Scenario{Name: "heartbeat/two-stacks", Props: []string{"C19"}, Shards: [2]int{4, 8}, Body: hbStacks,
		What: "two real stacks with intervals 1..4 s and timeouts 1..4 s on either side over 20 s; one side may stop sending"})
	scenario(&Scenario{Name: "heartbeat/defaults", Props: []string{"C19"}, Body: hbDefaults,
		What: "default options: heartbeat every second, loss after 30 s, closed on loss"})
	scenario(&Scenario{Name: "heartbeat/long-times", Props: []string{"C19"}, Shards: [2]int{4, 8}, MaxPts: 3000000, Body: hbLong,
		What: "intervals and timeouts of 1 s .. 1 h, close-on-lost on/off: heartbeats just within the timeout five times, then silence: one loss at the right time, none in the two hours (and two timeouts) that follow; the number of heartbeats sent"})
	scenario(&Scenario{Name: "heartbeat/traffic", Props: []string{"C19"}, Bound: [2]int{2, 3}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: hbTraffic,
		What: "two stacks exchange heartbeats and data for 3 s with timeout 2 s; all schedules within the bound: no loss"})
	scenario(&Scenario{Name: "stat/histories", Props: []string{"C20"}, Shards: [2]int{8, 8}, Body: statHist,
		What: "every history of 5 (thorough 6) operations {send, receive, request, foreign response, empty message, message without connection, enable, disable, give the stack another name} on two connections against a counting model"})
	scenario(&Scenario{Name: "stat/many", Props: []string{"C20"}, Shards: [2]int{4, 4}, Body: statMany,
		What: "up to 70000 (thorough: 2^24+300) messages in each direction, the answer checked after every one of the first 600 and around every power of two"})
	scenario(&Scenario{Name: "stat/large-counts", Props: []string{"C20"}, Body: statLarge,
		What: "the counters are found in the counter's memory by observing them count, advanced to just below 2^8 .. 2^63, and must go on counting exactly (skipped if the counts are not kept as plain integers)"})
	scenario(&Scenario{Name: "stat/names", Props: []string{"C20"}, Body: statNames,
		What: "stack names of every length 0..600 (thorough 3000), with and without frames: the answer carries the whole name"})
	scenario(&Scenario{Name: "stat/concurrent", Props: []string{"C20"}, Bound: [2]int{3, 4}, Cap: [2]int{600000, 0}, Shards: [2]int{8, 8}, Body: statConc,
		What: "two endpoints send, two connections receive, a request arrives; the final request returns the exact totals, the earlier one a consistent lower value; all schedules within the bound"})
	scenario(&Scenario{Name: "stat/interval", Props: []string{"C20"}, Shards: [2]int{4, 8}, Body: statInterval,
		What: "collection interval -1..4 s, two connections opened at different times, 13 s of virtual time, connection closed at some point; every request answered by the peer's counter"})
	scenario(&Scenario{Name: "stat/long-intervals", Props: []string{"C20"}, MaxPts: 3000000, Body: statLong,
		What: "collection intervals of 5 s .. 1 day: requests exactly at their multiples, over four of them"})
	scenario(&Scenario{Name: "stat/two-stacks", Props: []string{"C20"}, Bound: [2]int{2, 3}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: statStacks,
		What: "two real stacks collect from each other while messages flow; all schedules within the bound"})
}

const hbTag = 0x83

func hbFrame() []byte { return framed([]byte{hbTag}) }

type timed struct {
	at   int64
	what string
	conn ustack.TransportConnection
}

// hbServer is a real stack with a heartbeat, observed with time stamps.
type hbServer struct {
	n   *node2
	ep  ustack.EndPoint
	log []timed
	tr  ustack.Transport
}

func newHbServer(kind, timeout int, closeOnLost bool, extra ...ustack.DataProcessor) *hbServer {
	s := &hbServer{ep: ustack.NewEndPoint("e", 0)}
	hb := ustack.NewHeartbeat().SetOption("CloseOnLost", closeOnLost)
	if timeout > 0 {
		hb.SetOption("TimeoutInSecond", timeout)
	}
	s.n = newNode("n", 64, ustack.NewStringCodec(), hb, ustack.NewFrameDecoder())
	s.n.u.SetEventListener(func(e ustack.Event) {
		if c, ok := e.Data.(ustack.TransportConnection); ok {
			vrt.Touch("log")
			s.log = append(s.log, timed{vrt.Now(), eventName(e.Type), c})
		}
	})
	s.tr = newTransport(kind, "s", true, netAddr(kind))
	s.n.u.AddEndPoint(s.ep).AddTransport(s.tr).Run()
	return s
}

func (s *hbServer) losses(c ustack.TransportConnection) []int64 {
	var l []int64
	for _, x := range s.log {
		if x.what == "lost" && x.conn == c {
			l = append(l, x.at)
		}
	}
	return l
}

// checkLosses compares the lost events of a connection with its heartbeat
// arrivals (the first one is the connection itself) up to time end.
func checkLosses(beats []int64, losses []int64, timeout int64, closes bool, closedAt, end int64) string {
	slack := 3 * second / 2
	k := 0
	used := func(lo, hi int64) int {
		n := 0
		for k < len(losses) && losses[k] < hi {
			if losses[k] < lo {
				return -1
			}
			n++
			k++
		}
		return n
	}
	show := func() string {
		return fmt.Sprintf("heartbeats at %v, timeout %.0f s: losses reported at %v (closed at %.2f)", secs(beats), float64(timeout)/1e9, secs(losses), float64(closedAt)/1e9)
	}
	for i, b := range beats {
		next := end
		last := i == len(beats)-1
		if !last {
			next = beats[i+1]
		}
		if closedAt >= 0 && closedAt < next {
			next = closedAt
		}
		n := used(b+timeout, next+1)
		if n < 0 {
			vrt.Fail("%s: a loss while the heartbeats were in time", show())
		}
		gap := next - b
		switch {
		case n > 1:
			vrt.Fail("%s: one silence reported %d times", show(), n)
		case n == 0 && gap > timeout+slack:
			vrt.Fail("%s: the silence after %.2f is not reported", show(), float64(b)/1e9)
		case n == 1 && losses[k-1] > b+timeout+slack:
			vrt.Fail("%s: the silence after %.2f is reported late", show(), float64(b)/1e9)
		}
		if n == 1 && closes {
			break
		}
		if closedAt >= 0 && closedAt <= next {
			break
		}
	}
	if k < len(losses) {
		vrt.Fail("%s: loss of a connection that was closed before", show())
	}
	return fmt.Sprint(len(losses))
}

func hbPatterns() {
	slots := pick(8, 11)
	// the pattern is enumerated bit by bit, so that shards get similar shares
	bits := 0
	for i := 0; i < slots; i++ {
		bits |= vrt.Choose(2) << i
	}
	kind := 0
	timeout := 1 + vrt.Choose(3)
	closes := vrt.Choose(2) == 1
	phase := int64(vrt.Choose(4)) * second / 4
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("arrivals %0*b on a half-second grid (first one rightmost), timeout %d, close on lost %v, phase %.2f s", slots, bits, timeout, closes, float64(phase)/1e9)
	})
	s := newHbServer(kind, timeout, closes)
	vrt.Quiesce()
	vrt.Sleep(phase + 1) // just after the instant of a check, or between checks
	p := rawDial(kind)
	vrt.Quiesce()
	t0 := vrt.Now()
	beats := []int64{t0}
	for i := 0; i < slots; i++ {
		vrt.Sleep(second / 2)
		vrt.Quiesce()
		if p.Peer.IsClosed() {
			break
		}
		if bits>>i&1 == 1 {
			p.Write(hbFrame())
			beats = append(beats, vrt.Now())
			vrt.Quiesce()
		}
	}
	end := vrt.Now() + int64(timeout)*second + 2*second
	vrt.Sleep(end - vrt.Now())
	vrt.Quiesce()
	c := s.n.conns[0]
	losses := s.losses(c)
	o := checkLosses(beats, losses, int64(timeout)*second, closes, -1, end)
	if closes != c.Closed() || closes != p.Peer.IsClosed() || len(s.n.closed) != b2i(closes) {
		vrt.Fail("close on lost %v, connection closed %v, %d closed events", closes, c.Closed(), len(s.n.closed))
	}
	if closes && len(losses) != 1 {
		vrt.Fail("%d losses of a connection that is closed on loss", len(losses))
	}
	if l := drain(s.ep); len(l) != 0 {
		vrt.Fail("a heartbeat was delivered to an endpoint: %s", showEpds(l))
	}
	vrt.Count("traces", 1)
	vrt.Count("states", int64(slots))
	vrt.Outcome(fmt.Sprint(timeout, closes, o))
}

func hbTwo() {
	kind := vrt.Choose(2)
	pats := []int{0, 0xffff, 0x00ff, 0x5555, 0x1111, 0x000f, 0xf00f}
	pa, pb := pats[vrt.Choose(7)], pats[vrt.Choose(7)]
	data := vrt.Choose(7) // bit 0: data on the first, bit 1: on the second; 4..6: the stack sends data on them
	sends := 0
	if data > 3 {
		data, sends = 0, data-3
	}
	closes := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, arrivals %016b and %016b on a half-second grid, data received on connections %02b, sent on %02b, close on lost %v", netName(kind), pa, pb, data, sends, closes)
	})
	s := newHbServer(kind, 2, closes)
	vrt.Sleep(second/4 + 1)
	vrt.Quiesce()
	var ps []*vnet.VConn
	var beats [2][]int64
	for i := range beats {
		ps = append(ps, rawDial(kind))
		vrt.Quiesce()
		beats[i] = []int64{vrt.Now()}
	}
	for i := 0; i < 16; i++ {
		vrt.Sleep(second / 2)
		vrt.Quiesce()
		for k, pat := range []int{pa, pb} {
			if ps[k].Peer.IsClosed() {
				continue
			}
			if data>>k&1 == 1 {
				ps[k].Write(framed([]byte("\x00data")))
				vrt.Quiesce()
				l := drain(s.ep)
				checkStrings(l, []string{"data"}, "endpoint")
				if l[0].GetConnection() != s.n.conns[k] {
					vrt.Fail("data attributed to the wrong connection")
				}
			}
			if sends>>k&1 == 1 {
				send(s.ep, s.n.conns[k], "out")
				vrt.Quiesce()
			}
			if pat>>i&1 == 1 {
				ps[k].Write(hbFrame())
				beats[k] = append(beats[k], vrt.Now())
				vrt.Quiesce()
			}
		}
	}
	end := vrt.Now() + 4*second
	for i := 0; i < 8; i++ {
		vrt.Sleep(second / 2)
		for k := range ps {
			if sends>>k&1 == 1 && !ps[k].Peer.IsClosed() {
				send(s.ep, s.n.conns[k], "out")
			}
		}
		vrt.Quiesce()
	}
	o := ""
	for k := range ps {
		o += checkLosses(beats[k], s.losses(s.n.conns[k]), 2*second, closes, -1, end) + " "
		if s.n.conns[k].Closed() != closes {
			vrt.Fail("close on lost %v, connection %d closed %v", closes, k, s.n.conns[k].Closed())
		}
	}
	vrt.Count("traces", 1)
	vrt.Outcome(o)
}

func hbClosed() {
	kind := vrt.Choose(2)
	how := vrt.Choose(3)
	at := int64(vrt.Choose(16)) * second / 4
	beat := vrt.Choose(2) == 1
	closes := vrt.Choose(2) == 1
	other := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, closed by %s at %.2f s, heartbeat at 1 s %v, close on lost %v, a second connection goes on %v", netName(kind), []string{"the peer", "the application", "deletion of the transport"}[how], float64(at)/1e9, beat, closes, other)
	})
	s := newHbServer(kind, 2, closes)
	vrt.Sleep(second/8 + 1)
	vrt.Quiesce()
	p := rawDial(kind)
	vrt.Quiesce()
	t0 := vrt.Now()
	beats := []int64{t0}
	var p2 *vnet.VConn
	if other && how != 2 {
		p2 = rawDial(kind)
		vrt.Quiesce()
	}
	var closedAt int64 = -1
	for q := 0; q < 28; q++ {
		if int64(q)*second/4 == at {
			switch how {
			case 0:
				p.Close()
			case 1:
				s.n.conns[0].Close()
			case 2:
				s.n.u.DeleteTransport(s.tr)
			}
			vrt.Quiesce()
			closedAt = vrt.Now()
		}
		if beat && q == 4 && !p.Peer.IsClosed() {
			p.Write(hbFrame())
			beats = append(beats, vrt.Now())
		}
		if p2 != nil && q%3 == 0 {
			p2.Write(hbFrame())
		}
		vrt.Sleep(second / 4)
		vrt.Quiesce()
	}
	checkLosses(beats, s.losses(s.n.conns[0]), 2*second, closes, closedAt, vrt.Now())
	if p2 != nil && (len(s.losses(s.n.conns[1])) != 0 || s.n.conns[1].Closed()) {
		vrt.Fail("the other connection was reported lost or closed")
	}
	if !s.n.conns[0].Closed() {
		vrt.Fail("the connection is not closed")
	}
	vrt.Outcome(fmt.Sprint(how, at, len(s.losses(s.n.conns[0]))))
}

func hbClosedRace() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(4)
	closes := vrt.Choose(2) == 1
	modes := []string{"the peer closes", "the application closes", "a heartbeat arrives", "the transport is deleted"}
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %s at the moment the loss is found, close on lost %v", netName(kind), modes[mode], closes)
	})
	var s *hbServer
	var p *vnet.VConn
	quiet(func() {
		s = newHbServer(kind, 2, closes)
		vrt.Quiesce()
		p = rawDial(kind)
		vrt.Quiesce()
		vrt.Sleep(2*second - second/10)
	})
	c := s.n.conns[0]
	closedAt := int64(-1)
	vrt.GoNamed("actor", func() {
		vrt.Sleep(second / 10)
		switch mode {
		case 0:
			p.Close()
		case 1:
			c.Close()
			vrt.Touch("closed")
			if len(s.losses(c)) == 0 {
				closedAt = vrt.Now() // from now on it must not be reported
			}
		case 2:
			p.Write(hbFrame())
		case 3:
			s.n.u.DeleteTransport(s.tr)
		}
	})
	vrt.Sleep(second / 10)
	vrt.Quiesce()
	vrt.SchedOff()
	first := len(s.losses(c))
	vrt.Sleep(second + second/2)
	vrt.Quiesce()
	l := s.losses(c)
	if len(l) > 1 {
		vrt.Fail("one silence reported %d times", len(l))
	}
	if mode != 2 {
		if len(l) != first {
			vrt.Fail("a closed connection was reported lost later")
		}
		if len(s.n.closed) != 1 {
			vrt.Fail("%d closed events", len(s.n.closed))
		}
	} else if len(l) == 1 && c.Closed() != closes {
		vrt.Fail("lost, close on lost %v, closed %v", closes, c.Closed())
	} else if len(l) == 0 && c.Closed() {
		vrt.Fail("closed without a loss")
	}
	vrt.Sleep(4 * second)
	vrt.Quiesce()
	if n := len(s.losses(c)); mode == 2 && !closes && n < 1 || n > 2 {
		vrt.Fail("%d losses", n)
	}
	_ = closedAt
	vrt.Outcome(fmt.Sprint(modes[mode], closes, first))
}

func hbStacks() {
	kind := vrt.Choose(2)
	is, ic := 1+vrt.Choose(4), 1+vrt.Choose(4)
	ts := 1 + vrt.Choose(4)
	closes := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, intervals %d (server) and %d (client), timeout of the server %d s, of the client 10 s, close on lost %v", netName(kind), is, ic, ts, closes)
	})
	mk := func(i, t int) *node2 {
		return newNode("n", 64, ustack.NewStringCodec(), ustack.NewHeartbeat().SetOption("IntervalInSecond", i).SetOption("TimeoutInSecond", t).SetOption("CloseOnLost", closes), ustack.NewFrameDecoder())
	}
	s, c := mk(is, ts), mk(ic, 10)
	es, ec := ustack.NewEndPoint("es", 0), ustack.NewEndPoint("ec", 0)
	s.u.AddEndPoint(es).AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
	vrt.Sleep(second/3 + 1)
	c.u.AddEndPoint(ec).AddTransport(newTransport(kind, "c", false, netAddr(kind))).Run()
	vrt.Quiesce()
	vrt.Sleep(20*second + second/2)
	vrt.Quiesce()
	if len(c.lost) != 0 {
		vrt.Fail("the client lost a server that sends every %d s within 10 s", is)
	}
	alive := !s.conns[0].Closed()
	switch {
	case ic < ts && len(s.lost) != 0:
		vrt.Fail("the server lost a client that sends every %d s within %d s", ic, ts)
	case ic > ts+1 && len(s.lost) == 0:
		vrt.Fail("the client sends every %d s only, no loss within %d s found", ic, ts)
	case closes && len(s.lost) > 1:
		vrt.Fail("%d losses", len(s.lost))
	case alive != (len(s.lost) == 0 || !closes):
		vrt.Fail("%d losses, close on lost %v, still open %v", len(s.lost), closes, alive)
	}
	if alive {
		// the heartbeats themselves: one at the start, then every interval
		for k, iv := range []int{ic, is} {
			var nHb int
			w := vnet.N().Conns[k].Wrote
			for len(w) >= 5 {
				nHb++
				w = w[5:]
			}
			if want := 20/iv + 1; nHb != want || len(w) != 0 {
				vrt.Fail("%d heartbeats in 20.5 s with interval %d s, want %d", nHb, iv, want)
			}
		}
		send(ec, c.conns[0], "a")
		send(es, s.conns[0], "b")
		vrt.Quiesce()
		checkStrings(drain(es), []string{"a"}, "server")
		checkStrings(drain(ec), []string{"b"}, "client")
	}
	vrt.Count("traces", 1)
	vrt.Outcome(fmt.Sprint(ic, ts, closes, len(s.lost)))
}

func hbDefaults() {
	kind := vrt.Choose(2)
	last := int64(vrt.Choose(3)) * 10 * second // last heartbeat of the peer
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("%s, last heartbeat at %.0f s", netName(kind), float64(last)/1e9) })
	n := newNode("n", 0, ustack.NewStringCodec(), ustack.NewHeartbeat(), ustack.NewFrameDecoder())
	var lostAt int64 = -1
	n.u.SetEventListener(func(e ustack.Event) {
		if e.Type == ustack.UStackEventHeartbeatLost {
			lostAt = vrt.Now()
		}
	})
	n.u.AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
	vrt.Sleep(second / 2)
	vrt.Quiesce()
	p := rawDial(kind)
	vrt.Quiesce()
	t0 := vrt.Now()
	if last > 0 {
		vrt.Sleep(last)
		p.Write(hbFrame())
	}
	vrt.Sleep(60 * second)
	vrt.Quiesce()
	if len(n.lost) != 1 || lostAt < t0+last+30*second || lostAt > t0+last+30*second+3*second/2 {
		vrt.Fail("%d losses, at %.2f s after the last heartbeat", len(n.lost), float64(lostAt-t0-last)/1e9)
	}
	if !n.conns[0].Closed() || !p.Peer.IsClosed() {
		vrt.Fail("the lost connection is not closed by default")
	}
	want := int((lostAt-t0)/second) + 1
	if got := len(p.Peer.Wrote) / 5; got < want-1 || got > want {
		vrt.Fail("%d heartbeats sent in %.1f s", got, float64(lostAt-t0)/1e9)
	}
	vrt.Outcome(fmt.Sprint(last))
}

func hbTraffic() {
	kind := vrt.Choose(2)
	vrt.SetCase(func() string { return netName(kind) })
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewHeartbeat().SetOption("TimeoutInSecond", 2), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1}), epsFor("c", []int{1})
	var s, c *node2
	quiet(func() { s, c = twoStacks(kind, 64, mk, ses, ces) })
	for i := 0; i < 3; i++ {
		send(ces[0], c.conns[0], fmt.Sprint("a", i))
		send(ses[0], s.conns[0], fmt.Sprint("b", i))
		vrt.Sleep(second)
	}
	vrt.Quiesce()
	if len(s.lost)+len(c.lost)+len(s.closed)+len(c.closed) != 0 {
		vrt.Fail("%d+%d losses, %d+%d closed with a lively peer", len(s.lost), len(c.lost), len(s.closed), len(c.closed))
	}
	checkStrings(drain(ses[0]), []string{"a0", "a1", "a2"}, "server")
	checkStrings(drain(ces[0]), []string{"b0", "b1", "b2"}, "client")
	vrt.Outcome(netName(kind))
}

// ---- C20 -------------------------------------------------------------------

const (
	reqTag = 0x10
	resTag = 0x23
)

// parseRes decodes a response found on the wire (without frame header).
func parseRes(w []byte) (tx, rx uint64, name string, ok bool) {
	if len(w) < 17 || w[0] != resTag {
		return
	}
	return binary.BigEndian.Uint64(w[1:]), binary.BigEndian.Uint64(w[9:]), string(w[17:]), true
}

func statHist() {
	ops := []string{"send0", "send1", "recv0", "recv1", "req0", "req1", "res", "empty", "nobuf", "none", "toggle", "rename"}
	depth := pick(5, 6)
	o1, o2 := vrt.Choose(len(ops)), vrt.Choose(len(ops))
	name := []string{"n", "", "a-longer-name"}[vrt.Choose(3)]
	vrt.SchedOff()
	h := make([]int, depth)
	h[0], h[1] = o1, o2
	var cases int64
	run := func() {
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			t := ""
			for _, o := range h {
				t += ops[o] + " "
			}
			return fmt.Sprintf("stack name %q, history %s", name, t)
		})
		st := ustack.NewStatCounter()
		r := newRig(64, st)
		name := name
		r.u.SetName(name)
		conns := []*fconn{{name: "x"}, {name: "x"}}
		on := true
		var tx, rx uint64
		for _, o := range append(h, 4, 5) { // ends with requests on both
			c := conns[o&1]
			switch ops[o] {
			case "send0", "send1":
				m := []byte{byte(o), 7}
				r.sendBuf(c, m)
				if on {
					tx++
				}
				w := r.wire
				if len(w) != 1 || string(w[0]) != "\x00"+string(m) || r.wireConn[0] != c {
					vrt.Fail("sent % x, on the wire % x", m, w)
				}
			case "recv0", "recv1":
				m := []byte{9, byte(o)}
				r.recv(c, append([]byte{0}, m...))
				if on {
					rx++
				}
				if len(r.got) != 1 || string(r.got[0].bytes) != string(m) || r.got[0].conn != c {
					vrt.Fail("received % x, delivered %v", m, r.got)
				}
				r.got = nil
			case "req0", "req1":
				r.recv(c, []byte{reqTag})
				if !on {
					if len(r.wire) != 0 {
						vrt.Fail("a disabled counter answers a request")
					}
					break
				}
				if len(r.wire) != 1 || r.wireConn[0] != c {
					vrt.Fail("a request got %d answers", len(r.wire))
				}
				t, x, nm, ok := parseRes(r.wire[0])
				if !ok || t != tx || x != rx || nm != name {
					vrt.Fail("answer % x: tx %d rx %d name %q, want tx %d rx %d name %q", r.wire[0], t, x, nm, tx, rx, name)
				}
			case "res":
				b := make([]byte, 18)
				b[0] = resTag
				b[17] = 'p'
				r.recv(c, b)
				r.recv(c, b[:5]) // cut short
			case "empty":
				r.sendBuf(c, nil)
				if on {
					tx++
				}
				if len(r.wire) != 1 || string(r.wire[0]) != "\x00" {
					vrt.Fail("an empty message becomes % x", r.wire)
				}
				r.recv(c, nil) // no tag: not a message
				if len(r.got) != 0 {
					vrt.Fail("nothing received, delivered %v", r.got)
				}
				r.recv(c, []byte{0})
				if on {
					rx++
				}
				if len(r.got) != 1 || len(r.got[0].bytes) != 0 || r.got[0].conn != c {
					vrt.Fail("received an empty message, delivered %v", r.got)
				}
			case "nobuf":
				// neither sent nor counted
				r.send(c, "m", nil)
			case "none":
				r.sendBuf(nil, []byte{1})
				if on {
					tx++
				}
				if len(r.wire) != 1 {
					vrt.Fail("a message without connection must pass the counter")
				}
			case "toggle":
				on = !on
				st.SetEnable(on)
			case "rename":
				name = fmt.Sprint(len(name)+1, name)
				r.u.SetName(name)
			}
			if ops[o] == "req0" || ops[o] == "req1" || ops[o] == "res" || ops[o] == "nobuf" || ops[o] == "toggle" || ops[o] == "rename" {
				if len(r.got) != 0 {
					vrt.Fail("%s delivered something upward", ops[o])
				}
			}
			if ops[o] == "res" || ops[o] == "nobuf" || ops[o] == "toggle" || ops[o] == "rename" {
				if len(r.wire) != 0 {
					vrt.Fail("%s sent something: % x", ops[o], r.wire)
				}
			}
			r.takeWire()
			r.takeGot()
		}
		cases++
	}
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			run()
			return
		}
		for o := range ops {
			h[i] = o
			rec(i + 1)
		}
	}
	rec(2)
	vrt.Count("traces", cases)
	vrt.Count("states", cases*int64(depth+2))
	vrt.Count("transitions", cases*int64(depth+2))
	vrt.Outcome(fmt.Sprint(o1, o2))
}

// intFields lists the integer fields of a struct, nested structs included.
func intFields(v reflect.Value) []reflect.Value {
	var l []reflect.Value
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Struct:
			l = append(l, intFields(f)...)
		case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			l = append(l, reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
	}
	return l
}

func getInt(f reflect.Value) uint64 {
	if f.CanInt() {
		return uint64(f.Int())
	}
	return f.Uint()
}

// setInt stores x if the field can hold it.
func setInt(f reflect.Value, x uint64) bool {
	if f.CanInt() {
		if x >= 1<<63 || f.OverflowInt(int64(x)) {
			return false
		}
		f.SetInt(int64(x))
		return true
	}
	if f.OverflowUint(x) {
		return false
	}
	f.SetUint(x)
	return true
}

// statLarge: counts that no run can reach by sending are reached by advancing
// the counters, which are identified by what they do.
func statLarge() {
	vrt.SchedOff()
	st := ustack.NewStatCounter()
	r := newRig(64, st)
	r.u.SetName("n")
	c := &fconn{name: "x"}
	var tx, rx uint64
	what := "finding the counters"
	vrt.SetCase(func() string { return what })
	pass := func(s, g int) {
		for i := 0; i < s; i++ {
			r.sendBuf(c, []byte{1})
			tx++
		}
		for i := 0; i < g; i++ {
			r.recv(c, []byte{0, 2})
			rx++
		}
		r.takeWire()
		r.takeGot()
	}
	ask := func() (uint64, uint64) {
		r.recv(c, []byte{reqTag})
		w := r.takeWire()
		if len(w) != 1 {
			vrt.Fail("a request got %d answers", len(w))
		}
		t, x, _, ok := parseRes(w[0])
		if !ok {
			vrt.Fail("answer % x", w[0])
		}
		return t, x
	}
	v := reflect.ValueOf(st)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		vrt.Outcome("no struct")
		return
	}
	fields := intFields(v.Elem())
	was := make([][]uint64, len(fields))
	for _, p := range [][2]int{{5, 3}, {2, 6}, {0, 1}, {4, 0}} {
		pass(p[0], p[1])
		for i, f := range fields {
			was[i] = append(was[i], getInt(f))
		}
	}
	var ft, fr []reflect.Value
	for i, f := range fields {
		if reflect.DeepEqual(was[i], []uint64{5, 7, 7, 11}) {
			ft = append(ft, f)
		}
		if reflect.DeepEqual(was[i], []uint64{3, 9, 10, 10}) {
			fr = append(fr, f)
		}
	}
	if len(ft) != 1 || len(fr) != 1 {
		vrt.Outcome("counters not found")
		return
	}
	set := func(x uint64) bool {
		if !setInt(ft[0], x) || !setInt(fr[0], x+1) {
			return false
		}
		tx, rx = x, x+1
		return true
	}
	// they are the counters if the answers follow them
	for _, x := range []uint64{30, 20} {
		set(x)
		if t, g := ask(); t != tx || g != rx {
			vrt.Outcome("the answer does not follow")
			return
		}
		pass(2, 1)
		if t, g := ask(); t != tx || g != rx {
			vrt.Outcome("the answer does not follow")
			return
		}
	}
	for _, b := range []uint{8, 15, 16, 24, 31, 32, 33, 48, 53, 62, 63, 64} {
		x := uint64(1)<<b - 5
		if !set(x) {
			continue
		}
		what = fmt.Sprintf("counts starting from 2^%d-5", b)
		for i := 0; i < 10 && tx < 1<<64-4; i++ {
			if t, g := ask(); t != tx || g != rx {
				vrt.Fail("after %d sent and %d received the answer is %d and %d", tx, rx, t, g)
			}
			pass(1, 1)
			vrt.Count("states", 1)
		}
	}
	vrt.Count("traces", 1)
	vrt.Outcome("counts exact")
}

// statNames: the answer carries the whole name, for every length that fits.
func statNames() {
	coded := vrt.Choose(2) == 1
	slack := vrt.Choose(3)
	vrt.SchedOff()
	var cases int64
	for n := 0; n <= pick(600, 3000); n++ {
		name := string(fill(n, n))
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("a stack name of %d bytes, frames %v", n, coded) })
		mtu := n + 16 + 1 + 4*b2i(coded) + 11*slack // without slack the answer just fits
		l := []ustack.DataProcessor{ustack.NewStatCounter()}
		if coded {
			l = append(l, ustack.NewFrameDecoder())
		}
		r := newRig(mtu, l...)
		r.u.SetName(name)
		c := &fconn{name: "x"}
		req := []byte{reqTag}
		if coded {
			req = framed(req)
		}
		r.recv(c, req)
		w := r.wire
		if coded && len(w) == 1 {
			w = framesOf(w[0])
		}
		if len(w) != 1 {
			vrt.Fail("a request got %d answers", len(w))
		}
		if t, x, nm, ok := parseRes(w[0]); !ok || t != 0 || x != 0 || nm != name {
			vrt.Fail("answer % x: tx %d rx %d, name of %d bytes", w[0], t, x, len(nm))
		}
		cases++
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprint(coded))
}

// statMany: the counters are exact however many messages there are.
func statMany() {
	dir := vrt.Choose(4) // bit 0 sends, bit 1 receives
	top := uint64(pick(70000, 1<<24+300))
	if dir == 0 {
		return
	}
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("sends %v, receives %v", dir&1 != 0, dir&2 != 0) })
	r := newRig(64, ustack.NewStatCounter())
	r.u.SetName("n")
	c := &fconn{name: "x"}
	var tx, rx uint64
	for i := uint64(1); i <= top; i++ {
		if i&255 == 0 {
			vrt.ResetBudget()
		}
		if dir&1 != 0 {
			r.sendBuf(c, []byte{1})
			tx++
		}
		if dir&2 != 0 {
			r.recv(c, []byte{0, 2})
			rx++
		}
		r.takeWire()
		r.takeGot()
		if i > 600 && i != top && i&(i-1) != 0 && i&(i+1) != 0 {
			continue
		}
		vrt.Count("states", 1)
		r.recv(c, []byte{reqTag})
		w := r.wire
		if len(w) != 1 {
			vrt.Fail("a request got %d answers", len(w))
		}
		t, x, _, ok := parseRes(w[0])
		if !ok || t != tx || x != rx {
			vrt.Fail("after %d sent and %d received the answer is %d and %d (% x)", tx, rx, t, x, w[0])
		}
		r.takeWire()
	}
	vrt.Count("traces", 1)
	vrt.Count("transitions", int64(top))
	vrt.Outcome(fmt.Sprint(dir))
}

// framesOf splits a framed byte stream.
func framesOf(w []byte) [][]byte {
	var l [][]byte
	for len(w) >= 4 {
		n := int(binary.BigEndian.Uint32(w))
		if n > len(w)-4 {
			vrt.Fail("cut frame on the wire: % x", w)
		}
		l = append(l, w[4:4+n])
		w = w[4+n:]
	}
	if len(w) != 0 {
		vrt.Fail("cut frame on the wire: % x", w)
	}
	return l
}

func statConc() {
	mid := vrt.Choose(2) == 1
	vrt.SetCase(func() string { return fmt.Sprintf("request in between %v", mid) })
	eps := epsFor("e", []int{1, 2})
	fcs := []*fconn{{name: "c0"}, {name: "c1"}}
	n := newNode("N", 64, ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewStatCounter())
	quiet(func() {
		n.u.AddEndPoint(eps[0]).AddEndPoint(eps[1]).AddTransport(newFtran("t", fcs...)).Run()
	})
	in := func(s int, t string) []byte { return append([]byte{0, 0, 0, 0, byte(s)}, t...) }
	send(eps[0], fcs[0], "a")
	send(eps[1], fcs[1], "b")
	fcs[0].feed(in(1, "x"))
	fcs[1].feed(in(2, "y"))
	if mid {
		fcs[0].feed([]byte{reqTag})
	}
	send(eps[0], fcs[1], "c")
	send(eps[1], fcs[0], "d")
	fcs[1].feed(in(1, "z"))
	vrt.Quiesce()
	fcs[1].feed([]byte{reqTag})
	vrt.Quiesce()
	o := ""
	nres := 0
	for i, f := range fcs {
		for _, w := range f.wrote {
			tx, rx, name, ok := parseRes(w)
			if !ok {
				continue
			}
			nres++
			if name != "N" {
				vrt.Fail("answer of %q", name)
			}
			if i == 1 && (tx != 4 || rx != 3) {
				vrt.Fail("the counters say %d sent, %d received; 4 and 3 were", tx, rx)
			}
			if i == 0 && (tx > 4 || rx < 1 || rx > 3) {
				vrt.Fail("counters on the way say %d sent, %d received", tx, rx)
			}
			o += fmt.Sprint(tx, "/", rx, " ")
		}
	}
	if nres != 1+b2i(mid) {
		vrt.Fail("%d answers to %d requests", nres, 1+b2i(mid))
	}
	if a, b := len(drain(eps[0])), len(drain(eps[1])); a != 2 || b != 1 {
		vrt.Fail("%d and %d messages delivered, want 2 and 1", a, b)
	}
	vrt.Outcome(o)
}

func statInterval() {
	kind := vrt.Choose(2)
	iv := vrt.Choose(6) - 1
	closeAt := int64(vrt.Choose(4)*4-1) * second // -1: never
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, interval %d s, first connection closed at %.0f s (-1 never)", netName(kind), iv, float64(closeAt)/1e9)
	})
	n := newNode("N", 64, ustack.NewStringCodec(), ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", iv), ustack.NewFrameDecoder())
	ep := ustack.NewEndPoint("e", 0)
	n.u.AddEndPoint(ep).AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
	vrt.Quiesce()
	p := rawDial(kind)
	vrt.Quiesce()
	var p2 *vnet.VConn
	for t := 0; t <= 26; t++ {
		if t == 3 {
			p2 = rawDial(kind)
		}
		if int64(t)*second/2 == closeAt+second/2 {
			p.Close()
		}
		vrt.Quiesce()
		vrt.Sleep(second / 2)
	}
	vrt.Sleep(second / 4)
	vrt.Quiesce()
	life := []int64{13*second + 3*second/4, 12*second + second/4}
	if closeAt >= 0 {
		life[0] = closeAt + second/2
	}
	for i, c := range []*vnet.VConn{p, p2} {
		fr := framesOf(c.Peer.Wrote)
		want := 0
		if iv > 0 {
			want = int(life[i]/(int64(iv)*second)) + 1
		}
		if len(fr) != want {
			vrt.Fail("connection %d: %d requests in %.1f s, want %d", i, len(fr), float64(life[i])/1e9, want)
		}
		for _, f := range fr {
			if len(f) != 1 || f[0] != reqTag {
				vrt.Fail("connection %d: unexpected message % x", i, f)
			}
		}
	}
	// requests sent are not counted
	p2.Write(framed([]byte{reqTag}))
	vrt.Quiesce()
	fr := framesOf(p2.Peer.Wrote)
	tx, rx, name, ok := parseRes(fr[len(fr)-1])
	if !ok || tx != 0 || rx != 0 || name != "N" {
		vrt.Fail("answer % x", fr[len(fr)-1])
	}
	if l := drain(ep); len(l) != 0 {
		vrt.Fail("delivered upward: %s", showEpds(l))
	}
	vrt.Outcome(fmt.Sprint(iv, closeAt))
}

func statStacks() {
	kind := vrt.Choose(2)
	vrt.SetCase(func() string { return netName(kind) })
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(),
			ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1, 2}), epsFor("c", []int{1, 2})
	var s, c *node2
	quiet(func() { s, c = twoStacks(kind, 64, mk, ses, ces) })
	send(ces[0], c.conns[0], "a")
	send(ces[1], c.conns[0], "b")
	send(ses[0], s.conns[0], "x")
	vrt.Sleep(second)
	send(ses[1], s.conns[0], "y")
	send(ces[0], c.conns[0], "c")
	vrt.Quiesce()
	vrt.SchedOff()
	vrt.Sleep(second)
	vrt.Quiesce()
	checkStrings(drain(ses[0]), []string{"a", "c"}, "server endpoint 1")
	checkStrings(drain(ses[1]), []string{"b"}, "server endpoint 2")
	checkStrings(drain(ces[0]), []string{"x"}, "client endpoint 1")
	checkStrings(drain(ces[1]), []string{"y"}, "client endpoint 2")
	want := [][3]any{{uint64(3), uint64(2), "client"}, {uint64(2), uint64(3), "server"}}
	for i := 0; i < 2; i++ {
		var last []byte
		nreq, nres := 0, 0
		for _, f := range framesOf(vnet.N().Conns[i].Wrote) {
			if f[0] == resTag {
				last = f
				nres++
			} else if f[0] == reqTag {
				nreq++
			}
		}
		tx, rx, name, _ := parseRes(last)
		if tx != want[i][0] || rx != want[i][1] || name != want[i][2] {
			vrt.Fail("last answer of %v: %d sent, %d received, name %q", want[i], tx, rx, name)
		}
		if nreq != 3 || nres != 3 {
			vrt.Fail("%d requests and %d answers in 2 s, want 3 each", nreq, nres)
		}
	}
	vrt.Outcome(netName(kind))
}

func sleepTo(t int64) {
	vrt.ResetBudget()
	vrt.Sleep(t - vrt.Now())
	vrt.Quiesce()
}

// statLong: intervals that no test waits for.
func statLong() {
	iv := int64([]int{5, 30, 59, 60, 61, 100, 255, 256, 600, 3600, 86400}[vrt.Choose(11)])
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("interval %d s", iv) })
	n := newNode("N", 64, ustack.NewStringCodec(), ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", int(iv)), ustack.NewFrameDecoder())
	n.u.AddTransport(newTransport(0, "s", true, netAddr(0))).Run()
	vrt.Quiesce()
	p := rawDial(0)
	vrt.Quiesce()
	t0 := vrt.Now()
	for i := int64(0); i <= 4; i++ {
		if i > 0 {
			sleepTo(t0 + i*iv*second - second/2)
			if got := len(framesOf(p.Peer.Wrote)); got != int(i) {
				vrt.Fail("%d requests half a second before %d s, want %d", got, i*iv, i)
			}
		}
		sleepTo(t0 + i*iv*second + second/2)
		if got := len(framesOf(p.Peer.Wrote)); got != int(i)+1 {
			vrt.Fail("%d requests half a second after %d s, want %d", got, i*iv, i+1)
		}
	}
	vrt.Outcome(fmt.Sprint(iv))
}

// hbLong: the same for heartbeats.
func hbLong() {
	times := []int{1, 5, 59, 61, 256, 600, 3600}
	iv := int64(times[vrt.Choose(len(times))])
	to := int64(times[vrt.Choose(len(times))])
	cl := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("interval %d s, timeout %d s, close on lost %v", iv, to, cl) })
	n := newNode("n", 0, ustack.NewStringCodec(), ustack.NewHeartbeat().SetOption("IntervalInSecond", int(iv)).SetOption("TimeoutInSecond", int(to)).SetOption("CloseOnLost", cl), ustack.NewFrameDecoder())
	var lostAt int64 = -1
	n.u.SetEventListener(func(e ustack.Event) {
		if e.Type == ustack.UStackEventHeartbeatLost {
			lostAt = vrt.Now()
		}
	})
	n.u.AddTransport(newTransport(0, "s", true, netAddr(0))).Run()
	vrt.Sleep(second / 3)
	vrt.Quiesce()
	p := rawDial(0)
	vrt.Quiesce()
	t0 := vrt.Now()
	for i := 0; i < 5; i++ {
		sleepTo(vrt.Now() + to*second - second/10)
		if len(n.lost) > 0 || n.conns[0].Closed() {
			vrt.Fail("lost while heartbeats come within the timeout")
		}
		p.Write(hbFrame())
		vrt.Quiesce()
	}
	last := vrt.Now()
	sleepTo(last + to*second - second/10)
	if len(n.lost) > 0 || n.conns[0].Closed() {
		vrt.Fail("lost %.1f s after the last heartbeat", float64(lostAt-last)/1e9)
	}
	sleepTo(last + to*second + 3*second/2)
	if len(n.lost) != 1 || n.conns[0].Closed() != cl {
		vrt.Fail("%d losses 1.5 s after the timeout, connection closed %v", len(n.lost), n.conns[0].Closed())
	}
	want := int((vrt.Now()-t0)/(iv*second)) + 1
	got := len(framesOf(p.Peer.Wrote))
	if cl {
		want = int((lostAt-t0)/(iv*second)) + 1
	}
	if got < want-1 || got > want {
		vrt.Fail("%d heartbeats sent in %.1f s, want %d", got, float64(vrt.Now()-t0)/1e9, want)
	}
	end := vrt.Now() + 7200*second + 2*to*second
	for vrt.Now() < end {
		sleepTo(vrt.Now() + 100*second)
	}
	if len(n.lost) != 1 || n.conns[0].Closed() != cl {
		vrt.Fail("%d losses in the end, connection closed %v", len(n.lost), n.conns[0].Closed())
	}
	vrt.Outcome(fmt.Sprint(iv, to, cl))
}
