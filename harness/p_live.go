package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

func init() {
	scenario(&Scenario{Name: "order/two-endpoints", Props: []string{"C13"}, Bound: [2]int{2, 3}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: orderTwo,
		What: "framed stacks over TCP/Unix, with each of the five codecs, two client endpoints and one server endpoint send on one connection at the same time; all schedules within the bound"})
	scenario(&Scenario{Name: "order/with-control-traffic", Props: []string{"C13"}, Bound: [2]int{2, 3}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: orderControl,
		What: "the same with heartbeat and statistics collection in both stacks, over 1 s of virtual time; all schedules within the bound"})
	scenario(&Scenario{Name: "order/slow-receiver", Props: []string{"C13"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: orderSlow,
		What: "receiving endpoint with channel capacity 0, 1 or 2 that is read late or by a concurrent reader, writes stalled or not; all schedules within the bound"})
	scenario(&Scenario{Name: "order/short-reads", Props: []string{"C13"}, Bound: [2]int{3, 4}, Shards: [2]int{4, 8}, Body: orderSeg,
		What: "two endpoints send while any read may be cut short by the environment: all combinations of at most 2 (3) preemptions or short reads"})
	scenario(&Scenario{Name: "order/big-messages", Props: []string{"C13"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: orderBig,
		What: "two endpoints and the heartbeat send on one connection, messages of 300..70000 bytes that fill the MTU; all schedules within the bound"})
	scenario(&Scenario{Name: "order/odd-messages", Props: []string{"C13"}, Bound: [2]int{1, 2}, Shards: [2]int{4, 8}, Body: orderOdd,
		What: "messages that are not sent (no data, another type, no connection, too long, empty) between others, at every position, and equal messages in a row: the others all arrive; all schedules within the bound"})
	scenario(&Scenario{Name: "order/many-messages", Props: []string{"C13"}, Body: orderMany,
		What: "1300 messages against the default channel capacity of 512, receiver reading late, three burst patterns"})
	scenario(&Scenario{Name: "events/one-cause", Props: []string{"C14"}, Bound: [2]int{2, 3}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: closeOne,
		What: "one connection of a TCP/Unix server, ended by each of 7 causes while data arrives; all schedules within the bound; two listeners and two endpoints observe"})
	scenario(&Scenario{Name: "events/two-causes", Props: []string{"C14"}, Bound: [2]int{2, 3}, Cap: [2]int{300000, 0}, Shards: [2]int{8, 8}, Body: closeTwo,
		What: "every pair of causes at the same time, all schedules within the bound"})
	scenario(&Scenario{Name: "events/client-side", Props: []string{"C14"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: closeClient,
		What: "the client's connection ended by the server, by itself, by a failed write, by deletion of the transport; all schedules within the bound"})
	scenario(&Scenario{Name: "events/scripted-connection", Props: []string{"C14"}, Bound: [2]int{2, 3}, Shards: [2]int{8, 8}, Body: closeScripted,
		What: "a scripted transport yields one connection whose reads, writes (two senders) and closing fail in every combination; all schedules within the bound"})
	scenario(&Scenario{Name: "events/reference", Props: []string{"C14"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: closeRef,
		What: "the connection of a reference transport, ended by closing it, by deleting the transport or by both, while references arrive or are sent, with and without processors; all schedules within the bound"})
	scenario(&Scenario{Name: "events/many-connections", Props: []string{"C14"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: closeMany,
		What: "three connections, opened and closed in every order and by different causes"})
	scenario(&Scenario{Name: "endpoints/histories", Props: []string{"C15"}, Shards: [2]int{8, 8}, Body: epHistories,
		What: "every history of 5 (thorough 6) operations out of {add/delete A, add/delete B, A sends, B sends, peer sends to A, to B}, each followed by quiescence, against a reference model of both receive channels and the wire"})
	scenario(&Scenario{Name: "endpoints/delete-while-sending", Props: []string{"C15"}, Bound: [2]int{3, 4}, Cap: [2]int{1600000, 0}, Shards: [2]int{8, 8}, Body: epConcTx,
		What: "A is deleted, re-added (once or twice) while it and B send; all schedules within the bound"})
	scenario(&Scenario{Name: "endpoints/blocked-sender", Props: []string{"C15"}, Bound: [2]int{3, 4}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: epBlocked,
		What: "A is deleted and re-added up to three times while its first message is held up below, some of the changes before and some while the message goes on; all schedules within the bound"})
	scenario(&Scenario{Name: "endpoints/delete-while-receiving", Props: []string{"C15"}, Bound: [2]int{3, 4}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: epConcRx,
		What: "A is deleted / re-added while the peer sends to A and B, A's channel possibly full; all schedules within the bound"})
	scenario(&Scenario{Name: "endpoints/concurrent-changes", Props: []string{"C15"}, Bound: [2]int{2, 3}, Shards: [2]int{4, 8}, Body: epConcChange,
		What: "two goroutines add and delete different endpoints of a running stack, then full service is checked; all schedules within the bound"})
	scenario(&Scenario{Name: "attribution/histories", Props: []string{"C25"}, Shards: [2]int{8, 8}, Body: attrHist,
		What: "4 connections over two TCP and one Unix transport of one stack; every history of 4 (thorough 5) operations out of {send on i, receive on i, close i, send on none}"})
	scenario(&Scenario{Name: "attribution/concurrent", Props: []string{"C25"}, Bound: [2]int{2, 3}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: attrConc,
		What: "three connections receive while two endpoints send on them and one is closed; all schedules within the bound"})
	scenario(&Scenario{Name: "attribution/no-connection", Props: []string{"C25"}, Shards: [2]int{2, 4}, Body: attrNil,
		What: "every stack of at most 2 processors under every codec: messages with no connection, a closed connection and a typed-nil-free mix, between good ones"})
}

func stringFrame() []ustack.DataProcessor {
	return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
}

// ---- C13 -------------------------------------------------------------------

func orderTwo() {
	kind := vrt.Choose(2)
	cs := codecs()
	c0 := cs[vrt.Choose(len(cs))]
	vrt.SetCase(func() string { return netName(kind) + ", " + c0.name + " codec" })
	mtu := 32
	if c0.name == "json" || c0.name == "gob" {
		mtu = 256
	}
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{c0.mk(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1, 2}), epsFor("c", []int{1, 2})
	var s, c *node2
	quiet(func() { s, c = twoStacks(kind, mtu, mk, ses, ces) })
	m := c0.msgs
	send(ces[0], c.conns[0], m[0])
	send(ces[1], c.conns[0], m[1])
	send(ses[0], s.conns[0], m[4])
	send(ces[0], c.conns[0], m[2])
	send(ces[1], c.conns[0], m[3])
	vrt.Quiesce()
	same := func(ep ustack.EndPoint, want []any, what string) {
		g := drain(ep)
		ok := len(g) == len(want)
		for i := range g {
			ok = ok && c0.same(g[i].GetData(), want[i])
		}
		if !ok {
			vrt.Fail("%s: %s delivered, %d messages sent", what, showEpds(g), len(want))
		}
	}
	same(ses[0], []any{m[0], m[2]}, "server endpoint 1")
	same(ses[1], []any{m[1], m[3]}, "server endpoint 2")
	same(ces[0], []any{m[4]}, "client endpoint 1")
	same(ces[1], nil, "client endpoint 2")
	vrt.Outcome(fmt.Sprintf("%s %s wire %x", c0.name, netName(kind), vnet.N().Conns[0].Wrote))
}

func orderControl() {
	kind := vrt.Choose(2)
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewHeartbeat(),
			ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1), ustack.NewFrameDecoder()}
	}
	vrt.SetCase(func() string { return netName(kind) })
	ses, ces := epsFor("s", []int{1, 2}), epsFor("c", []int{1, 2})
	var s, c *node2
	quiet(func() { s, c = twoStacks(kind, 64, mk, ses, ces) })
	// the second round of control messages goes out together with the data
	vrt.GoNamed("app", func() {
		vrt.Sleep(second)
		send(ces[0], c.conns[0], "a1")
		send(ses[1], s.conns[0], "x1")
		send(ces[1], c.conns[0], "b1")
		send(ces[0], c.conns[0], "a2")
	})
	vrt.Sleep(second + 1)
	vrt.Quiesce()
	checkStrings(drain(ses[0]), []string{"a1", "a2"}, "server endpoint 1")
	checkStrings(drain(ses[1]), []string{"b1"}, "server endpoint 2")
	checkStrings(drain(ces[0]), nil, "client endpoint 1")
	checkStrings(drain(ces[1]), []string{"x1"}, "client endpoint 2")
	vrt.Outcome(fmt.Sprintf("%d bytes", len(vnet.N().Conns[0].Wrote)))
}

func orderSlow() {
	kind := vrt.Choose(2)
	capa := vrt.Choose(3)
	reader := vrt.Choose(2) == 1
	stall := vrt.Choose(2) == 1
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, receive channel capacity %d, concurrent reader %v, stalled writes %v", netName(kind), capa, reader, stall)
	})
	se := newSep("s", 1, capa)
	o := ustack.NewEndPoint("o", 2)
	ces := epsFor("c", []int{1, 2})
	var c *node2
	quiet(func() { _, c = twoStacks(kind, 24, stringFrame, []ustack.EndPoint{se, o}, ces) })
	if stall {
		vnet.N().BlockWrites = true
	}
	want := []string{"m1", "m2", "m3", "m4"}
	for i, m := range want {
		send(ces[0], c.conns[0], m)
		if i == 1 {
			send(ces[1], c.conns[0], "o1")
		}
	}
	var got []ustack.EndPointData
	if reader {
		vrt.GoNamed("reader", func() {
			for range want {
				d := vrt.Recv(se.rx)
				vrt.Touch("reader")
				got = append(got, d)
			}
		})
	}
	if stall {
		vrt.GoNamed("net", func() { vrt.Yield(); vrt.Touch("stall"); vnet.N().BlockWrites = false })
	}
	vrt.Quiesce()
	if !reader {
		for range want {
			d, ok := vrt.TryRecv(se.rx)
			if !ok {
				break
			}
			got = append(got, d)
			vrt.Quiesce()
		}
	}
	if extra := drain(se); len(extra) > 0 {
		got = append(got, extra...)
	}
	checkStrings(got, want, "slow endpoint")
	checkStrings(drain(o), []string{"o1"}, "other endpoint")
	vrt.Outcome(fmt.Sprint(capa, reader, stall))
}

func orderSeg() {
	kind := vrt.Choose(2)
	ses, ces := epsFor("s", []int{1, 2}), epsFor("c", []int{1, 2})
	var s, c *node2
	quiet(func() { s, c = twoStacks(kind, 18, stringFrame, ses, ces) })
	netSeg(true)
	send(ces[0], c.conns[0], "a1")
	send(ces[1], c.conns[0], "bbbbbbbbbb")
	send(ses[0], s.conns[0], "x1")
	send(ces[0], c.conns[0], "a2")
	vrt.Quiesce()
	checkStrings(drain(ses[0]), []string{"a1", "a2"}, "server endpoint 1")
	checkStrings(drain(ses[1]), []string{"bbbbbbbbbb"}, "server endpoint 2")
	checkStrings(drain(ces[0]), []string{"x1"}, "client endpoint 1")
	vrt.Outcome(fmt.Sprint(vnet.N().Conns[1].Reads))
}

func orderBig() {
	kind := vrt.Choose(2)
	size := []int{300, 600, 1100, 1500, 2035, 4200, 8300, 33000, 66000}[vrt.Choose(9)]
	vrt.SetCase(func() string { return fmt.Sprintf("%s, messages of %d bytes", netName(kind), size) })
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewHeartbeat(), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1, 2}), epsFor("c", []int{1, 2})
	var s, c *node2
	quiet(func() { s, c = twoStacks(kind, size+9, mk, ses, ces) })
	big := func(b string) string { return strings.Repeat(b, size) }
	vrt.GoNamed("app", func() {
		vrt.Sleep(second)
		send(ces[0], c.conns[0], big("a"))
		send(ces[1], c.conns[0], big("b"))
		send(ces[0], c.conns[0], "c")
		send(ses[0], s.conns[0], big("d"))
	})
	vrt.Sleep(second + 1)
	vrt.Quiesce()
	checkStrings(drain(ses[0]), []string{big("a"), "c"}, "server endpoint 1")
	checkStrings(drain(ses[1]), []string{big("b")}, "server endpoint 2")
	checkStrings(drain(ces[0]), []string{big("d")}, "client endpoint 1")
	vrt.Outcome(fmt.Sprint(size))
}

func orderOdd() {
	kind := vrt.Choose(2)
	odd := vrt.Choose(6)
	odds := []string{"no data", "another type", "no connection", "too long", "nothing set", "none"}
	at := vrt.Choose(4)
	other := vrt.Choose(2) == 1
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, message with %s before message %d, by the other endpoint %v", netName(kind), odds[odd], at, other)
	})
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1, 2}), epsFor("c", []int{1, 2})
	var c *node2
	quiet(func() { _, c = twoStacks(kind, 32, mk, ses, ces) })
	bad := func() {
		ep := ces[0]
		if other {
			ep = ces[1]
		}
		d := ustack.NewEndPointData()
		switch odd {
		case 0:
			d.SetConnection(c.conns[0])
		case 1:
			d.SetConnection(c.conns[0]).SetData(42)
		case 2:
			d.SetData("nowhere")
		case 3:
			d.SetConnection(c.conns[0]).SetData(strings.Repeat("x", 33))
		case 5:
			return
		}
		vrt.Send(ep.GetTxChannel(), d)
	}
	msgs := []string{"a", "b", "b", "b"}
	for i, m := range msgs {
		if i == at {
			bad()
		}
		send(ces[0], c.conns[0], m)
		send(ces[1], c.conns[0], m)
	}
	vrt.Quiesce()
	checkStrings(drain(ses[0]), msgs, "server endpoint 1")
	checkStrings(drain(ses[1]), msgs, "server endpoint 2")
	vrt.Outcome(fmt.Sprint(odds[odd], at))
}

func orderMany() {
	kind := vrt.Choose(2)
	burst := []int{1300, 512, 700}[vrt.Choose(3)]
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("%s, bursts of %d", netName(kind), burst) })
	se, ce := ustack.NewEndPoint("s", 1), ustack.NewEndPoint("c", 1)
	_, c := twoStacks(kind, 64, stringFrame, []ustack.EndPoint{se}, []ustack.EndPoint{ce})
	const total = 1300
	var want []string
	for i := 0; i < total; i++ {
		want = append(want, fmt.Sprint("m", i))
	}
	done := false
	vrt.GoNamed("sender", func() {
		for i, m := range want {
			send(ce, c.conns[0], m)
			if (i+1)%burst == 0 {
				vrt.Sleep(second)
			}
		}
		done = true
	})
	var got []ustack.EndPointData
	for i := 0; i < 8; i++ {
		vrt.ResetBudget()
		vrt.Sleep(second)
		vrt.Quiesce()
		got = append(got, drain(se)...)
	}
	if !done {
		vrt.Fail("the sender is stuck")
	}
	checkStrings(got, want, "receiver")
	vrt.Count("traces", total)
	vrt.Outcome(fmt.Sprint(kind, burst))
}

// ---- C14 -------------------------------------------------------------------

// watch records what one observer sees of the connections.
type watch struct {
	who string
	log map[ustack.TransportConnection][]string
}

func newWatch(who string) *watch {
	return &watch{who, map[ustack.TransportConnection][]string{}}
}

func (w *watch) event(e ustack.Event) {
	c, ok := e.Data.(ustack.TransportConnection)
	if !ok {
		return
	}
	vrt.Touch("watch")
	t := eventName(e.Type)
	if e.Type == ustack.UStackEventConnectionClosed && !c.Closed() {
		t = "closed-but-open"
	}
	w.log[c] = append(w.log[c], t)
}

func (w *watch) check(c ustack.TransportConnection, ended bool) {
	var nNew, nClosed int
	for i, t := range w.log[c] {
		switch t {
		case "new":
			nNew++
			if i != 0 {
				vrt.Fail("%s saw %v of a connection: the new-connection event is not first", w.who, w.log[c])
			}
		case "closed":
			nClosed++
		case "closed-but-open":
			vrt.Fail("%s saw the closed event of a connection that does not report itself closed", w.who)
		}
	}
	if nNew != 1 {
		vrt.Fail("%s saw %d new-connection events of one connection: %v", w.who, nNew, w.log[c])
	}
	want := 0
	if ended {
		want = 1
	}
	if nClosed != want {
		vrt.Fail("%s saw %d closed events of a connection, want %d: %v", w.who, nClosed, want, w.log[c])
	}
}

// watched adds two stack listeners and an event listener on every endpoint.
func watched(n *node2, eps ...ustack.EndPoint) []*watch {
	var l []*watch
	for i := 0; i < 2; i++ {
		w := newWatch(fmt.Sprint("listener ", i))
		n.u.SetEventListener(w.event)
		l = append(l, w)
	}
	for _, e := range eps {
		w := newWatch("endpoint " + e.GetName())
		e.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) { w.event(ev) })
		l = append(l, w)
	}
	return l
}

// follow reads an endpoint's messages and records them between its events.
func follow(ep ustack.EndPoint, w *watch) *int {
	n := new(int)
	vrt.GoNamed("follow "+ep.GetName(), func() {
		for {
			d := vrt.Recv(ep.GetRxChannel())
			vrt.Touch("watch")
			w.log[d.GetConnection()] = append(w.log[d.GetConnection()], "data")
			*n++
		}
	})
	return n
}

var causeNames = []string{"peer closes", "read fails", "write fails", "heartbeat loss", "transport deleted", "application closes", "connection resets"}

type liveServer struct {
	n       *node2
	eps     []ustack.EndPoint
	ws      []*watch
	peers   []*vnet.VConn
	kind    int
	wantLen int
}

func newLiveServer(kind int, hb bool) *liveServer {
	l := &liveServer{kind: kind}
	procs := []ustack.DataProcessor{ustack.NewStringCodec()}
	if hb {
		procs = append(procs, ustack.NewHeartbeat().SetOption("TimeoutInSecond", 1))
	}
	procs = append(procs, ustack.NewFrameDecoder())
	l.n = newNode("server", 64, procs...)
	l.eps = []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 9)}
	l.ws = watched(l.n, l.eps...)
	for _, e := range l.eps {
		l.n.u.AddEndPoint(e)
	}
	l.n.tr = newTransport(kind, "s", true, netAddr(kind))
	l.n.u.AddTransport(l.n.tr).Run()
	return l
}

// cause makes the connection end (the peer end is p).
func (l *liveServer) cause(k int, conn ustack.TransportConnection, p *vnet.VConn) {
	switch k {
	case 0:
		p.Close()
	case 1:
		vrt.Touch("fail")
		p.Peer.FailRead = true
	case 2:
		vrt.Touch("fail")
		p.Peer.FailWriteAfter = 0
		send(l.eps[0], conn, "out")
		send(l.eps[1], conn, "out2")
	case 3:
		// the raw peer never sends heartbeats: nothing to do but wait
		vrt.Sleep(3 * second)
	case 4:
		l.n.u.DeleteTransport(l.n.tr)
	case 5:
		conn.Close()
	case 6:
		p.Break()
	}
}

func (l *liveServer) verify(ended bool) {
	for _, c := range l.n.conns {
		for _, w := range l.ws {
			w.check(c, ended)
		}
		if ended && !c.Closed() {
			vrt.Fail("an ended connection does not report itself closed")
		}
	}
}

func frameOf(hb bool, s string) []byte {
	if hb {
		return framed(append([]byte{0}, s...))
	}
	return framed([]byte(s))
}

func closeOne() {
	kind := vrt.Choose(2)
	k := vrt.Choose(len(causeNames))
	early := vrt.Choose(2) == 1 // the cause races with the announcement
	hb := k == 3
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s, early %v", netName(kind), causeNames[k], early) })
	if early && (k == 2 || k == 5) {
		return // these need the announced connection
	}
	var l *liveServer
	quiet(func() { l = newLiveServer(kind, hb) })
	n := follow(l.eps[0], l.ws[2])
	p := rawDial(kind)
	p.Write(frameOf(hb, "d1"))
	if !early {
		vrt.Quiesce()
	}
	p.Write(frameOf(hb, "d2"))
	var conn ustack.TransportConnection
	if len(l.n.conns) > 0 {
		conn = l.n.conns[0]
	}
	l.cause(k, conn, p)
	vrt.Quiesce()
	if k == 4 && early && !p.Peer.Accepted() {
		vrt.Outcome("never accepted")
		return
	}
	if len(l.n.conns) > 1 || (len(l.n.conns) == 0 && k != 4) {
		vrt.Fail("%d connections announced, 1 made", len(l.n.conns))
	}
	if k == 0 && *n != 2 {
		vrt.Fail("%d of the 2 messages sent before the peer closed were delivered", *n)
	}
	l.verify(true)
	vrt.SchedOff()
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	l.verify(true)
	vrt.Outcome(fmt.Sprintf("%s %v %v %d", causeNames[k], early, len(l.n.conns), *n))
}

func closeTwo() {
	kind := vrt.Choose(2)
	a := vrt.Choose(len(causeNames))
	b := vrt.Choose(len(causeNames))
	if a >= b {
		return
	}
	hb := a == 3 || b == 3
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s and %s", netName(kind), causeNames[a], causeNames[b]) })
	var l *liveServer
	var p *vnet.VConn
	quiet(func() {
		l = newLiveServer(kind, hb)
		vrt.Quiesce()
		p = rawDial(kind)
	})
	if len(l.n.conns) != 1 {
		vrt.Fail("%d connections announced, 1 made", len(l.n.conns))
	}
	follow(l.eps[0], l.ws[2])
	if hb {
		// the other cause strikes together with the heartbeat loss
		quiet(func() { vrt.Sleep(second - 1) })
	}
	p.Write(frameOf(hb, "d1"))
	for _, k := range []int{a, b} {
		k := k
		vrt.GoNamed(causeNames[k], func() {
			if hb && k != 3 {
				vrt.Sleep(1)
			}
			l.cause(k, l.n.conns[0], p)
		})
	}
	vrt.Quiesce()
	vrt.Sleep(4 * second)
	vrt.Quiesce()
	l.verify(true)
	vrt.Outcome(causeNames[a] + "+" + causeNames[b])
}

func closeClient() {
	kind := vrt.Choose(2)
	k := vrt.Choose(5)
	names := []string{"server closes", "application closes", "write fails", "transport deleted", "reset"}
	vrt.SetCase(func() string { return fmt.Sprintf("%s client, %s", netName(kind), names[k]) })
	ep := ustack.NewEndPoint("a", 0)
	cl := newNode("client", 64, ustack.NewStringCodec(), ustack.NewFrameDecoder())
	ws := watched(cl, ep)
	lis, err := vnet.Listen(netName(kind), netAddr(kind))
	if err != nil {
		vrt.Fail("%v", err)
	}
	cl.u.AddEndPoint(ep)
	cl.tr = newTransport(kind, "c", false, netAddr(kind))
	n := follow(ep, ws[2])
	cl.u.AddTransport(cl.tr).Run()
	nc, _ := lis.Accept()
	p := nc.(*vnet.VConn)
	p.Write(framed([]byte("d1")))
	if k != 0 && k != 4 {
		vrt.Block("announced", func() bool { return len(cl.conns) > 0 })
	}
	switch k {
	case 0:
		p.Close()
	case 1:
		cl.conns[0].Close()
	case 2:
		p.Peer.FailWriteAfter = 0
		send(ep, cl.conns[0], "x")
		send(ep, cl.conns[0], "y")
	case 3:
		cl.u.DeleteTransport(cl.tr)
	case 4:
		p.Break()
	}
	vrt.Quiesce()
	if len(cl.conns) != 1 {
		vrt.Fail("%d connections announced, 1 made", len(cl.conns))
	}
	for _, w := range ws {
		w.check(cl.conns[0], true)
	}
	vrt.Outcome(fmt.Sprintf("%s %d", names[k], *n))
}

func closeScripted() {
	k := vrt.Choose(7) // bits: reads end, writes fail (two senders), someone closes
	two := vrt.Choose(2) == 1
	vrt.SetCase(func() string { return fmt.Sprintf("causes %03b, second connection %v", k+1, two) })
	k++
	c := &fconn{name: "c", chunks: [][]byte{framed([]byte("d1"))}}
	tr := newFtran("t", c)
	n := newNode("n", 64, ustack.NewStringCodec(), ustack.NewFrameDecoder())
	eps := []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 9)}
	ws := watched(n, eps...)
	n.u.AddEndPoint(eps[0]).AddEndPoint(eps[1]).AddTransport(tr)
	follow(eps[0], ws[2])
	var d *fconn
	if two {
		d = &fconn{name: "d"}
		tr.offer(d)
	}
	if k&1 != 0 {
		c.eof = true
	}
	if k&2 != 0 {
		c.failW = true
	}
	n.u.Run()
	if k&2 != 0 {
		vrt.GoNamed("senders", func() { send(eps[0], c, "x"); send(eps[1], c, "y") })
	}
	if k&4 != 0 {
		vrt.GoNamed("closer", func() { c.Close() })
	}
	vrt.Quiesce()
	if len(n.conns) != pickN(two) {
		vrt.Fail("%d connections announced, %d made", len(n.conns), pickN(two))
	}
	for _, w := range ws {
		w.check(c, true)
		if two {
			w.check(d, false)
		}
	}
	vrt.Outcome(fmt.Sprint(k, two))
}

func pickN(two bool) int {
	if two {
		return 2
	}
	return 1
}

func closeRef() {
	k := 1 + vrt.Choose(3) // bits: the application closes, the transport is deleted
	data := vrt.Choose(4)  // bits: references arrive, references are sent
	procs := vrt.Choose(2) == 1
	server := vrt.Choose(2) == 1
	vrt.SetCase(func() string {
		return fmt.Sprintf("ended by %02b, references in/out %02b, processors %v, server %v", k, data, procs, server)
	})
	var l []ustack.DataProcessor
	if procs {
		l = []ustack.DataProcessor{ustack.NewHeartbeat(), ustack.NewStatCounter(), ustack.NewFrameDecoder()}
	}
	n := newNode("n", 64, l...)
	peer := ustack.NewReferenceTransport("p").ForServer(!server).SetAddress("r")
	var pc ustack.TransportConnection
	eps := []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 9)}
	ws := watched(n, eps...)
	n.tr = ustack.NewReferenceTransport("t").ForServer(server).SetAddress("r")
	quiet(func() {
		peer.Run()
		pc = peer.NextConnection()
		n.u.AddEndPoint(eps[0]).AddEndPoint(eps[1]).AddTransport(n.tr).Run()
		vrt.Quiesce()
	})
	if len(n.conns) != 1 {
		vrt.Fail("%d connections announced, 1 made", len(n.conns))
	}
	c := n.conns[0]
	for _, w := range ws {
		w.check(c, false)
	}
	follow(eps[0], ws[2])
	if data&1 != 0 {
		vrt.GoNamed("peer", func() { pc.SetReference(&obj{n: 1}); pc.SetReference(&obj{n: 2}) })
	}
	if data&2 != 0 {
		send(eps[0], c, &obj{n: 3})
		send(eps[1], c, &obj{n: 4})
	}
	if k&1 != 0 {
		vrt.GoNamed("closer", func() { c.Close() })
	}
	if k&2 != 0 {
		n.u.DeleteTransport(n.tr)
	}
	vrt.Quiesce()
	vrt.SchedOff()
	vrt.Sleep(2 * second)
	vrt.Quiesce()
	if !c.Closed() {
		vrt.Fail("an ended connection does not report itself closed")
	}
	if len(n.conns) != 1 {
		vrt.Fail("%d connections announced, 1 made", len(n.conns))
	}
	for _, w := range ws {
		w.check(c, true)
	}
	peer.Stop()
	n.u.DeleteTransport(n.tr)
	vrt.Quiesce()
	vrt.Outcome(fmt.Sprint(k, data, procs, server))
}

func closeMany() {
	kind := vrt.Choose(2)
	perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vrt.Choose(6)]
	ks := [][]int{{0, 1, 6}, {5, 0, 2}, {6, 6, 0}}[vrt.Choose(3)]
	vrt.SetCase(func() string { return fmt.Sprintf("%s, close order %v, causes %v", netName(kind), perm, ks) })
	var l *liveServer
	quiet(func() { l = newLiveServer(kind, false) })
	var ps []*vnet.VConn
	for i := 0; i < 3; i++ {
		ps = append(ps, rawDial(kind))
		vrt.Quiesce()
	}
	if len(l.n.conns) != 3 {
		vrt.Fail("%d connections announced, 3 made", len(l.n.conns))
	}
	conns := append([]ustack.TransportConnection{}, l.n.conns...)
	for n, i := range perm {
		l.cause(ks[n], conns[i], ps[i])
		if n == 1 {
			vrt.Quiesce()
			for _, w := range l.ws {
				w.check(conns[perm[0]], true)
				w.check(conns[perm[1]], true)
				w.check(conns[perm[2]], false)
			}
		}
	}
	vrt.Quiesce()
	l.verify(true)
	// a new one after all
	vrt.SchedOff()
	rawDial(kind)
	vrt.Quiesce()
	if len(l.n.conns) != 4 {
		vrt.Fail("%d connections announced, 4 made", len(l.n.conns))
	}
	for _, w := range l.ws {
		w.check(l.n.conns[3], false)
	}
	vrt.Outcome(fmt.Sprint(perm, ks))
}

// ---- C15 -------------------------------------------------------------------

// epServer is a stack with a raw session+frame peer.
type epServer struct {
	n    *node2
	p    *vnet.VConn
	conn ustack.TransportConnection
	seen int
}

func newEpServer(kind int, before ...ustack.EndPoint) *epServer {
	n := newNode("server", 64, stringFrame()...)
	for _, e := range before {
		n.u.AddEndPoint(e)
	}
	n.u.AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
	vrt.Quiesce()
	p := rawDial(kind)
	vrt.Quiesce()
	if len(n.conns) != 1 {
		vrt.Fail("%d connections announced, 1 made", len(n.conns))
	}
	return &epServer{n: n, p: p, conn: n.conns[0]}
}

// wire parses what the stack has sent since the last call: session:text.
func (s *epServer) wire() []string {
	b := s.p.Pending()
	var l []string
	for len(b) >= 8 {
		n := int(b[3]) | int(b[2])<<8
		if len(b) < 4+n || n < 4 {
			break
		}
		l = append(l, fmt.Sprintf("%d:%s", int(b[7]), b[8:4+n]))
		b = b[4+n:]
	}
	if len(b) != 0 {
		vrt.Fail("malformed bytes on the wire: % x", b)
	}
	r := l[s.seen:]
	s.seen = len(l)
	return r
}

func sessFrame(session int, t string) []byte {
	return framed(append([]byte{0, 0, 0, byte(session)}, t...))
}

func epHistories() {
	ops := []string{"addA", "delA", "addB", "delB", "sendA", "sendB", "rxA", "rxB"}
	o1, o2, o3 := vrt.Choose(8), vrt.Choose(8), vrt.Choose(8)
	preA := vrt.Choose(2) == 1
	vrt.SchedOff()
	depth := pick(5, 6)
	var cases int64
	h := make([]int, depth)
	h[0], h[1], h[2] = o1, o2, o3
	run := func() {
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			t := ""
			for _, o := range h {
				t += ops[o] + " "
			}
			return fmt.Sprintf("A added before start %v, history %s", preA, t)
		})
		eps := []ustack.EndPoint{ustack.NewEndPoint("E", 1), ustack.NewEndPoint("E", 2)}
		on := []bool{preA, true}
		fc := &fconn{name: "peer"}
		n := newNode("server", 64, stringFrame()...)
		if preA {
			n.u.AddEndPoint(eps[0])
		}
		n.u.AddEndPoint(eps[1]).AddTransport(newFtran("t", fc)).Run()
		vrt.Quiesce()
		queued := [2][]string{}
		var wire []string
		rx := [2][]string{}
		num := 0
		wireNow := func() []string {
			var l []string
			for _, w := range fc.wrote {
				if len(w) < 8 {
					vrt.Fail("malformed bytes on the wire: % x", w)
				}
				l = append(l, fmt.Sprintf("%d:%s", w[7], w[8:]))
			}
			return l
		}
		for _, o := range h {
			e := o & 1
			num++
			t := fmt.Sprint("m", num)
			switch ops[o] {
			case "addA", "addB", "delA", "delB":
				e = 0
				if strings.HasSuffix(ops[o], "B") {
					e = 1
				}
				if ops[o][:3] == "add" {
					n.u.AddEndPoint(eps[e])
					if !on[e] {
						on[e] = true
						wire = append(wire, queued[e]...)
						queued[e] = nil
					}
				} else {
					n.u.DeleteEndPoint(eps[e])
					on[e] = false
				}
			case "sendA", "sendB":
				send(eps[e], fc, t)
				m := fmt.Sprintf("%d:%s", e+1, t)
				if on[e] {
					wire = append(wire, m)
				} else {
					queued[e] = append(queued[e], m)
				}
			default:
				fc.feed(sessFrame(e+1, t))
				if on[e] {
					rx[e] = append(rx[e], t)
				}
			}
			vrt.Quiesce()
			if w := wireNow(); !reflect.DeepEqual(w, wire) && len(w)+len(wire) > 0 {
				vrt.Fail("after %s the wire has %v, want %v", ops[o], w, wire)
			}
			if len(eps[e].GetRxChannel()) > 4 {
				break
			}
		}
		for i, e := range eps {
			checkStrings(drain(e), rx[i], "endpoint "+e.GetName())
		}
		// end this stack's goroutines
		fc.closed = true
		n.u.DeleteEndPoint(eps[0]).DeleteEndPoint(eps[1])
		for _, t := range n.u.GetTransport() {
			n.u.DeleteTransport(t)
		}
		vrt.Quiesce()
		cases++
	}
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			run()
			return
		}
		for o := range ops {
			h[i] = o
			rec(i + 1)
		}
	}
	rec(3)
	vrt.Count("traces", cases)
	vrt.Count("states", cases*int64(depth))
	vrt.Count("transitions", cases*int64(depth))
	vrt.Outcome(fmt.Sprint(preA, o1, o2))
}

// inOrder checks that got is a subsequence of want in order without repeats.
func inOrder(got, want []string, what string) {
	j := 0
	for _, g := range got {
		for j < len(want) && want[j] != g {
			j++
		}
		if j == len(want) {
			vrt.Fail("%s: %v is not %v with omissions (a message was duplicated, reordered or altered)", what, got, want)
		}
		j++
	}
}

func onlyPrefix(l []string, p string) []string {
	var r []string
	for _, x := range l {
		if strings.HasPrefix(x, p) {
			r = append(r, x)
		}
	}
	return r
}

func epConcTx() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(3) // 0 delete, 1 delete+add, 2 twice
	A, B := ustack.NewEndPoint("A", 1), ustack.NewEndPoint("B", 2)
	vrt.SetCase(func() string { return fmt.Sprintf("%s, mode %d", netName(kind), mode) })
	var s *epServer
	quiet(func() { s = newEpServer(kind, A, B) })
	vrt.GoNamed("appA", func() {
		for i := 1; i <= 3; i++ {
			send(A, s.conn, fmt.Sprint("a", i))
		}
	})
	vrt.GoNamed("appB", func() {
		send(B, s.conn, "b1")
		send(B, s.conn, "b2")
	})
	s.n.u.DeleteEndPoint(A)
	if mode >= 1 {
		s.n.u.AddEndPoint(A)
	}
	if mode >= 2 {
		s.n.u.DeleteEndPoint(A)
		s.n.u.AddEndPoint(A)
	}
	vrt.Quiesce()
	w := s.wire()
	inOrder(onlyPrefix(w, "1:"), []string{"1:a1", "1:a2", "1:a3"}, "messages of A on the wire")
	if g := onlyPrefix(w, "2:"); !reflect.DeepEqual(g, []string{"2:b1", "2:b2"}) {
		vrt.Fail("messages of B on the wire: %v", g)
	}
	vrt.SchedOff()
	if mode == 0 {
		before := vrt.PeekLen(A.GetTxChannel())
		send(A, s.conn, "dead")
		vrt.Quiesce()
		if g := s.wire(); len(g) != 0 {
			vrt.Fail("a deleted endpoint's message was transmitted: %v", g)
		}
		if n := vrt.PeekLen(A.GetTxChannel()); n != before+1 {
			vrt.Fail("a deleted endpoint's send channel was read")
		}
		s.n.u.AddEndPoint(A)
		vrt.Quiesce()
	} else if len(onlyPrefix(w, "1:"))+vrt.PeekLen(A.GetTxChannel()) < 2 {
		// only a message in flight at a deletion may be lost
		vrt.Fail("messages of A on the wire after re-adding: %v", w)
	}
	s.wire()
	for i := 0; i < 3; i++ {
		send(A, s.conn, fmt.Sprint("n", i))
	}
	vrt.Quiesce()
	if g := s.wire(); !reflect.DeepEqual(g, []string{"1:n0", "1:n1", "1:n2"}) {
		vrt.Fail("messages of the re-added endpoint on the wire: %v", g)
	}
	s.p.Write(sessFrame(1, "back"))
	vrt.Quiesce()
	checkStrings(drain(A), []string{"back"}, "re-added endpoint")
	vrt.Outcome(fmt.Sprint(w))
}

func epConcRx() {
	kind := vrt.Choose(2)
	capa := vrt.Choose(3)
	mode := vrt.Choose(2) // 0 delete, 1 delete and add again
	A, B := newSep("A", 1, capa), ustack.NewEndPoint("B", 2)
	vrt.SetCase(func() string { return fmt.Sprintf("%s, channel of A %d, mode %d", netName(kind), capa, mode) })
	var s *epServer
	quiet(func() { s = newEpServer(kind, A, B) })
	vrt.GoNamed("peer", func() {
		for _, f := range [][]byte{sessFrame(1, "a1"), sessFrame(2, "b1"), sessFrame(1, "a2"), sessFrame(2, "b2"), sessFrame(1, "a3")} {
			s.p.Write(f)
		}
	})
	s.n.u.DeleteEndPoint(A)
	if mode == 1 {
		s.n.u.AddEndPoint(A)
	}
	vrt.Quiesce()
	if mode == 0 {
		// nobody reads the deleted endpoint: B must not wait for that
		checkStrings(drain(B), []string{"b1", "b2"}, "endpoint B, A deleted")
	}
	var gotA []string
	for {
		l := drain(A)
		if len(l) == 0 {
			break
		}
		for _, d := range l {
			gotA = append(gotA, d.GetData().(string))
		}
		vrt.Quiesce()
	}
	inOrder(gotA, []string{"a1", "a2", "a3"}, "messages delivered to A")
	if mode == 1 {
		checkStrings(drain(B), []string{"b1", "b2"}, "endpoint B")
	}
	vrt.SchedOff()
	if mode == 0 {
		s.p.Write(sessFrame(1, "dead"))
		s.p.Write(sessFrame(2, "b3"))
		vrt.Quiesce()
		checkStrings(drain(A), nil, "deleted endpoint")
		checkStrings(drain(B), []string{"b3"}, "endpoint B")
		vrt.GoNamed("late", func() { send(A, s.conn, "dead-tx") })
		send(B, s.conn, "b4")
		vrt.Quiesce()
		if g := s.wire(); !reflect.DeepEqual(g, []string{"2:b4"}) {
			vrt.Fail("on the wire after the deletion of A: %v", g)
		}
		vrt.TryRecv(A.GetTxChannel())
		s.n.u.AddEndPoint(A)
		vrt.Quiesce()
	}
	var l []ustack.EndPointData
	s.p.Write(sessFrame(1, "n1"))
	s.p.Write(sessFrame(1, "n2"))
	for i := 0; i < 4; i++ {
		vrt.Quiesce()
		l = append(l, drain(A)...)
	}
	checkStrings(l, []string{"n1", "n2"}, "re-added endpoint")
	vrt.Outcome(fmt.Sprint(capa, mode, gotA))
}

func epConcChange() {
	A, B, C := ustack.NewEndPoint("A", 1), ustack.NewEndPoint("B", 2), ustack.NewEndPoint("C", 3)
	mode := vrt.Choose(4)
	vrt.SetCase(func() string { return fmt.Sprintf("mode %d", mode) })
	var s *epServer
	quiet(func() { s = newEpServer(0, A, C) })
	do := func(name string, f func()) { vrt.GoNamed(name, f) }
	onA, onB := true, true
	switch mode {
	case 0:
		do("1", func() { s.n.u.DeleteEndPoint(A) })
		do("2", func() { s.n.u.AddEndPoint(B) })
		onA = false
	case 1:
		do("1", func() { s.n.u.DeleteEndPoint(A).AddEndPoint(A) })
		do("2", func() { s.n.u.AddEndPoint(B) })
	case 2:
		do("1", func() { s.n.u.DeleteEndPoint(A) })
		do("2", func() { s.n.u.AddEndPoint(B).DeleteEndPoint(B) })
		onA, onB = false, false
	case 3:
		do("1", func() { s.n.u.DeleteEndPoint(A).AddEndPoint(A).DeleteEndPoint(A) })
		do("2", func() { s.n.u.AddEndPoint(B).DeleteEndPoint(B).AddEndPoint(B) })
		onA = false
	}
	do("C", func() { send(C, s.conn, "c1"); s.p.Write(sessFrame(3, "k1")) })
	vrt.Quiesce()
	vrt.SchedOff()
	for i, e := range []ustack.EndPoint{A, B, C} {
		send(e, s.conn, "x")
		s.p.Write(sessFrame(i+1, "y"))
		vrt.Quiesce()
	}
	w := s.wire()
	sort.Strings(w)
	var want []string
	rx := func(e ustack.EndPoint, on bool, l ...string) {
		if !on {
			l = nil
		}
		checkStrings(drain(e), l, "endpoint "+e.GetName())
	}
	if onA {
		want = append(want, "1:x")
	}
	if onB {
		want = append(want, "2:x")
	}
	want = append(want, "3:c1", "3:x")
	if !reflect.DeepEqual(w, want) {
		vrt.Fail("on the wire %v, want %v", w, want)
	}
	rx(A, onA, "y")
	rx(B, onB, "y")
	rx(C, true, "k1", "y")
	vrt.Outcome(fmt.Sprint(mode))
}

// ---- C25 -------------------------------------------------------------------

func attrHist() {
	depth := pick(4, 5)
	o1, o2 := vrt.Choose(13), vrt.Choose(13)
	o3 := vrt.Choose(13)
	vrt.SchedOff()
	var cases int64
	h := make([]int, depth)
	h[0], h[1], h[2] = o1, o2, o3
	name := func(o int) string {
		if o == 12 {
			return "send-none"
		}
		return fmt.Sprintf("%s%d", []string{"send", "recv", "close"}[o/4], o%4)
	}
	run := func() {
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			t := ""
			for _, o := range h {
				t += name(o) + " "
			}
			return "history " + t
		})
		fcs := []*fconn{{name: "c0"}, {name: "c1"}, {name: "c2"}, {name: "c0"}} // the last shares a name
		t1, t2 := newFtran("t1", fcs[0], fcs[1]), newFtran("t2", fcs[2], fcs[3])
		n := newNode("n", 64, ustack.NewStringCodec(), ustack.NewFrameDecoder())
		ep := ustack.NewEndPoint("e", 0)
		n.u.AddEndPoint(ep).AddTransport(t1).AddTransport(t2).Run()
		vrt.Quiesce()
		sent := make([]string, 4)
		for i, o := range h {
			t := fmt.Sprint("m", i)
			c := o % 4
			switch {
			case o == 12:
				send(ep, nil, t)
			case o/4 == 0:
				if !fcs[c].closed {
					sent[c] += string(framed([]byte(t)))
				}
				send(ep, fcs[c], t)
			case o/4 == 1:
				was := fcs[c].closed
				// in two pieces, so that other connections interleave
				f := framed([]byte(t))
				fcs[c].feed(f[:3])
				vrt.Quiesce()
				fcs[c].feed(f[3:])
				vrt.Quiesce()
				l := drain(ep)
				if was {
					checkStrings(l, nil, "endpoint, from a closed connection")
					break
				}
				checkStrings(l, []string{t}, "endpoint")
				if l[0].GetConnection() != fcs[c] {
					vrt.Fail("message of connection %d attributed to %v", c, l[0].GetConnection().GetName())
				}
			default:
				fcs[c].Close()
			}
			vrt.Quiesce()
			for k, f := range fcs {
				if string(f.wire()) != sent[k] {
					vrt.Fail("after %s connection %d has sent %q, want %q", name(o), k, f.wire(), sent[k])
				}
			}
			if l := drain(ep); len(l) != 0 {
				vrt.Fail("unexpected delivery %s", showEpds(l))
			}
		}
		for _, f := range fcs {
			f.closed = true
		}
		n.u.DeleteEndPoint(ep).DeleteTransport(t1).DeleteTransport(t2)
		vrt.Quiesce()
		cases++
	}
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			run()
			return
		}
		for o := 0; o < 13; o++ {
			h[i] = o
			rec(i + 1)
		}
	}
	rec(3)
	vrt.Count("traces", cases)
	vrt.Count("states", cases*int64(depth))
	vrt.Count("transitions", cases*int64(depth))
	vrt.Outcome(fmt.Sprint(o1, o2))
}

func attrConc() {
	kind := vrt.Choose(2)
	closer := vrt.Choose(3) // which connection is closed in between; 2: none
	vrt.SetCase(func() string { return fmt.Sprintf("%s, closed %d", netName(kind), closer) })
	e1, e2 := ustack.NewEndPoint("e1", 1), ustack.NewEndPoint("e2", 2)
	n := newNode("server", 64, stringFrame()...)
	var P []*vnet.VConn
	quiet(func() {
		n.u.AddEndPoint(e1).AddEndPoint(e2)
		n.u.AddTransport(newTransport(kind, "s", true, netAddr(kind)))
		n.u.AddTransport(newTransport(1-kind, "s2", true, netAddr(1-kind)))
		n.u.Run()
		vrt.Quiesce()
		for _, k := range []int{kind, 1 - kind, kind} {
			P = append(P, rawDial(k))
			vrt.Quiesce()
		}
	})
	if len(n.conns) != 3 {
		vrt.Fail("%d connections announced, 3 made", len(n.conns))
	}
	c := n.conns
	vrt.GoNamed("p0", func() { P[0].Write(sessFrame(1, "r0")) })
	vrt.GoNamed("p1", func() { P[1].Write(sessFrame(1, "r1")) })
	if closer < 2 {
		vrt.GoNamed("close", func() { P[closer].Close() })
	}
	send(e1, c[0], "s0")
	send(e2, c[2], "t2")
	send(e1, nil, "none")
	send(e1, c[1], "s1")
	send(e2, c[0], "t0")
	vrt.Quiesce()
	for _, d := range drain(e1) {
		t := d.GetData().(string)
		if (t == "r0" && d.GetConnection() != c[0]) || (t == "r1" && d.GetConnection() != c[1]) || (t != "r0" && t != "r1") {
			vrt.Fail("message %q attributed to the wrong connection", t)
		}
		P[int(t[1]-'0')].ID |= 1 << 20
	}
	checkStrings(drain(e2), nil, "endpoint 2")
	want := [][]string{{"1:s0", "2:t0"}, {"1:s1"}, {"2:t2"}}
	for i, p := range P {
		if i == closer {
			continue
		}
		if i < 2 && p.ID&(1<<20) == 0 {
			vrt.Fail("the message received on connection %d was not delivered", i)
		}
		s := &epServer{p: p}
		got := s.wire()
		sort.Strings(got)
		if !reflect.DeepEqual(got, want[i]) {
			vrt.Fail("connection %d got %v, want %v", i, got, want[i])
		}
	}
	vrt.Outcome(fmt.Sprint(kind, closer))
}

func attrNil() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	all := append([]procT{}, procs()[:7]...)
	all = append(all, procs()[10])
	vrt.SchedOff()
	var cases int64
	eachStack(2, all, func(st stackT) {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s codec on %s", c.name, st) })
		good, dead := &fconn{name: "good"}, &fconn{name: "dead", closed: true}
		n := newNode("n", 256, st.mk(c.mk())...)
		ep := ustack.NewEndPoint("e", 0)
		tr := newFtran("t", good)
		n.u.AddEndPoint(ep).AddTransport(tr).Run()
		vrt.Quiesce()
		ref := newRig(256, st.mk(c.mk())...)
		count := func() int {
			k := 0
			for _, w := range good.wrote {
				// leave out heartbeats and collect requests: shorter than any message
				ref.recv(ref.conn, w)
				k += len(ref.takeGot())
			}
			good.wrote = nil
			return k
		}
		count()
		for _, bad := range []ustack.TransportConnection{nil, dead} {
			send(ep, good, c.msgs[0])
			send(ep, bad, c.msgs[1])
			send(ep, good, c.msgs[2])
			send(ep, bad, 3.5)
			send(ep, bad, nil)
			send(ep, good, nil)
			vrt.Quiesce()
			if k := count(); k != 2 {
				vrt.Fail("%d messages left on the good connection, want 2", k)
			}
			if len(dead.wrote) != 0 {
				vrt.Fail("something was written to the closed connection")
			}
			cases++
		}
		if good.closed {
			vrt.Fail("the good connection was closed")
		}
		good.closed = true
		n.u.DeleteEndPoint(ep).DeleteTransport(tr)
		vrt.Quiesce()
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases*6)
	vrt.Outcome(fmt.Sprint(c.name, cases))
}

// epBlocked: however often an endpoint is deleted and added while one of its
// messages is held up, its messages leave in order.
func epBlocked() {
	changes := 2 * (1 + vrt.Choose(3)) // delete, add, delete, ...
	before := vrt.Choose(changes + 1)  // those made while the first message is held up
	vrt.SetCase(func() string {
		return fmt.Sprintf("%d changes (delete, add, ...), %d of them before the message goes on", changes, before)
	})
	A := ustack.NewEndPoint("A", 0)
	fc := &fconn{name: "c"}
	u := ustack.NewUStack()
	p := newProbe("below")
	gate := false
	var wire []string
	p.onUpper = func(c ustack.Context) {
		m := c.GetMessage().(string)
		vrt.Point("below " + m)
		if m == "a1" {
			vrt.Block("gate", func() bool { return gate })
		}
		vrt.Touch("wire")
		wire = append(wire, m)
	}
	u.AppendDataProcessor(p)
	change := func(i int) {
		if i%2 == 0 {
			u.DeleteEndPoint(A)
		} else {
			u.AddEndPoint(A)
		}
	}
	all := []string{"a1", "a2", "a3", "a4"}
	quiet(func() {
		u.AddEndPoint(A).Run()
		send(A, fc, "a1")
		vrt.Quiesce()
		for _, m := range all[1:] {
			send(A, fc, m)
		}
		for i := 0; i < before; i++ {
			change(i)
		}
		vrt.Quiesce()
	})
	gate = true
	vrt.GoNamed("changer", func() {
		for i := before; i < changes; i++ {
			change(i)
		}
	})
	vrt.Quiesce()
	inOrder(wire, all, "messages of A below")
	vrt.SchedOff()
	n := len(wire)
	for _, m := range []string{"n1", "n2"} {
		send(A, fc, m)
	}
	vrt.Quiesce()
	if len(wire) != n+2 || wire[n] != "n1" || wire[n+1] != "n2" {
		vrt.Fail("after re-adding, messages of A below: %v", wire[n:])
	}
	// only a message in flight at a deletion may be lost
	if n < len(all)-changes/2 {
		vrt.Fail("messages of A below: %v", wire)
	}
	vrt.Outcome(fmt.Sprint(wire))
}
