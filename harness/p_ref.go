package main

import (
	"fmt"

	"ustack"
	"ustack/vrt"
)

func init() {
	scenario(&Scenario{Name: "reference/compositions", Props: []string{"C18"}, Shards: [2]int{4, 8}, Body: refStacks,
		What: "every ordered stack of at most 3 of {frame decoder, heartbeat, statistics counter, load balancer} on each side, enabled and disabled, 8 combinations of queue sizes 0, 1, 2, 512; objects of 20 kinds (zero values, uncomparable ones, the same one twice) both ways and before the client starts, two addresses, in sequence, over several heartbeat periods"})
	scenario(&Scenario{Name: "reference/both-ways", Props: []string{"C18"}, Bound: [2]int{2, 3}, Cap: [2]int{800000, 0}, Shards: [2]int{8, 8}, Body: refSched,
		What: "3 objects each way at the same time, queue size 0, 1 or 2, plus a second pair on another address; all schedules within the bound"})
	scenario(&Scenario{Name: "reference/two-senders", Props: []string{"C18"}, Bound: [2]int{3, 4}, Cap: [2]int{800000, 0}, Shards: [2]int{8, 8}, Body: refSenders,
		What: "two endpoints of one stack send over one reference connection; each one's objects arrive once and in order; all schedules within the bound"})
	scenario(&Scenario{Name: "reference/stop", Props: []string{"C18"}, Bound: [2]int{2, 3}, Cap: [2]int{800000, 0}, Shards: [2]int{8, 8}, Body: refStop,
		What: "one side is deleted (by one or two goroutines) while both send, queues full or not, then restarted; all schedules within the bound"})
	scenario(&Scenario{Name: "reference/close-connection", Props: []string{"C18"}, Bound: [2]int{3, 4}, Cap: [2]int{800000, 0}, Shards: [2]int{4, 8}, Body: refClose,
		What: "one side's connection is closed by the application (twice) while both send; all schedules within the bound"})
	scenario(&Scenario{Name: "reference/histories", Props: []string{"C18"}, Shards: [2]int{8, 8}, Body: refHist,
		What: "every history of 6 (thorough 8) operations {start/stop server, start/stop client, server sends, client sends} against a reference model of both queues"})
	scenario(&Scenario{Name: "reference/readdress", Props: []string{"C18"}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: refReaddress,
		What: "every history of 5 (thorough 6) operations {start, stop, give another address, also while running} on four bare transports of two addresses; after each, every server and client that were started with the same address exchange objects"})
	scenario(&Scenario{Name: "reference/role", Props: []string{"C18"}, Cap: [2]int{600000, 0}, Shards: [2]int{8, 8}, Body: refRole,
		What: "every history of 6 (thorough 7) operations {start, stop} on a server, a client and a third transport of the same address, which becomes a server or a client meanwhile, running or not; whenever exactly one server and one client are up they exchange as many objects as the queue size given before the address was taken into use"})
	scenario(&Scenario{Name: "reference/bare-histories", Props: []string{"C18"}, Cap: [2]int{600000, 0}, Shards: [2]int{8, 8}, Body: refBareHist,
		What: "every history of 6 (thorough 7) operations {Run, Stop, NextConnection on server/client, exchange objects, either leaves an object untaken} on two bare transports of one address; a pair on another address, each named like the other's address, goes on exchanging objects"})
	scenario(&Scenario{Name: "reference/bare", Props: []string{"C18"}, Bound: [2]int{3, 4}, Cap: [2]int{800000, 0}, Shards: [2]int{8, 8}, Body: refBare,
		What: "Run, Stop, NextConnection, GetReference and SetReference of bare transports from three goroutines; all schedules within the bound"})
}

type obj struct {
	n int
	p *obj
}

// same compares two interface values for identity.
func identical(a, b any) (ok bool) {
	defer func() {
		if recover() != nil { // uncomparable dynamic type
			ok = fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b)
		}
	}()
	return a == b
}

func checkObjs(got []ustack.EndPointData, want []any, what string) {
	bad := len(got) != len(want)
	for i := 0; !bad && i < len(got); i++ {
		bad = !identical(got[i].GetData(), want[i])
	}
	if bad {
		vrt.Fail("%s received %s, want the identical %v", what, showEpds(got), want)
	}
}

type refEnd struct {
	n  *node2
	ep ustack.EndPoint
	t  ustack.Transport
}

func newRefEnd(name string, server bool, addr string, q int, procs ...ustack.DataProcessor) *refEnd {
	r := &refEnd{n: newNode(name, 64, procs...), ep: ustack.NewEndPoint(name, 0)}
	r.t = ustack.NewReferenceTransport(name).ForServer(server).SetAddress(addr)
	if q >= 0 {
		r.t.SetOption("MaxQueueSize", q)
	}
	r.n.u.AddEndPoint(r.ep).AddTransport(r.t).Run()
	return r
}

func (r *refEnd) conn() ustack.TransportConnection {
	if len(r.n.conns) == 0 {
		vrt.Fail("%s: no connection announced", r.n.u.GetName())
	}
	return r.n.conns[len(r.n.conns)-1]
}

func refProc(i int) ustack.DataProcessor {
	switch i {
	case 0:
		return ustack.NewFrameDecoder()
	case 1:
		return ustack.NewHeartbeat().SetOption("TimeoutInSecond", 2)
	case 2:
		return ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1)
	}
	return ustack.NewLoadBalancer()
}

// refLists lists the ordered selections of at most k of the 4 processors.
func refLists(k int) [][]int {
	l := [][]int{nil}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == k {
			return
		}
	next:
		for i := 0; i < 4; i++ {
			for _, c := range cur {
				if c == i {
					continue next
				}
			}
			n := append(append([]int{}, cur...), i)
			l = append(l, n)
			rec(n)
		}
	}
	rec(nil)
	return l
}

func refStacks() {
	lists := refLists(pick(3, 4))
	a := lists[vrt.Choose(len(lists))]
	qs := [][2]int{{-1, -1}, {0, 0}, {1, 1}, {2, 2}, {0, 2}, {2, 0}, {1, -1}, {-1, 1}}[vrt.Choose(8)]
	q := qs[0]
	mode := vrt.Choose(5)
	modes := []string{"on both sides", "on one side only", "disabled on both sides", "disabled on one side", "disabled alternately"}
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("processors %v (0 frame, 1 heartbeat, 2 stat, 3 balancer) %s, queue sizes %v", a, modes[mode], qs)
	})
	mk := func(client bool) []ustack.DataProcessor {
		var l []ustack.DataProcessor
		for k, i := range a {
			p := refProc(i)
			p.SetEnable(!(mode == 2 || mode == 3 && client || mode == 4 && (k%2 == 0) != client))
			l = append(l, p)
		}
		return l
	}
	s := newRefEnd("s", true, "x", q, mk(false)...)
	var cp []ustack.DataProcessor
	if mode != 1 {
		cp = mk(true)
	}
	vrt.Quiesce()
	early := []any{&obj{n: 8}, "early"} // sent before there is a client
	for _, o := range early {
		send(s.ep, s.conn(), o)
	}
	vrt.Quiesce()
	c := newRefEnd("c", false, "x", qs[1], cp...)
	s2 := newRefEnd("s2", true, "y", q)
	c2 := newRefEnd("c2", false, "y", qs[1])
	vrt.Quiesce()
	checkObjs(drain(c.ep), early, "client that started later")
	ub := ustack.UBufAlloc(8)
	ub.Write([]byte("abc"))
	f := func() {}
	objs := []any{&obj{n: 1}, "text", 42, []byte{1, 2, 3}, map[string]int{"a": 1}, ub, &f, obj{n: 3}, (*obj)(nil), &obj{p: &obj{}},
		"", 0, false, struct{}{}, []int{}, new(int), [0]byte{}, 0.0, []byte(nil), map[int]int(nil), error(errScript), make(chan int)}
	for round := 0; round < 3; round++ {
		for i, o := range objs {
			send(s.ep, s.conn(), o)
			send(c.ep, c.conn(), objs[len(objs)-1-i])
			send(s2.ep, s2.conn(), i)
			vrt.Quiesce()
			checkObjs(drain(c.ep), []any{o}, "client")
			checkObjs(drain(s.ep), []any{objs[len(objs)-1-i]}, "server")
			checkObjs(drain(c2.ep), []any{i}, "client of the other address")
			checkObjs(drain(s2.ep), nil, "server of the other address")
		}
		// batches, every object twice in a row
		var twice []any
		for _, o := range objs {
			twice = append(twice, o, o)
		}
		for _, o := range twice {
			send(s.ep, s.conn(), o)
			send(c2.ep, c2.conn(), o)
		}
		vrt.Quiesce()
		checkObjs(drain(c.ep), twice, "client")
		checkObjs(drain(s.ep), nil, "server")
		checkObjs(drain(s2.ep), twice, "server of the other address")
		vrt.Sleep(3 * second)
		vrt.Quiesce()
	}
	if string(peekAll(ub)) != "abc" {
		vrt.Fail("the object was changed on the way: %q", peekAll(ub))
	}
	for _, r := range []*refEnd{s, c, s2, c2} {
		if len(r.n.conns) != 1 || len(r.n.closed) != 0 || len(r.n.lost) != 0 || r.conn().Closed() {
			vrt.Fail("%s: %d new, %d closed, %d lost connections, closed %v", r.n.u.GetName(), len(r.n.conns), len(r.n.closed), len(r.n.lost), r.conn().Closed())
		}
		if l := drain(r.ep); len(l) > 0 {
			vrt.Fail("%s: unexpected delivery %s", r.n.u.GetName(), showEpds(l))
		}
	}
	vrt.Count("traces", 1)
	vrt.Count("states", int64(3*len(objs)))
	vrt.Outcome(fmt.Sprint(a, q))
}

func refSched() {
	q := vrt.Choose(3)
	late := vrt.Choose(2) == 1 // the client starts at the same time as the server sends
	vrt.SetCase(func() string { return fmt.Sprintf("queue size %d, client starts late %v", q, late) })
	var s, c, s2, c2 *refEnd
	quiet(func() {
		s = newRefEnd("s", true, "x", q)
		s2 = newRefEnd("s2", true, "y", q)
		if !late {
			c = newRefEnd("c", false, "x", q)
			c2 = newRefEnd("c2", false, "y", q)
		}
	})
	so := []any{&obj{n: 1}, &obj{n: 2}, &obj{n: 3}}
	co := []any{&obj{n: 4}, &obj{n: 5}}
	xo := []any{&obj{n: 6}}
	for _, o := range so {
		send(s.ep, s.conn(), o)
	}
	send(s2.ep, s2.conn(), xo[0])
	if late {
		c = newRefEnd("c", false, "x", q)
		c2 = newRefEnd("c2", false, "y", q)
		vrt.Quiesce()
	}
	for _, o := range co {
		send(c.ep, c.conn(), o)
	}
	vrt.Quiesce()
	checkObjs(drain(c.ep), so, "client")
	checkObjs(drain(s.ep), co, "server")
	checkObjs(drain(c2.ep), xo, "other client")
	checkObjs(drain(s2.ep), nil, "other server")
	vrt.Outcome(fmt.Sprint(q, late))
}

func refSenders() {
	q := vrt.Choose(3)
	vrt.SetCase(func() string { return fmt.Sprintf("queue size %d", q) })
	var s, c *refEnd
	e2 := ustack.NewEndPoint("e2", 5)
	quiet(func() {
		s = newRefEnd("s", true, "x", q)
		c = newRefEnd("c", false, "x", q)
		s.n.u.AddEndPoint(e2)
	})
	var a, b []any
	for i := 0; i < 3; i++ {
		a = append(a, &obj{n: i})
		b = append(b, &obj{n: 10 + i})
		send(s.ep, s.conn(), a[i])
		send(e2, s.conn(), b[i])
	}
	vrt.Quiesce()
	got := drain(c.ep)
	var ga, gb []ustack.EndPointData
	o := ""
	for _, d := range got {
		x, ok := d.GetData().(*obj)
		if !ok {
			vrt.Fail("received %v", d.GetData())
		}
		o += fmt.Sprint(x.n, " ")
		if x.n < 10 {
			ga = append(ga, d)
		} else {
			gb = append(gb, d)
		}
		if d.GetConnection() != c.conn() {
			vrt.Fail("object attributed to another connection")
		}
	}
	checkObjs(ga, a, "client (from the first endpoint)")
	checkObjs(gb, b, "client (from the second endpoint)")
	vrt.Outcome(o)
}

// prefixOf checks that got is the identical beginning of want, and returns the rest.
func prefixOf(got []ustack.EndPointData, want []any, what string) []any {
	if len(got) > len(want) {
		vrt.Fail("%s received %s, sent were %v", what, showEpds(got), want)
	}
	checkObjs(got, want[:len(got)], what)
	return want[len(got):]
}

func refStop() {
	q := vrt.Choose(3)
	server := vrt.Choose(2) == 0 // which side is stopped
	twice := vrt.Choose(2) == 1
	vrt.SetCase(func() string {
		return fmt.Sprintf("queue size %d, server stopped %v, by two goroutines %v", q, server, twice)
	})
	var s, c *refEnd
	base := 0
	quiet(func() {
		// whatever a stack sets up once
		s = newRefEnd("s", true, "x", q)
		vrt.Quiesce()
		s.n.u.DeleteTransport(s.t)
		vrt.Quiesce()
		base = len(vrt.Live())
		s.n.conns, s.n.closed = nil, nil
		s.n.u.AddTransport(s.t)
		c = newRefEnd("c", false, "x", q)
	})
	a, b := s, c
	if !server {
		a, b = c, s
	}
	grown := len(vrt.Live()) - base
	ac := a.conn()
	ao := []any{&obj{n: 1}, &obj{n: 2}, &obj{n: 3}}
	bo := []any{&obj{n: 4}, &obj{n: 5}, &obj{n: 6}}
	vrt.GoNamed("a", func() {
		for _, o := range ao {
			send(a.ep, ac, o)
		}
	})
	vrt.GoNamed("b", func() {
		for _, o := range bo {
			send(b.ep, b.conn(), o)
		}
	})
	if twice {
		vrt.GoNamed("stopper", func() { a.n.u.DeleteTransport(a.t) })
	}
	a.n.u.DeleteTransport(a.t)
	vrt.Quiesce()
	vrt.SchedOff()
	if !ac.Closed() || len(a.n.closed) != 1 || a.n.closed[0] != ac {
		vrt.Fail("the stopped side's connection: closed %v, %d closed events", ac.Closed(), len(a.n.closed))
	}
	if len(b.n.closed) != 0 {
		vrt.Fail("the other side's connection was closed")
	}
	// the goroutine waiting for connections and the receiver have ended
	if l := vrt.Live(); len(l)-base > grown-2 {
		vrt.Fail("goroutines of the stopped transport are left waiting: %v", l)
	}
	gotB := drain(b.ep)
	prefixOf(gotB, ao, "the running side")
	gotA := drain(a.ep)
	rest := prefixOf(gotA, bo, "the stopped side")
	o := fmt.Sprint(len(gotA), len(gotB))
	// restarted, it takes up where it was: what is still queued arrives once
	a.n.u.AddTransport(a.t)
	vrt.Quiesce()
	if len(a.n.conns) != 2 {
		vrt.Fail("%d connections announced after the restart", len(a.n.conns))
	}
	rest = prefixOf(drain(a.ep), rest, "the restarted side")
	n1, n2 := &obj{n: 7}, &obj{n: 8}
	send(a.ep, a.conn(), n1)
	send(b.ep, b.conn(), n2)
	vrt.Quiesce()
	l := drain(a.ep)
	if len(l) == 0 || !identical(l[len(l)-1].GetData(), n2) {
		vrt.Fail("the restarted side did not receive the new object: %s", showEpds(l))
	}
	prefixOf(l[:len(l)-1], rest, "the restarted side")
	checkObjs(drain(b.ep), []any{n1}, "the running side after the restart")
	vrt.Outcome(o)
}

func refClose() {
	q := 1 + vrt.Choose(2)
	twice := vrt.Choose(2) == 1
	vrt.SetCase(func() string { return fmt.Sprintf("queue size %d, closed twice %v", q, twice) })
	var s, c *refEnd
	quiet(func() {
		s = newRefEnd("s", true, "x", q)
		c = newRefEnd("c", false, "x", q)
	})
	so := []any{&obj{n: 1}, &obj{n: 2}}
	co := []any{&obj{n: 4}, &obj{n: 5}}
	for i := range so {
		send(s.ep, s.conn(), so[i])
		send(c.ep, c.conn(), co[i])
	}
	if twice {
		vrt.GoNamed("closer", func() { s.conn().Close() })
	}
	s.conn().Close()
	vrt.Quiesce()
	if len(s.n.closed) != 1 || !s.conn().Closed() {
		vrt.Fail("%d closed events of the closed connection", len(s.n.closed))
	}
	if len(c.n.closed) != 0 || c.conn().Closed() {
		vrt.Fail("the other side's connection was closed")
	}
	prefixOf(drain(s.ep), co, "server")
	prefixOf(drain(c.ep), so, "client")
	vrt.SchedOff()
	s.n.u.DeleteTransport(s.t)
	c.n.u.DeleteTransport(c.t)
	vrt.Quiesce()
	if len(s.n.closed) != 1 || len(c.n.closed) != 1 {
		vrt.Fail("%d and %d closed events", len(s.n.closed), len(c.n.closed))
	}
	vrt.Outcome(fmt.Sprint(q, twice))
}

func refHist() {
	ops := []string{"s+", "s-", "c+", "c-", "s>", "c>"}
	depth := pick(6, 8)
	others := vrt.Choose(2) == 1 // transports at addresses equal to the names of these
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("others at look-alike addresses %v, history %v", others, h) })
	vrt.SchedOff()
	var e [2]*refEnd
	var names = []string{"server", "client"}
	for i := range e {
		e[i] = &refEnd{n: newNode(names[i], 64), ep: ustack.NewEndPoint(names[i], 0)}
		e[i].t = ustack.NewReferenceTransport(names[i]).ForServer(i == 0).SetAddress("x").SetOption("MaxQueueSize", 16)
		e[i].n.u.AddEndPoint(e[i].ep).Run()
	}
	if others {
		for _, n := range names {
			for i := 0; i < 2; i++ {
				ustack.NewReferenceTransport("x").ForServer(i == 0).SetAddress(n).Run()
			}
		}
	}
	vrt.Quiesce()
	var on [2]bool
	var runs [2]int
	var queue [2][]any // on the way to this side
	num := 0
	for i := 0; i < depth; i++ {
		k := vrt.Choose(len(ops))
		h = append(h, ops[k])
		switch {
		case k < 4 && k&1 == 0:
			i := k / 2
			e[i].n.u.AddTransport(e[i].t)
			if !on[i] {
				on[i] = true
				runs[i]++
			}
		case k < 4:
			i := k / 2
			e[i].n.u.DeleteTransport(e[i].t)
			on[i] = false
			if !on[0] && !on[1] {
				queue = [2][]any{} // both ends gone: a new start is fresh
			}
		default:
			i := k - 4
			if runs[i] == 0 {
				break
			}
			num++
			o := &obj{n: num}
			send(e[i].ep, e[i].conn(), o)
			if on[i] {
				queue[1-i] = append(queue[1-i], o)
			}
		}
		vrt.Quiesce()
		for i := range e {
			if on[i] {
				checkObjs(drain(e[i].ep), queue[i], names[i])
				queue[i] = nil
			} else {
				checkObjs(drain(e[i].ep), nil, names[i])
			}
			if len(e[i].n.conns) != runs[i] {
				vrt.Fail("%s: %d connections in %d runs", names[i], len(e[i].n.conns), runs[i])
			}
			if want := runs[i] - b2i(on[i]); len(e[i].n.closed) != want {
				vrt.Fail("%s: %d closed events, want %d", names[i], len(e[i].n.closed), want)
			}
			for j, c := range e[i].n.conns {
				if c.Closed() != !(on[i] && j == runs[i]-1) {
					vrt.Fail("%s: connection %d closed: %v", names[i], j, c.Closed())
				}
			}
		}
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}

func refBare() {
	mode := vrt.Choose(5)
	modes := []string{"run | run | stop", "next | stop | stop", "get | stop", "set (queue full) | close | stop", "stop | stop+run | next"}
	q := vrt.Choose(2)
	vrt.SetCase(func() string { return fmt.Sprintf("queue size %d: %s", q, modes[mode]) })
	t := ustack.NewReferenceTransport("t").ForServer(true).SetAddress("x").SetOption("MaxQueueSize", q)
	var conn ustack.TransportConnection
	var seen []ustack.TransportConnection
	ended, started := 0, 0
	wait := func(f func()) {
		started++
		vrt.GoNamed("wait", func() { f(); vrt.Touch("ended"); ended++ })
	}
	next := func() {
		for {
			c := t.NextConnection()
			if c == nil {
				return
			}
			vrt.Touch("seen")
			seen = append(seen, c)
		}
	}
	quiet(func() {
		if mode != 0 {
			t.Run()
		}
		if mode == 2 || mode == 3 {
			conn = t.NextConnection()
		}
	})
	o := &obj{}
	switch mode {
	case 0:
		vrt.GoNamed("run", func() { t.Run() })
		vrt.GoNamed("stop", func() { t.Stop() })
		t.Run()
		wait(next)
	case 1:
		wait(next)
		vrt.GoNamed("stop", func() { t.Stop() })
		t.Stop()
	case 2:
		wait(func() {
			if v, err := conn.GetReference(); err == nil || v != nil {
				vrt.Fail("GetReference returned %v, %v although nothing was sent", v, err)
			}
		})
		t.Stop()
	case 3:
		wait(func() {
			n := 0
			for i := 0; i < 4; i++ {
				if conn.SetReference(o) == nil {
					n++
				}
			}
			if n > q {
				vrt.Fail("%d objects accepted by a queue of size %d", n, q)
			}
		})
		vrt.GoNamed("close", func() { conn.Close() })
		t.Stop()
	case 4:
		wait(next)
		vrt.GoNamed("stop", func() { t.Stop() })
		t.Stop()
		t.Run()
	}
	vrt.Quiesce()
	vrt.SchedOff()
	t.Stop()
	vrt.Quiesce()
	if ended != started {
		vrt.Fail("%d waits did not end although the transport is stopped: %v", started-ended, vrt.Live())
	}
	for _, c := range append(seen, conn) {
		if c == nil {
			continue
		}
		if !c.Closed() {
			vrt.Fail("a connection of the stopped transport is open")
		}
		if c.SetReference(o) == nil {
			vrt.Fail("SetReference on a closed connection succeeds")
		}
		if v, err := c.GetReference(); err == nil {
			vrt.Fail("GetReference on a closed connection returns %v", v)
		}
	}
	vrt.Outcome(fmt.Sprint(modes[mode], q, len(seen)))
}

func refBareHist() {
	depth := pick(6, 7)
	ops := []string{"run server", "stop server", "next server", "run client", "stop client", "next client", "exchange", "server leaves one", "client leaves one"}
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("history %v", h) })
	vrt.SchedOff()
	mk := func(name, addr string, server bool) ustack.Transport {
		return ustack.NewReferenceTransport(name).ForServer(server).SetAddress(addr).SetOption("MaxQueueSize", 3)
	}
	exchange := func(a, b ustack.TransportConnection, what string) {
		for k := 0; k < 2; k++ {
			o, p := &obj{n: k}, &obj{n: k + 10}
			if err := a.SetReference(o); err != nil {
				vrt.Fail("%s: %v", what, err)
			}
			if err := a.SetReference(p); err != nil {
				vrt.Fail("%s: %v", what, err)
			}
			for _, w := range []*obj{o, p} {
				if g, err := b.GetReference(); err != nil || g != w {
					vrt.Fail("%s: got %v, %v instead of the object that was sent", what, g, err)
				}
			}
			a, b = b, a
		}
	}
	ot := [2]ustack.Transport{mk("x", "y", true), mk("x", "y", false)}
	oc := [2]ustack.TransportConnection{ot[0].Run().NextConnection(), ot[1].Run().NextConnection()}
	t := [2]ustack.Transport{mk("y", "x", true), mk("y", "x", false)}
	var on, pending, waiting, ever [2]bool
	var cur [2]ustack.TransportConnection
	var left [2][]*obj // sent by the server, the client, and not yet taken
	var old []ustack.TransportConnection
	for i := 0; i < depth; i++ {
		k := vrt.Choose(len(ops))
		h = append(h, ops[k])
		s := k / 3
		switch {
		case k == 6:
			if cur[0] != nil && cur[1] != nil {
				for d := range left {
					for _, w := range left[d] {
						if g, err := cur[1-d].GetReference(); err != nil || g != w {
							vrt.Fail("got %v, %v instead of the object that was sent earlier", g, err)
						}
					}
					left[d] = nil
				}
				exchange(cur[0], cur[1], "server to client and back")
			}
		case k > 6:
			// kept for the other side as long as one of the two is running
			if d := k - 7; cur[d] != nil && len(left[d]) == 0 {
				o := &obj{n: 100 + i}
				if err := cur[d].SetReference(o); err != nil {
					vrt.Fail("%s: %v", ops[k], err)
				}
				left[d] = []*obj{o}
			}
		case k%3 == 0:
			t[s].Run()
			if !on[s] {
				on[s], pending[s], ever[s] = true, true, true
			}
		case k%3 == 1:
			t[s].Stop()
			on[s], pending[s] = false, false
			if !on[0] && !on[1] {
				left = [2][]*obj{}
			}
			if cur[s] != nil {
				old = append(old, cur[s])
				cur[s] = nil
			}
		case ever[s] && !waiting[s]:
			waiting[s] = true
			vrt.GoNamed("next", func() {
				c := t[s].NextConnection()
				waiting[s] = false
				if c == nil {
					if on[s] {
						vrt.Fail("NextConnection of the running %s returned nil", ops[s*3][4:])
					}
					return
				}
				if !on[s] {
					if !c.Closed() {
						vrt.Fail("the stopped %s yields an open connection", ops[s*3][4:])
					}
					return
				}
				if !pending[s] {
					vrt.Fail("the %s yields a second connection in one run", ops[s*3][4:])
				}
				pending[s] = false
				cur[s] = c
			})
		}
		vrt.Quiesce()
		for s := range t {
			if waiting[s] && (pending[s] || !on[s]) {
				vrt.Fail("NextConnection of the %s still waits", ops[s*3][4:])
			}
			if cur[s] != nil && cur[s].Closed() {
				vrt.Fail("the connection of the running %s is closed", ops[s*3][4:])
			}
		}
		for _, c := range old {
			if !c.Closed() {
				vrt.Fail("the connection of a stopped transport is open")
			}
			if c.SetReference(&obj{}) == nil {
				vrt.Fail("the connection of a stopped transport accepts objects")
			}
		}
		exchange(oc[0], oc[1], "pair with another address")
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}

// refReaddress: a new address counts from the next start on.
func refReaddress() {
	depth := pick(5, 6)
	names := []string{"server x", "server y", "client y", "moving client"}
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("history %v", h) })
	vrt.SchedOff()
	addr := []string{"x", "y", "y", "x"}
	var t [4]ustack.Transport
	for i := range t {
		t[i] = ustack.NewReferenceTransport(names[i]).ForServer(i < 2).SetAddress(addr[i]).SetOption("MaxQueueSize", 4)
	}
	var conn [4]ustack.TransportConnection
	var at [4]string // where the running ones were started
	for i := 0; i < depth; i++ {
		k := vrt.Choose(9)
		s := k / 2
		switch {
		case k == 8:
			h = append(h, "move")
			addr[3] = string("xy"[b2i(addr[3] == "x")])
			t[3].SetAddress(addr[3])
		case k%2 == 0:
			h = append(h, "run "+names[s])
			t[s].Run()
			if conn[s] == nil {
				conn[s], at[s] = t[s].NextConnection(), addr[s]
				if conn[s] == nil {
					vrt.Fail("the %s yields no connection", names[s])
				}
			}
		default:
			h = append(h, "stop "+names[s])
			t[s].Stop()
			if conn[s] != nil && !conn[s].Closed() {
				vrt.Fail("the connection of the stopped %s is open", names[s])
			}
			conn[s] = nil
		}
		for a := 0; a < 2; a++ {
			for b := 2; b < 4; b++ {
				if conn[a] == nil || conn[b] == nil || at[a] != at[b] {
					continue
				}
				p, q := conn[a], conn[b]
				for d := 0; d < 2; d++ {
					var sent []*obj
					for n := 0; n < 3; n++ {
						o := &obj{n: n}
						sent = append(sent, o)
						if err := p.SetReference(o); err != nil {
							vrt.Fail("%s and %s, both started with address %s: %v", names[a], names[b], at[a], err)
						}
					}
					for _, o := range sent {
						var g any
						var err error
						done := false
						vrt.GoNamed("reader", func() {
							g, err = q.GetReference()
							done = true
						})
						vrt.Quiesce()
						if !done {
							vrt.Fail("%s and %s, both started with address %s, are not connected", names[a], names[b], at[a])
						}
						if err != nil || g != any(o) {
							vrt.Fail("%s and %s, both started with address %s: got %v, %v instead of the object that was sent", names[a], names[b], at[a], g, err)
						}
					}
					p, q = q, p
				}
			}
		}
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}

// refRole: a transport is a server or a client as it was told when started.
func refRole() {
	depth := pick(6, 7)
	names := []string{"server", "client", "t"}
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("history %v", h) })
	vrt.SchedOff()
	server := []bool{true, false, true}
	var t [3]ustack.Transport
	for i := range t {
		t[i] = ustack.NewReferenceTransport(names[i]).ForServer(server[i]).SetAddress("x").SetOption("MaxQueueSize", 3)
	}
	var conn [3]ustack.TransportConnection
	var as [3]bool
	size, given := 0, 3 // of the queues in use; the one of the next user
	for i := 0; i < depth; i++ {
		k := vrt.Choose(8)
		s := k / 2
		switch {
		case k == 6:
			server[2] = !server[2]
			h = append(h, fmt.Sprint("t server ", server[2]))
			t[2].ForServer(server[2])
		case k == 7:
			given = 7 - given
			h = append(h, fmt.Sprint("queue size ", given))
			for _, x := range t {
				x.SetOption("MaxQueueSize", given)
			}
		case k%2 == 0:
			h = append(h, "run "+names[s])
			if conn[0] == nil && conn[1] == nil && conn[2] == nil {
				size = given
			}
			t[s].Run()
			if conn[s] == nil {
				conn[s], as[s] = t[s].NextConnection(), server[s]
				if conn[s] == nil {
					vrt.Fail("%s yields no connection", names[s])
				}
			}
		default:
			h = append(h, "stop "+names[s])
			t[s].Stop()
			if conn[s] != nil && !conn[s].Closed() {
				vrt.Fail("the connection of %s, stopped, is open", names[s])
			}
			conn[s] = nil
		}
		var ends [2][]int
		for j, c := range conn {
			if c != nil {
				ends[b2i(as[j])] = append(ends[b2i(as[j])], j)
			}
		}
		if len(ends[0]) == 1 && len(ends[1]) == 1 {
			a, b := ends[0][0], ends[1][0]
			for d := 0; d < 2; d++ {
				var sent []*obj
				for n := 0; n < size; n++ {
					o := &obj{n: n}
					sent = append(sent, o)
					if err := conn[a].SetReference(o); err != nil {
						vrt.Fail("%s, with %d objects under way in a queue of %d: %v", names[a], n, size, err)
					}
				}
				for _, o := range sent {
					var g any
					var err error
					done := false
					vrt.GoNamed("reader", func() {
						g, err = conn[b].GetReference()
						done = true
					})
					vrt.Quiesce()
					if !done || err != nil || g != any(o) {
						vrt.Fail("%s does not get what %s sends: %v, %v (returned %v)", names[b], names[a], g, err, done)
					}
				}
				a, b = b, a
			}
		}
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}
