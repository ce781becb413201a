package main

import (
	"bytes"
	"fmt"
	"strings"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

// Large numbers: the same properties with big frames and MTUs, many messages,
// connections, endpoints and listeners, in one schedule each.

func init() {
	sc := func(name, prop string, shards int, body func(), what string) {
		scenario(&Scenario{Name: name, Props: strings.Fields(prop), Shards: [2]int{shards, shards}, Body: body, What: what})
	}
	sc("scale/big-frames", "C06 C10", 8, scaleFrames, "MTUs of 300..70000 (thorough: 2^20): messages of every size around 2^7, 2^8, 2^15, 2^16, 2^k and the MTU, in pairs, read whole and in pieces of 11 sizes")
	sc("scale/frame-stream", "C06", 8, scaleStream, "20000 (thorough 400000) messages over one connection, with the default and small MTUs, sizes and read sizes running through all values")
	sc("scale/frame-connections", "C07", 4, scaleFrameConns, "up to 300 connections through one frame decoder, their pieces interleaved round robin, forwards and backwards, some ending in mid-frame")
	sc("scale/connections", "C14 C25 C16", 4, scaleConns, "1..40 connections at once to one TCP/Unix server: each announced once, answered on its own connection, closed once by 4 causes; then as many again")
	sc("scale/unread-connections", "C16", 4, scaleUnread, "1..40 clients connect to a bare TCP/Unix transport while 0..n of the connections are taken; then it is stopped, or taken further, and started again")
	sc("scale/messages", "C09 C13", 4, scaleMessages, "3000 (thorough 70000) messages each way through a full stack over TCP/Unix, of all sizes, with heartbeats and statistics")
	sc("scale/endpoints", "C11 C15", 4, scaleEndpoints, "60 endpoints in two stacks: each reaches each; then every third is deleted, then added again")
	sc("scale/reference", "C18", 4, scaleReference, "up to 1200 objects against queue sizes 0, 1, 511, 512, 513, 600 and the default; 70 addresses at once; 70 restarts")
	sc("scale/heartbeat", "C19", 8, scaleHeartbeat, "timeouts of 1..3600 s with heartbeats just in time, then silence; 40 connections with different last heartbeats")
	sc("scale/functions", "C21", 4, scaleFunctions, "filters and forwarders with 4..7 functions, every assignment of answers, both directions")
	sc("scale/observers", "C23", 4, scaleObservers, "up to 40 listeners and 40 endpoints, 300 events; observers are added and deleted in callbacks")
	sc("scale/listener", "C24", 4, scaleListener, "2000 messages, more than the channel holds, with the data listener replaced never, every time or now and then")
	sc("scale/registry", "C27", 4, scaleRegistry, "60 endpoints and 60 transports added, deleted in 6 orders and added again")
	sc("scale/echo", "C22", 4, scaleEcho, "3000 messages of all sizes up to the default MTU through echo and loopback")
	sc("scale/snapshots", "C04", 4, scaleSnapshots, "up to 300 snapshots (of the source, of the newest, of any), written in 4 orders; capacities up to 70000")
	sc("scale/options", "C26", 2, scaleOptions, "300 option names on every kind of object")
	sc("scale/garbage", "C08", 4, scaleGarbage, "5000 malformed frames and 300 connections that send garbage and stay or close, beside one that goes on exchanging messages")
	sc("scale/codec", "C12", 5, scaleCodec, "every codec with MTU 200000: content sizes around every power of two up to 2^17, in both orders; earlier messages unchanged")
}

func fill(n, seed int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + i>>8*31 + seed)
	}
	return p
}

func around(max int, l ...int) []int {
	var r []int
	seen := map[int]bool{}
	for _, x := range l {
		for d := -1; d <= 1; d++ {
			if v := x + d; v >= 0 && v <= max && !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
	}
	return r
}

func powers(max int) []int {
	var l []int
	for i := 1; i <= max; i *= 2 {
		l = append(l, i)
	}
	return l
}

func scaleFrames() {
	mtus := []int{300, 2048, 4100, 33000, 65535, 65536, 65541, 70000}
	if pick(0, 1) == 1 {
		mtus = append(mtus, 1<<20+9)
	}
	mtu := mtus[vrt.Choose(len(mtus))]
	how := vrt.Choose(11)
	vrt.SchedOff()
	max := mtu - 4
	sizes := around(max, append(powers(max), 0, max)...)
	step := []int{mtu, mtu - 1, mtu/2 + 1, mtu / 3, 4096, 1460, 1024, 257, 256, 255, 64}[how]
	if step < 1 || step > mtu {
		return
	}
	r := newRig(mtu, ustack.NewFrameDecoder())
	s := newRig(mtu, ustack.NewBytesCodec(), ustack.NewFrameDecoder())
	one := func(l ...int) {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("MTU %d, payload sizes %v, read sizes %d", mtu, l, step) })
		var stream []byte
		var want [][]byte
		for i, n := range l {
			p := fill(n, i+n)
			want = append(want, p)
			if n > 0 {
				s.send(s.conn, p, nil)
				w := s.takeWire()
				if len(w) != 1 || len(w[0]) != n+4 {
					vrt.Fail("a message of %d bytes becomes %d wire messages", n, len(w))
				}
				if !bytes.Equal(w[0], framed(p)) {
					vrt.Fail("the frame of a message of %d bytes starts with % x", n, w[0][:4])
				}
				stream = append(stream, w[0]...)
			} else {
				stream = append(stream, framed(nil)...)
			}
		}
		for p := 0; p < len(stream); p += step {
			r.recv(r.conn, stream[p:min(p+step, len(stream))])
		}
		g := r.takeGot()
		if len(g) != len(want) {
			vrt.Fail("%d messages delivered, %d sent", len(g), len(want))
		}
		for i := range g {
			if !bytes.Equal(g[i].bytes, want[i]) {
				vrt.Fail("message %d of %d bytes is delivered with %d bytes", i, len(want[i]), len(g[i].bytes))
			}
		}
		vrt.Count("traces", 1)
		vrt.Count("states", int64(len(stream)/step+1))
		vrt.Count("transitions", int64(len(stream)/step+1))
	}
	for i, a := range sizes {
		one(a)
		one(a, sizes[(i+5)%len(sizes)], a)
		one(a, max, 1)
	}
	// too big: not sent
	for _, d := range []int{1, 2, 4, 256, 65536} {
		vrt.SetCase(func() string { return fmt.Sprintf("MTU %d, payload %d", mtu, max+d) })
		s.send(s.conn, fill(max+d, 0), nil)
		if w := s.takeWire(); len(w) != 0 {
			vrt.Fail("a message that does not fit is sent: %d bytes", len(w[0]))
		}
	}
	vrt.Outcome(fmt.Sprint(mtu, step))
}

func scaleStream() {
	mtu := []int{0, 16, 61, 2048}[vrt.Choose(4)]
	mode := vrt.Choose(4)
	vrt.SchedOff()
	total := pick(20000, 400000)
	fd := ustack.NewFrameDecoder()
	r := newRig(mtu, fd)
	m := r.u.GetMTU()
	if m == 2048 {
		total /= 10
	}
	var buf []byte
	sent, got, reads := 0, 0, 0
	var want [][]byte
	size := func(i int) int { return []int{i, i * 7, i * i, (m - 4) - i}[mode] }
	mod := func(a, b int) int { return ((a % b) + b) % b }
	vrt.SetCase(func() string {
		return fmt.Sprintf("MTU %d, mode %d: %d messages sent, %d delivered after %d reads", m, mode, sent, got, reads)
	})
	for got < total {
		if reads&63 == 0 {
			vrt.ResetBudget()
		}
		n := mod(reads*5+reads/m, m) + 1
		for len(buf) < n && sent < total {
			p := fill(mod(size(sent), m-3), sent)
			want = append(want, p)
			buf = append(buf, framed(p)...)
			sent++
		}
		if n > len(buf) {
			n = len(buf)
		}
		if n == 0 {
			vrt.Fail("%d messages missing", total-got)
		}
		r.recv(r.conn, buf[:n])
		buf = buf[n:]
		reads++
		for _, g := range r.takeGot() {
			if len(want) == 0 || !bytes.Equal(g.bytes, want[0]) {
				vrt.Fail("wrong message delivered")
			}
			want = want[1:]
			got++
		}
	}
	vrt.Count("traces", int64(total))
	vrt.Count("states", int64(reads))
	vrt.Count("transitions", int64(reads))
	vrt.Outcome(fmt.Sprint(m, mode))
}

func scaleFrameConns() {
	nc := []int{2, 15, 16, 17, 33, 300}[vrt.Choose(6)]
	step := []int{1, 2, 3, 5}[vrt.Choose(4)]
	ends := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%d connections, pieces of %d bytes, every third ends in mid-frame %v", nc, step, ends)
	})
	r := newRig(24, ustack.NewFrameDecoder())
	type peer struct {
		c    *fconn
		s    []byte
		want [][]byte
	}
	mk := func(i int) *peer {
		p := &peer{c: &fconn{name: "same"}}
		for k := 0; k < 3; k++ {
			m := fill((i+k*5)%20, i+k)
			p.want = append(p.want, m)
			p.s = append(p.s, framed(m)...)
		}
		return p
	}
	var ps []*peer
	byConn := map[any]*peer{}
	for i := 0; i < nc; i++ {
		p := mk(i)
		ps = append(ps, p)
		byConn[p.c] = p
		r.publish(ustack.UStackEventNewConnection, p.c)
	}
	for round := 0; ; round++ {
		busy := false
		for i := range ps {
			if round&1 == 1 {
				i = nc - 1 - i
			}
			p := ps[i]
			if ends && i%3 == 1 && round == 5 {
				p.c.Close()
				r.publish(ustack.UStackEventConnectionClosed, p.c)
				p.s = nil
				q := mk(i + 1)
				ps[i] = q
				byConn[q.c] = q
				r.publish(ustack.UStackEventNewConnection, q.c)
				busy = true
				continue
			}
			if len(p.s) == 0 {
				continue
			}
			n := min(step, len(p.s))
			vrt.ResetBudget()
			r.recv(p.c, p.s[:n])
			p.s = p.s[n:]
			busy = true
			vrt.Count("states", 1)
			for _, g := range r.takeGot() {
				q := byConn[g.conn]
				if q != p || len(q.want) == 0 || !bytes.Equal(g.bytes, q.want[0]) {
					vrt.Fail("connection %d: wrong message % x", i, g.bytes)
				}
				q.want = q.want[1:]
			}
		}
		if !busy {
			break
		}
	}
	for i, p := range ps {
		if len(p.want) != 0 {
			vrt.Fail("connection %d: %d messages were not delivered", i, len(p.want))
		}
	}
	vrt.Count("traces", 1)
	vrt.Outcome(fmt.Sprint(nc, step, ends))
}

func scaleConns() {
	kind := vrt.Choose(2)
	nc := []int{1, 15, 16, 17, 18, 33, 40}[vrt.Choose(7)]
	cause := vrt.Choose(4)
	quiesce := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d connections, ended by cause %d, one at a time %v", netName(kind), nc, cause, quiesce)
	})
	ep := ustack.NewEndPoint("e", 0)
	n := newNode("n", 64, ustack.NewStringCodec(), ustack.NewFrameDecoder())
	ws := watched(n, ep)
	t := newTransport(kind, "t", true, netOf(kind, "main"))
	n.u.AddEndPoint(ep).AddTransport(t).Run()
	vrt.Quiesce()
	for round := 0; round < 2; round++ {
		vrt.ResetBudget()
		k0 := len(n.conns)
		var ps []*vnet.VConn
		for i := 0; i < nc; i++ {
			c, err := vnet.Dial(netName(kind), netOf(kind, "main"))
			if err != nil {
				vrt.Fail("connection %d refused: %v", i, err)
			}
			ps = append(ps, c.(*vnet.VConn))
			if quiesce {
				vrt.Quiesce()
			}
		}
		vrt.Quiesce()
		if len(n.conns) != k0+nc {
			vrt.Fail("%d connections announced, %d made", len(n.conns)-k0, nc)
		}
		conns := append([]ustack.TransportConnection{}, n.conns[k0:]...)
		// every peer says who it is; the answer goes back on that connection
		for i, p := range ps {
			p.Write(framed([]byte(fmt.Sprint("hello ", i))))
		}
		vrt.Quiesce()
		vrt.ResetBudget()
		who := map[string]ustack.TransportConnection{}
		for _, d := range drain(ep) {
			s := d.GetData().(string)
			if who[s] != nil {
				vrt.Fail("%q delivered twice", s)
			}
			who[s] = d.GetConnection()
		}
		if len(who) != nc {
			vrt.Fail("%d messages delivered, %d sent", len(who), nc)
		}
		used := map[ustack.TransportConnection]bool{}
		for i := range ps {
			c := who[fmt.Sprint("hello ", i)]
			if c == nil || used[c] {
				vrt.Fail("message of peer %d attributed to a wrong connection", i)
			}
			used[c] = true
			send(ep, c, fmt.Sprint("you are ", i))
		}
		vrt.Quiesce()
		vrt.ResetBudget()
		for i, p := range ps {
			if w := string(p.Pending()); w != string(framed([]byte(fmt.Sprint("you are ", i)))) {
				vrt.Fail("peer %d got %q", i, w)
			}
		}
		for _, w := range ws {
			for _, c := range conns {
				w.check(c, false)
			}
		}
		switch cause {
		case 0:
			for _, p := range ps {
				p.Close()
			}
		case 1:
			for _, c := range conns {
				c.Close()
			}
		case 2:
			for i := range ps {
				ps[len(ps)-1-i].Break()
			}
		case 3:
			n.u.DeleteTransport(t)
		}
		vrt.Quiesce()
		vrt.ResetBudget()
		for _, w := range ws {
			for _, c := range conns {
				w.check(c, true)
			}
		}
		for i, c := range conns {
			if !c.Closed() {
				vrt.Fail("connection %d does not report itself closed", i)
			}
		}
		if cause == 3 {
			for i, p := range ps {
				if !p.Peer.IsClosed() {
					vrt.Fail("connection %d is still open", i)
				}
			}
			n.u.AddTransport(t)
			vrt.Quiesce()
		}
	}
	vrt.Count("traces", 1)
	vrt.Count("states", int64(nc*2))
	vrt.Outcome(fmt.Sprint(nc, cause))
}

func scaleUnread() {
	kind := vrt.Choose(2)
	nc := []int{1, 15, 16, 17, 18, 33, 40}[vrt.Choose(7)]
	taken := []int{0, 1, 15, 17, 40}[vrt.Choose(5)]
	again := vrt.Choose(2) == 1
	vrt.SchedOff()
	if taken > nc {
		return
	}
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d connections, %d taken, started again %v", netName(kind), nc, taken, again)
	})
	t := newTransport(kind, "t", true, netOf(kind, "main"))
	base := len(vrt.Live())
	t.Run()
	vrt.Quiesce()
	var got []ustack.TransportConnection
	for round := 0; round < 1+b2i(again); round++ {
		got = nil
		for i := 0; i < nc; i++ {
			if _, err := vnet.Dial(netName(kind), netOf(kind, "main")); err != nil {
				vrt.Fail("connection %d refused: %v", i, err)
			}
		}
		vrt.Quiesce()
		vrt.GoNamed("taker", func() {
			for i := 0; i < taken; i++ {
				c := t.NextConnection()
				if c == nil || c.Closed() {
					vrt.Fail("connection %d is missing or closed", i)
				}
				got = append(got, c)
			}
		})
		vrt.Quiesce()
		if len(got) != taken {
			vrt.Fail("%d of %d connections yielded", len(got), taken)
		}
		for i := range got {
			for j := range got[:i] {
				if got[i] == got[j] {
					vrt.Fail("a connection was yielded twice")
				}
			}
		}
		t.Stop()
		vrt.Sleep(3 * second)
		vrt.Quiesce()
		// pending dials that were never accepted are refused or closed
		for i, c := range serverEnds(kind) {
			if !c.IsClosed() {
				vrt.Fail("connection %d of the stopped transport is still open", i)
			}
		}
		settled("stopped", kind, true, nil, base)
		for i, c := range got {
			if !c.Closed() {
				vrt.Fail("yielded connection %d does not report itself closed", i)
			}
		}
		if again {
			t.Run()
			vrt.Quiesce()
		}
	}
	vrt.Count("traces", 1)
	vrt.Outcome(fmt.Sprint(nc, taken, again))
}

func scaleMessages() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(2)
	vrt.SchedOff()
	total := pick(3000, 70000)
	vrt.SetCase(func() string { return fmt.Sprintf("%s, mode %d, %d messages each way", netName(kind), mode, total) })
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), passFilter(), ustack.NewSessionResolver(), ustack.NewHeartbeat(),
			ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1}), epsFor("c", []int{1})
	s, c := twoStacks(kind, 256, mk, ses, ces)
	msg := func(i int, side string) string {
		t := fmt.Sprint(side, i, " ")
		n := i % (256 - 10 - len(t))
		return t + strings.Repeat(string(rune('a'+i%26)), n)
	}
	got := [2]int{}
	check := func() {
		for k, e := range []ustack.EndPoint{ses[0], ces[0]} {
			for _, d := range drain(e) {
				if w := msg(got[k], []string{"c", "s"}[k]); d.GetData() != w {
					vrt.Fail("message %d: %q delivered, want %q", got[k], d.GetData(), w)
				}
				got[k]++
			}
		}
	}
	for i := 0; i < total; i++ {
		send(ces[0], c.conns[0], msg(i, "c"))
		send(ses[0], s.conns[0], msg(i, "s"))
		if mode == 0 || i%37 == 0 {
			vrt.ResetBudget()
			vrt.Quiesce()
			check()
		}
		if i%500 == 0 {
			vrt.Sleep(second)
		}
	}
	vrt.Quiesce()
	check()
	if got[0] != total || got[1] != total {
		vrt.Fail("%d and %d messages delivered, %d sent", got[0], got[1], total)
	}
	if len(s.closed)+len(c.closed) != 0 {
		vrt.Fail("a connection was closed")
	}
	vrt.Count("traces", int64(2*total))
	vrt.Count("states", int64(2*total))
	vrt.Outcome(fmt.Sprint(kind, mode))
}

func scaleEndpoints() {
	kind := vrt.Choose(2)
	off := []int{0, 1, 200, 65500}[vrt.Choose(4)]
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("%s, sessions from %d", netName(kind), off) })
	const n = 60
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, off+i)
	}
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", l), epsFor("c", l)
	s, c := twoStacks(kind, 64, mk, ses, ces)
	on := func(i int) bool { return true }
	check := func(what string) {
		for k := range ces {
			vrt.ResetBudget()
			send(ces[k], c.conns[0], fmt.Sprint("own ", k))
			sendTo(ces[k], c.conns[0], fmt.Sprint("to ", k), off+(k*7+3)%n)
			vrt.Quiesce()
		}
		for k := range ses {
			want := map[string]bool{}
			if on(k) {
				want[fmt.Sprint("own ", k)] = true
				for j := range ces {
					if (j*7+3)%n == k {
						want[fmt.Sprint("to ", j)] = true
					}
				}
			}
			g := drain(ses[k])
			if len(g) != len(want) {
				vrt.Fail("%s: endpoint %d got %s, want %v", what, k, showEpds(g), want)
			}
			for _, d := range g {
				if !want[d.GetData().(string)] {
					vrt.Fail("%s: endpoint %d got %s, want %v", what, k, showEpds(g), want)
				}
			}
			send(ses[k], s.conns[0], fmt.Sprint("back ", k))
		}
		vrt.Quiesce()
		for k := range ces {
			if on(k) {
				checkStrings(drain(ces[k]), []string{fmt.Sprint("back ", k)}, fmt.Sprint(what, ": endpoint ", k))
			} else {
				checkStrings(drain(ces[k]), nil, fmt.Sprint(what, ": endpoint ", k))
			}
		}
	}
	check("all")
	for k := range ses {
		if k%3 == 1 {
			s.u.DeleteEndPoint(ses[k])
		}
	}
	on = func(i int) bool { return i%3 != 1 }
	check("some deleted")
	for k := range ses {
		// what it queued while it was deleted is sent when it is added again
		vrt.TryRecv(ses[k].GetTxChannel())
	}
	for k := range ses {
		if k%3 == 1 {
			s.u.AddEndPoint(ses[k])
		}
	}
	vrt.Quiesce()
	on = func(i int) bool { return true }
	check("added again")
	vrt.Count("traces", 3*n)
	vrt.Outcome(fmt.Sprint(kind, off))
}

func scaleReference() {
	what := vrt.Choose(9)
	vrt.SchedOff()
	if what < 7 {
		q := []int{0, 1, 511, 512, 513, 600, -1}[what]
		vrt.SetCase(func() string { return fmt.Sprintf("queue size %d (-1 default), 1200 objects each way", q) })
		a := newRefEnd("a", true, "x", q)
		b := newRefEnd("b", false, "x", q)
		vrt.Quiesce()
		const total = 1200
		var want [2][]any
		for k := 0; k < 2; k++ {
			for i := 0; i < total; i++ {
				want[k] = append(want[k], &rec{N: i})
			}
		}
		// unread: everything waits in queues and channels, nothing is lost
		done := 0
		for k, e := range []*refEnd{a, b} {
			k, e := k, e
			vrt.GoNamed("sender", func() {
				for _, o := range want[k] {
					send(e.ep, e.conn(), o)
				}
				done++
			})
		}
		var got [2][]ustack.EndPointData
		for i := 0; i < 8; i++ {
			vrt.ResetBudget()
			vrt.Quiesce()
			got[0] = append(got[0], drain(b.ep)...)
			got[1] = append(got[1], drain(a.ep)...)
		}
		if done != 2 {
			vrt.Fail("a sender is stuck")
		}
		checkObjs(got[0], want[0], "client")
		checkObjs(got[1], want[1], "server")
		vrt.Outcome(fmt.Sprint("queue ", q))
		return
	}
	if what == 7 {
		const n = 70
		vrt.SetCase(func() string { return fmt.Sprintf("%d addresses", n) })
		var as, bs []*refEnd
		for i := 0; i < n; i++ {
			as = append(as, newRefEnd(fmt.Sprint("a", i), true, fmt.Sprint("addr", i), -1))
		}
		for i := n - 1; i >= 0; i-- {
			bs = append(bs, newRefEnd(fmt.Sprint("b", i), false, fmt.Sprint("addr", i), -1))
		}
		vrt.Quiesce()
		vrt.ResetBudget()
		var os []any
		for i, a := range as {
			o := &rec{N: i}
			os = append(os, o)
			send(a.ep, a.conn(), o)
			send(bs[n-1-i].ep, bs[n-1-i].conn(), o)
		}
		vrt.Quiesce()
		for i, a := range as {
			checkObjs(drain(a.ep), os[i:i+1], "server")
			checkObjs(drain(bs[n-1-i].ep), os[i:i+1], "client")
		}
		vrt.Outcome("addresses")
		return
	}
	vrt.SetCase(func() string { return "70 restarts of one side" })
	a := newRefEnd("a", true, "x", 4)
	b := newRefEnd("b", false, "x", 4)
	vrt.Quiesce()
	for i := 0; i < 70; i++ {
		vrt.ResetBudget()
		o := []any{&rec{N: i}, &rec{N: -i}}
		send(a.ep, a.conn(), o[0])
		send(b.ep, b.conn(), o[1])
		vrt.Quiesce()
		checkObjs(drain(b.ep), o[:1], "client")
		checkObjs(drain(a.ep), o[1:], "server")
		e := a
		if i%3 == 1 {
			e = b
		}
		e.n.u.DeleteTransport(e.t)
		vrt.Quiesce()
		if !e.conn().Closed() {
			vrt.Fail("restart %d: the connection of the stopped side is not closed", i)
		}
		e.n.u.AddTransport(e.t)
		vrt.Quiesce()
	}
	vrt.Outcome("restarts")
}

func scaleHeartbeat() {
	touts := []int{1, 2, 3, 5, 10, 29, 30, 31, 59, 60, 61, 100, 127, 128, 255, 256, 257, 1000, 3600}
	if k := vrt.Choose(len(touts) + 1); k < len(touts) {
		to := touts[k]
		rounds := vrt.Choose(3)
		vrt.SchedOff()
		beat := framed([]byte{0x83})
		vrt.SetCase(func() string {
			return fmt.Sprintf("timeout %d s, %d heartbeats just in time, then silence", to, rounds)
		})
		n := newNode("n", 64, ustack.NewStringCodec(), ustack.NewHeartbeat().SetOption("TimeoutInSecond", to).SetOption("IntervalInSecond", 7), ustack.NewFrameDecoder())
		n.u.AddEndPoint(ustack.NewEndPoint("e", 0)).AddTransport(newTransport(0, "s", true, netAddr(0))).Run()
		vrt.Quiesce()
		vrt.Sleep(second / 4)
		p := rawDial(0)
		vrt.Quiesce()
		last := vrt.Now()
		for i := 0; i < rounds; i++ {
			for vrt.Now()-last < int64(to)*second-second/10 {
				d := int64(to)*second - second/10 - (vrt.Now() - last)
				if d > 50*second {
					d = 50 * second
				}
				vrt.Sleep(d)
				vrt.ResetBudget()
			}
			p.Write(beat)
			vrt.Quiesce()
			last = vrt.Now()
			if len(n.lost) != 0 || len(n.closed) != 0 {
				vrt.Fail("lost after %d heartbeats", i)
			}
		}
		for vrt.Now()-last < int64(to)*second-second/100 {
			d := int64(to)*second - second/100 - (vrt.Now() - last)
			if d > 50*second {
				d = 50 * second
			}
			vrt.Sleep(d)
			vrt.ResetBudget()
			if len(n.lost) != 0 {
				vrt.Fail("lost %.1f s after the last heartbeat", float64(vrt.Now()-last)/1e9)
			}
		}
		vrt.Sleep(second + second/10)
		vrt.Quiesce()
		if len(n.lost) != 1 || len(n.closed) != 1 || !p.Peer.IsClosed() {
			vrt.Fail("%.1f s after the last heartbeat: %d lost events, %d closed events", float64(vrt.Now()-last)/1e9, len(n.lost), len(n.closed))
		}
		vrt.Sleep(3 * second)
		vrt.Quiesce()
		if len(n.lost) != 1 {
			vrt.Fail("%d lost events", len(n.lost))
		}
		vrt.Count("traces", 1)
		vrt.Outcome(fmt.Sprint(to, rounds))
		return
	}
	nc := []int{15, 17, 40}[vrt.Choose(3)]
	mod := []int{10, 1, 2}[vrt.Choose(3)]
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("%d connections, last heartbeats at %d different times", nc, mod) })
	n := newNode("n", 64, ustack.NewStringCodec(), ustack.NewHeartbeat().SetOption("TimeoutInSecond", 3), ustack.NewFrameDecoder())
	n.u.AddEndPoint(ustack.NewEndPoint("e", 0)).AddTransport(newTransport(0, "s", true, netAddr(0))).Run()
	vrt.Quiesce()
	vrt.Sleep(second / 4)
	var ps []*vnet.VConn
	for i := 0; i < nc; i++ {
		ps = append(ps, rawDial(0))
		vrt.Quiesce()
	}
	conns := append([]ustack.TransportConnection{}, n.conns...)
	t0 := vrt.Now()
	for tick := 1; tick <= 16; tick++ {
		vrt.Sleep(second)
		vrt.ResetBudget()
		for i, p := range ps {
			if tick <= i%mod {
				p.Write(framed([]byte{0x83}))
			}
		}
		vrt.Quiesce()
		el := (vrt.Now() - t0) / second
		lost := map[ustack.TransportConnection]int{}
		for _, c := range n.lost {
			lost[c]++
		}
		for i, c := range conns {
			age := int(el) - i%mod
			if age < 3 && lost[c] != 0 || age > 4 && lost[c] != 1 || lost[c] > 1 {
				vrt.Fail("connection %d, last heartbeat %d s ago: lost events %d", i, age, lost[c])
			}
		}
	}
	vrt.Count("traces", 1)
	vrt.Outcome(fmt.Sprint("connections ", nc, mod))
}

func scaleFunctions() {
	fwd := vrt.Choose(2) == 1
	k := 4 + vrt.Choose(4)
	vrt.SchedOff()
	for mask := 0; mask < 1<<k; mask++ {
		for up := 0; up < 2; up++ {
			vrt.ResetBudget()
			var calls []int
			dirs := map[bool]bool{}
			var fns []func(ustack.Context, bool) bool
			for i := 0; i < k; i++ {
				i := i
				fns = append(fns, func(_ ustack.Context, toUpper bool) bool {
					calls = append(calls, i)
					dirs[toUpper] = true
					return mask>>i&1 == 1
				})
			}
			vrt.SetCase(func() string {
				return fmt.Sprintf("forwarder %v, %d functions with answers %0*b (the first is the lowest bit), received %v", fwd, k, k, mask, up == 1)
			})
			var dp ustack.DataProcessor
			if fwd {
				var l []ustack.ForwardFn
				for _, f := range fns {
					l = append(l, f)
				}
				dp = ustack.NewForwarder(l...)
			} else {
				var l []ustack.FilterFn
				for _, f := range fns {
					l = append(l, f)
				}
				dp = ustack.NewFilter(l...)
			}
			r := newRig(64, dp)
			n := 0
			if up == 1 {
				r.recv(r.conn, []byte{1, 2})
				n = len(r.takeGot())
			} else {
				r.sendBuf(r.conn, []byte{1, 2})
				n = len(r.takeWire())
			}
			want := b2i((mask != 0) != fwd)
			if n != want {
				vrt.Fail("%d messages passed, want %d", n, want)
			}
			nc := k
			for i := 0; i < k; i++ {
				if mask>>i&1 == 1 {
					nc = i + 1
					break
				}
			}
			if len(calls) != nc {
				vrt.Fail("functions consulted: %v, want the first %d", calls, nc)
			}
			for i, c := range calls {
				if i != c {
					vrt.Fail("functions consulted: %v", calls)
				}
			}
			if len(dirs) != 1 || !dirs[up == 1] {
				vrt.Fail("wrong direction told")
			}
			vrt.Count("traces", 1)
			vrt.Count("states", 1)
		}
	}
	vrt.Outcome(fmt.Sprint(fwd, k))
}

func scaleObservers() {
	nl := []int{0, 1, 2, 9, 40}[vrt.Choose(5)]
	ne := []int{0, 1, 2, 9, 40}[vrt.Choose(5)]
	run := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("%d listeners, %d endpoints, started %v", nl, ne, run) })
	u := ustack.NewUStack()
	cnt := make([]int, nl+ne+1)
	var lastType, lastN int
	var src any
	saw := func(i int, e ustack.Event) {
		if e.Type != lastType || e.Data != lastN || e.Source != src {
			return // about the registrations
		}
		cnt[i]++
	}
	for i := 0; i < nl; i++ {
		i := i
		u.SetEventListener(func(e ustack.Event) { saw(i, e) })
	}
	var eps []ustack.EndPoint
	for i := 0; i < ne; i++ {
		i := i
		e := ustack.NewEndPoint("same", i+1)
		e.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) { saw(nl+i, ev) })
		eps = append(eps, e)
		u.AddEndPoint(e)
	}
	if run {
		u.Run()
		vrt.Quiesce()
	}
	extra := ustack.NewEndPoint("extra", 999)
	extra.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) { saw(nl+ne, ev) })
	for k := 0; k < 300; k++ {
		vrt.ResetBudget()
		lastType, lastN, src = k%12, k, &cnt
		for i := range cnt {
			cnt[i] = 0
		}
		u.PublishEvent(ustack.Event{Type: lastType, Source: src, Data: lastN})
		for i, c := range cnt {
			w := 1
			if i == nl+ne {
				w = b2i(k%4 >= 2)
			}
			if c != w {
				vrt.Fail("event %d reached observer %d %d times, want %d", k, i, c, w)
			}
		}
		if k%4 == 1 {
			u.AddEndPoint(extra)
		}
		if k%4 == 3 {
			u.DeleteEndPoint(extra)
		}
		vrt.Quiesce()
	}
	vrt.Count("traces", 300)
	vrt.Outcome(fmt.Sprint(nl, ne, run))
}

func scaleListener() {
	mode := vrt.Choose(4)
	late := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("replacement mode %d, listener set late %v", mode, late) })
	ep := ustack.NewEndPoint("e", 0)
	const total = 2000
	var got []int
	busy := false
	gen, want := 0, 0
	var mk func(g int) func(ustack.EndPoint, ustack.EndPointData)
	mk = func(g int) func(ustack.EndPoint, ustack.EndPointData) {
		return func(e ustack.EndPoint, d ustack.EndPointData) {
			if busy {
				vrt.Fail("calls overlap")
			}
			busy = true
			vrt.Yield()
			i := d.GetData().(int)
			got = append(got, i)
			if e != ep {
				vrt.Fail("called with another endpoint")
			}
			if g != want {
				vrt.Fail("message %d is passed to listener %d, the current one is %d", i, g, want)
			}
			if mode == 1 || mode == 2 && i%97 == 0 {
				gen++
				want = gen
				ep.SetDataListener(mk(gen))
			}
			busy = false
		}
	}
	if !late {
		ep.SetDataListener(mk(0))
	}
	vrt.GoNamed("source", func() {
		for i := 0; i < total; i++ {
			vrt.Send(ep.GetRxChannel(), ustack.NewEndPointData().SetData(i))
		}
	})
	if late {
		vrt.Quiesce()
		ep.SetDataListener(mk(0))
	}
	for i := 0; i < 4; i++ {
		vrt.Quiesce()
		vrt.ResetBudget()
		if mode == 3 {
			gen++
			want = gen
			ep.SetDataListener(mk(gen))
		}
	}
	if len(got) != total {
		vrt.Fail("%d of %d messages passed", len(got), total)
	}
	for i, g := range got {
		if i != g {
			vrt.Fail("message %d passed as number %d", g, i)
		}
	}
	vrt.Count("traces", total)
	vrt.Outcome(fmt.Sprint(mode, late))
}

func scaleRegistry() {
	run := vrt.Choose(2) == 1
	order := vrt.Choose(6)
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("started %v, deletion order %d", run, order) })
	const n = 60
	u := ustack.NewUStack()
	var eps []ustack.EndPoint
	var tps []*ftran
	nev := 0
	u.SetEventListener(func(e ustack.Event) { nev++ })
	var le, lt []int
	id := map[any]int{}
	for i := 0; i < n; i++ {
		e, t := ustack.NewEndPoint("x", i), newFtran("x")
		eps, tps = append(eps, e), append(tps, t)
		id[e], id[t] = i, i
		u.AddEndPoint(e)
		u.AddTransport(t)
		le, lt = append(le, i), append(lt, i)
		if run && i == n/2 {
			u.Run()
			vrt.Quiesce()
		}
	}
	check := func(what string) {
		ge, gt := u.GetEndPoint(), u.GetTransport()
		if len(ge) != len(le) || len(gt) != len(lt) {
			vrt.Fail("%s: %d endpoints and %d transports listed, want %d and %d", what, len(ge), len(gt), len(le), len(lt))
		}
		for i := range ge {
			if id[ge[i]] != le[i] {
				vrt.Fail("%s: endpoint %d at position %d, want %d", what, id[ge[i]], i, le[i])
			}
		}
		for i := range gt {
			if id[gt[i]] != lt[i] {
				vrt.Fail("%s: transport %d at position %d, want %d", what, id[gt[i]], i, lt[i])
			}
		}
	}
	if nev != 2*n {
		vrt.Fail("%d events for %d additions", nev, 2*n)
	}
	check("added")
	idx := func(k int) int {
		switch order {
		case 0:
			return k
		case 1:
			return n - 1 - k
		case 2:
			return k * 7 % n
		case 3:
			return (k*11 + 5) % n
		case 4:
			return (n/2 + k) % n
		}
		return (k*13 + n - 1) % n
	}
	drop := func(l []int, x int) []int {
		for i := range l {
			if l[i] == x {
				return append(append([]int{}, l[:i]...), l[i+1:]...)
			}
		}
		return l
	}
	nev = 0
	for k := 0; k < n; k++ {
		vrt.ResetBudget()
		x := idx(k)
		u.DeleteEndPoint(eps[x])
		u.DeleteTransport(tps[x])
		u.DeleteTransport(tps[x])
		le, lt = drop(le, x), drop(lt, x)
		vrt.Quiesce()
		check(fmt.Sprint("after deleting ", x))
		if k%5 == 4 {
			u.AddEndPoint(eps[x])
			u.AddEndPoint(eps[x])
			u.AddTransport(tps[x])
			le, lt = append(le, x), append(lt, x)
			vrt.Quiesce()
			check(fmt.Sprint("after adding ", x, " again"))
		}
		if want := 2*(k+1) + 2*((k+1)/5); nev != want {
			vrt.Fail("%d events, want %d", nev, want)
		}
	}
	vrt.Count("traces", n)
	vrt.Outcome(fmt.Sprint(run, order))
}

func scaleEcho() {
	kind := vrt.Choose(3)
	vrt.SchedOff()
	total := 3000
	vrt.SetCase(func() string {
		return []string{"echo over TCP", "echo over Unix", "loopback"}[kind] + ", 3000 messages"
	})
	if kind == 2 {
		e1, e2 := ustack.NewEndPoint("e", 1), ustack.NewEndPoint("f", 2)
		n := newNode("n", 0, ustack.NewBytesCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder(), ustack.NewLoopback())
		n.u.AddEndPoint(e1).AddEndPoint(e2).Run()
		vrt.Quiesce()
		for i := 0; i < total; i++ {
			vrt.ResetBudget()
			m := fill(i%2040+1, i)
			e, o := e1, e2
			if i%2 == 1 {
				e, o = e2, e1
			}
			to := e
			if i%3 == 0 {
				sendTo(e, nil, m, o.GetSession())
				to = o
			} else {
				send(e, nil, m)
			}
			vrt.Quiesce()
			g := drain(to)
			if len(g) != 1 || !bytes.Equal(g[0].GetData().([]byte), m) || len(drain(e1))+len(drain(e2)) != 0 {
				vrt.Fail("message %d of %d bytes: %d came back", i, len(m), len(g))
			}
		}
		vrt.Count("traces", int64(total))
		vrt.Outcome("loopback")
		return
	}
	ep := ustack.NewEndPoint("e", 0)
	n := newNode("n", 0, ustack.NewBytesCodec(), ustack.NewEcho(), ustack.NewSessionResolver(), ustack.NewFrameDecoder())
	n.u.AddEndPoint(ep).AddTransport(newTransport(kind, "s", true, netAddr(kind))).Run()
	vrt.Quiesce()
	ps := []*vnet.VConn{rawDial(kind), rawDial(kind)}
	vrt.Quiesce()
	seen := []int{0, 0}
	for i := 0; i < total; i++ {
		vrt.ResetBudget()
		k := i * i % 2
		// the session of the stack that sends back: none is set, so 0
		m := framed(append([]byte{0, 0, 0, 0}, fill(i%2040+1, i)...))
		ps[k].Write(m)
		vrt.Quiesce()
		w := ps[k].Pending()[seen[k]:]
		if !bytes.Equal(w, m) {
			vrt.Fail("message %d of %d bytes: %d bytes came back", i, len(m), len(w))
		}
		seen[k] += len(w)
		if len(ps[1-k].Pending()) != seen[1-k] {
			vrt.Fail("message %d came back on another connection", i)
		}
	}
	if l := drain(ep); len(l) != 0 {
		vrt.Fail("%d messages delivered upward", len(l))
	}
	vrt.Count("traces", int64(total))
	vrt.Outcome(netName(kind))
}

func scaleSnapshots() {
	nh := []int{2, 16, 127, 128, 129, 255, 256, 257, 300}[vrt.Choose(9)]
	how := vrt.Choose(3)
	order := vrt.Choose(4)
	capa := []int{16, 255, 256, 70000}[vrt.Choose(4)]
	vrt.SchedOff()
	if capa > 256 && nh > 129 {
		return
	}
	vrt.SetCase(func() string {
		return fmt.Sprintf("capacity %d, %d snapshots of the %s, written in order %d", capa, nh, []string{"source", "newest", "any"}[how], order)
	})
	vrt.ResetBudget()
	src := ustack.UBufAllocWithHeadReserved(capa, 4)
	base := fill(capa/2, 3)
	src.Write(base)
	hs := []*ustack.UBuf{src}
	for i := 0; i < nh; i++ {
		of := src
		switch how {
		case 1:
			of = hs[len(hs)-1]
		case 2:
			of = hs[i*7%len(hs)]
		}
		t := ustack.UBufSnapshotTypeCopyOnWrite
		if i%11 == 10 {
			t = ustack.UBufSnapshotTypeCopyDirectly
		}
		hs = append(hs, ustack.UBufMakeSnapshot(of, t))
	}
	want := make([][]byte, len(hs))
	for i := range want {
		want[i] = base
	}
	check := func(what string, only ...int) {
		l := only
		if l == nil {
			for i := range hs {
				l = append(l, i)
			}
		}
		for _, i := range l {
			if !bytes.Equal(peekAll(hs[i]), want[i]) {
				vrt.Fail("%s: handle %d holds other bytes than its own operations imply", what, i)
			}
		}
	}
	check("snapshots taken")
	for k := range hs {
		vrt.ResetBudget()
		i := k
		switch order {
		case 1:
			i = len(hs) - 1 - k
		case 2:
			i = (k*5 + 1) % len(hs)
		case 3:
			i = (k*3 + len(hs)/2) % len(hs)
		}
		switch (i + k) % 3 {
		case 0:
			hs[i].WriteByte(byte(i))
			want[i] = append(append([]byte{}, want[i]...), byte(i))
		case 1:
			hs[i].WriteHeadByte(byte(i))
			want[i] = append([]byte{byte(i)}, want[i]...)
		case 2:
			hs[i].Read(make([]byte, 3))
			hs[i].WriteHeadU16(uint16(i))
			want[i] = append([]byte{byte(i >> 8), byte(i)}, want[i][3:]...)
		}
		if len(hs) < 40 || k%16 == 0 {
			check(fmt.Sprint("after writing to ", i))
		} else {
			check(fmt.Sprint("after writing to ", i), i, 0, len(hs)-1, (i+1)%len(hs))
		}
	}
	check("all written")
	vrt.Count("traces", 1)
	vrt.Count("states", int64(len(hs)))
	vrt.Outcome(fmt.Sprint(nh, how, order, capa))
}

func scaleOptions() {
	kinds := cfgKinds()
	kind := kinds[vrt.Choose(len(kinds))]
	vrt.SchedOff()
	vrt.SetCase(func() string { return kind + ": 300 options" })
	type opts struct {
		set func(string, any)
		get func(string) any
	}
	mk := func() *opts {
		switch kind {
		case "endpoint", "endpointdata":
			return nil
		case "stack":
			u := ustack.NewUStack()
			return &opts{func(n string, v any) { u.SetOption(n, v) }, u.GetOption}
		case "context":
			c := ustack.NewUStackContext()
			return &opts{func(n string, v any) { c.SetOption(n, v) }, c.GetOption}
		case "feature":
			f := ustack.NewFeatBase()
			return &opts{func(n string, v any) { f.SetOption(n, v) }, f.GetOption}
		case "procbase":
			p := ustack.NewProcBase()
			return &opts{func(n string, v any) { p.SetOption(n, v) }, p.GetOption}
		}
		if t := tranByName(kind); t != nil {
			return &opts{func(n string, v any) { t.SetOption(n, v) }, t.GetOption}
		}
		p := procByName(kind)
		return &opts{func(n string, v any) { p.SetOption(n, v) }, p.GetOption}
	}
	a, b := mk(), mk()
	if a == nil {
		vrt.Outcome(kind + ": no options")
		return
	}
	for i := 0; i < 300; i++ {
		vrt.ResetBudget()
		a.set(fmt.Sprint("option ", i), i)
		if i%3 == 0 {
			a.set(fmt.Sprint("option ", i/2), -i)
		}
	}
	for i := 0; i < 300; i++ {
		vrt.ResetBudget()
		want := i
		for j := 0; j < 300; j++ {
			if j%3 == 0 && j/2 == i && j >= i {
				want = -j
			}
		}
		if g := a.get(fmt.Sprint("option ", i)); g != want {
			vrt.Fail("option %d is %v, last set to %d", i, g, want)
		}
		if g := b.get(fmt.Sprint("option ", i)); g != nil {
			vrt.Fail("option %d of another object is %v", i, g)
		}
	}
	vrt.Count("traces", 1)
	vrt.Outcome(kind)
}

func tranByName(kind string) ustack.Transport {
	switch kind {
	case "tcp":
		return ustack.NewTCPTransport("t")
	case "unix", "uds":
		return ustack.NewUDSTransport("t")
	case "reference":
		return ustack.NewReferenceTransport("t")
	}
	return nil
}

func scaleGarbage() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(3)
	c := []codecT{codecs()[2], codecs()[3]}[vrt.Choose(2)]
	vrt.SchedOff()
	n := 0
	vrt.SetCase(func() string { return fmt.Sprintf("%s, %s codec, mode %d, step %d", netName(kind), c.name, mode, n) })
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{c.mk(), ustack.NewSessionResolver(), ustack.NewHeartbeat(), ustack.NewStatCounter(), ustack.NewFrameDecoder()}
	}
	ses, ces := epsFor("s", []int{1}), epsFor("c", []int{1})
	s, cl := twoStacks(kind, 128, mk, ses, ces)
	good := func() {
		vrt.ResetBudget()
		m := rec{N: n, S: fmt.Sprint("message ", n)}
		send(ces[0], cl.conns[0], m)
		send(ses[0], s.conns[0], m)
		vrt.Quiesce()
		for k, e := range []ustack.EndPoint{ses[0], ces[0]} {
			g := drain(e)
			if len(g) != 1 || !c.same(g[0].GetData(), m) {
				vrt.Fail("the good connection delivers %s at the %s, want message %d", showEpds(g), []string{"server", "client"}[k], n)
			}
		}
	}
	// frames whose content decodes as nothing
	bad := func(i int) []byte {
		p := fill(i%120, i)
		if len(p) > 0 {
			p[0] = byte(i) | 0x20
		}
		return framed(p)
	}
	var p *vnet.VConn
	dial := func() {
		x, err := vnet.Dial(netName(kind), netAddr(kind))
		if err != nil {
			vrt.Fail("connection refused: %v", err)
		}
		p = x.(*vnet.VConn)
	}
	if mode == 0 {
		dial()
		for n = 0; n < pick(5000, 100000); n++ {
			p.Write(bad(n))
			if n%50 == 0 {
				vrt.Quiesce()
				good()
			}
		}
	} else {
		for n = 0; n < pick(200, 1000); n++ {
			dial()
			for k := 0; k < n%5; k++ {
				p.Write(bad(n + k))
			}
			b := bad(n)
			if n%7 == 3 {
				b = []byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3}
			}
			p.Write(b[:len(b)-n%3])
			if mode == 2 {
				p.Close()
			}
			if n%20 == 0 || mode == 1 && n%5 == 0 {
				vrt.Quiesce()
				good()
			}
		}
	}
	vrt.Quiesce()
	good()
	for _, x := range s.closed {
		if x == s.conns[0] {
			vrt.Fail("the good connection was closed")
		}
	}
	vrt.Count("traces", int64(n))
	vrt.Outcome(fmt.Sprint(kind, mode, c.name))
}

func scaleCodec() {
	cs := codecs()
	c := cs[vrt.Choose(len(cs))]
	down := vrt.Choose(2) == 1
	vrt.SchedOff()
	const mtu = 200000
	a, b := newRig(mtu, c.mk(), ustack.NewFrameDecoder()), newRig(mtu, c.mk(), ustack.NewFrameDecoder())
	sizes := around(131073, powers(131072)...)
	if down {
		for i, j := 0, len(sizes)-1; i < j; i, j = i+1, j-1 {
			sizes[i], sizes[j] = sizes[j], sizes[i]
		}
	}
	var sent, got []any
	for _, n := range sizes {
		if n == 0 {
			continue
		}
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s codec, content size %d, descending %v", c.name, n, down) })
		var m any
		switch c.name {
		case "bytes":
			m = fill(n, n)
		case "string":
			m = string(fill(n, n))
		case "generic":
			m = n * 7919
		default:
			m = rec{N: n, S: strings.Repeat("s", n/2), B: fill(n/3, n)}
		}
		a.send(a.conn, m, nil)
		w := a.takeWire()
		if len(w) != 1 {
			vrt.Fail("not sent")
		}
		b.recv(b.conn, w[0])
		g := b.takeGot()
		if len(g) != 1 {
			vrt.Fail("%d messages delivered", len(g))
		}
		sent, got = append(sent, m), append(got, g[0].msg)
		for i := range got {
			if !c.same(got[i], sent[i]) {
				vrt.Fail("message %d differs from the one that was sent", i)
			}
		}
		vrt.Count("traces", 1)
		vrt.Count("states", int64(len(got)))
	}
	vrt.Outcome(fmt.Sprint(c.name, down))
}
