package main

import (
	"fmt"
	"net"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

func init() {
	scenario(&Scenario{Name: "transport/server-histories", Props: []string{"C16"}, Shards: [2]int{8, 8}, Body: tranServerHist,
		What: "every history of 5 (thorough 7) operations {add, delete, connect, peer closes, send, 1 s passes} on a TCP/Unix server transport of a running stack"})
	scenario(&Scenario{Name: "transport/client-histories", Props: []string{"C16", "C17"}, Shards: [2]int{8, 8}, Body: tranClientHist,
		What: "every history of 5 (thorough 7) operations {add, delete, server up, server down, server drops the connection, 1 s passes} on a TCP/Unix client transport of a running stack"})
	scenario(&Scenario{Name: "transport/direct-histories", Props: []string{"C16"}, Shards: [2]int{8, 8}, Body: tranDirectHist,
		What: "every history of 5 (thorough 7) operations {Run, Stop, NextConnection in a new goroutine, connect, 1 s passes} on a bare TCP/Unix transport, server or client"})
	scenario(&Scenario{Name: "transport/readdress", Props: []string{"C16"}, Shards: [2]int{8, 8}, Body: tranReaddress,
		What: "every history of 6 (thorough 8) operations {start, stop, give another address, also while running; start and stop another server at the second address} on TCP/Unix servers; after each, exactly the addresses they were started with are in use and connections reach the right one; the same with a client"})
	scenario(&Scenario{Name: "transport/role", Props: []string{"C16", "C26"}, Shards: [2]int{4, 8}, Body: tranRole,
		What: "every history of 7 (thorough 9) operations {start, stop, become server or client, also while running; 2 s pass} on a bare TCP/Unix transport: it serves or connects as it was last told to when it was started, until it is stopped"})
	scenario(&Scenario{Name: "transport/open-close", Props: []string{"C16"}, Shards: [2]int{8, 8}, Body: tranOpenClose,
		What: "every history of 8 (thorough 10) operations {connect, end the k-th of the up to 5 open connections} on a TCP/Unix server, ended by the peer, by the application or alternately; the others go on, and deleting the transport ends them all"})
	scenario(&Scenario{Name: "transport/stop-server", Props: []string{"C16"}, Bound: [2]int{3, 4}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: tranStopServer,
		What: "server transport deleted (once or twice, then possibly re-added) while it starts listening, accepts and hands over up to 2 connections; all schedules within the bound"})
	scenario(&Scenario{Name: "transport/stop-client", Props: []string{"C16"}, Bound: [2]int{3, 4}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: tranStopClient,
		What: "client transport deleted (and possibly re-added) while it dials, retries, hands over or runs out of retries; all schedules within the bound"})
	scenario(&Scenario{Name: "transport/run-stop-race", Props: []string{"C16"}, Bound: [2]int{3, 4}, Cap: [2]int{400000, 0}, Shards: [2]int{8, 8}, Body: tranRunStop,
		What: "three goroutines call Run, Stop and NextConnection on one bare transport; all schedules within the bound"})
	scenario(&Scenario{Name: "transport/restart", Props: []string{"C16"}, Bound: [2]int{2, 3}, Cap: [2]int{4000000, 0}, Shards: [2]int{8, 8}, Body: tranRestart,
		What: "a transport with a live connection is deleted and re-added at once: leftovers of the previous run must not disturb the new one; all schedules within the bound"})
	scenario(&Scenario{Name: "retry/timeline", Props: []string{"C17"}, Shards: [2]int{8, 8}, Body: retryTimeline,
		What: "TCP/Unix client with retry count 0..4 (thorough 0..6), interval 1..3 s; the server appears at every quarter of an interval or never, and stays or vanishes again"})
	scenario(&Scenario{Name: "retry/defaults", Props: []string{"C17"}, Shards: [2]int{2, 2}, Body: retryDefaults,
		What: "default options: server appears after 0, 100.5, 178.5, 179.5 s or never"})
	scenario(&Scenario{Name: "retry/large-values", Props: []string{"C17"}, Shards: [2]int{2, 2}, Body: retryLarge,
		What: "intervals of 30 s to 2^20 s and up to 70000 attempts; the server appears between the last two attempts, before the last, or never"})
	scenario(&Scenario{Name: "retry/no-answer", Props: []string{"C17"}, Shards: [2]int{2, 2}, Body: retryBlackhole,
		What: "dial attempts that get no answer at all time out and are retried"})
	scenario(&Scenario{Name: "retry/again", Props: []string{"C17"}, Shards: [2]int{2, 2}, Body: retryAgain,
		What: "after giving up, or after a connection, the transport is deleted, reconfigured and added again"})
	scenario(&Scenario{Name: "retry/race", Props: []string{"C17"}, Bound: [2]int{3, 4}, Shards: [2]int{8, 8}, Body: retryRace,
		What: "the server stack starts at the very moment of each retry; all schedules within the bound"})
}

func netOf(kind int, host string) string {
	if kind == 0 {
		return "127.0.0.1:" + map[string]string{"main": "4000", "warm": "4001"}[host]
	}
	return "/tmp/" + map[string]string{"main": "u", "warm": "w"}[host] + ".sock"
}

// warmUp starts and stops another transport, so that whatever a stack sets up
// once is there, and returns the number of goroutines then alive.
func warmUp(n *node2, kind int) int {
	t := newTransport(kind, "warm", true, netOf(kind, "warm"))
	n.u.AddTransport(t)
	vrt.Quiesce()
	p, err := vnet.Dial(netName(kind), netOf(kind, "warm"))
	if err != nil {
		vrt.Fail("transport does not listen: %v", err)
	}
	vrt.Quiesce()
	n.u.DeleteTransport(t)
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	p.Close()
	vrt.Quiesce()
	n.conns, n.closed = nil, nil
	return len(vrt.Live())
}

// settled checks that a stopped transport left nothing behind. ends are the
// transport's ends of its connections.
func settled(what string, kind int, server bool, ends []*vnet.VConn, base int) {
	for i, c := range ends {
		if !c.IsClosed() {
			vrt.Fail("%s: connection %d of the stopped transport is still open", what, i)
		}
	}
	if server {
		for _, l := range vnet.N().Listeners {
			if l.Open() && l.Addr().String() == netOf(kind, "main") {
				vrt.Fail("%s: the stopped transport still listens", what)
			}
		}
		if c, err := vnet.Dial(netName(kind), netOf(kind, "main")); err == nil {
			c.Close()
			vrt.Fail("%s: the address of the stopped transport still accepts connections", what)
		}
		if kind == 1 && vnet.FileExists(netOf(kind, "main")) {
			vrt.Fail("%s: the socket file of the stopped transport is left behind", what)
		}
	}
	if base >= 0 {
		if l := vrt.Live(); len(l) > base {
			vrt.Fail("%s: %d goroutines are left waiting: %v", what, len(l)-base, l)
		}
	}
}

// serverEnds lists the accepted ends of the connections to the main address.
func serverEnds(kind int) []*vnet.VConn {
	var l []*vnet.VConn
	for _, c := range vnet.N().Conns {
		if c.Server && c.LocalAddr().String() == netOf(kind, "main") {
			l = append(l, c)
		}
	}
	return l
}

func clientEnds(kind int) []*vnet.VConn {
	var l []*vnet.VConn
	for _, c := range vnet.N().Conns {
		if !c.Server && c.RemoteAddr().String() == netOf(kind, "main") {
			l = append(l, c)
		}
	}
	return l
}

// works checks that a running server transport gives full service.
func works(what string, n *node2, ep ustack.EndPoint, kind int, server bool) {
	k := len(n.conns)
	var peer *vnet.VConn
	c, err := vnet.Dial(netName(kind), netOf(kind, "main"))
	if err != nil {
		vrt.Fail("%s: the running transport does not accept connections: %v", what, err)
	}
	peer = c.(*vnet.VConn)
	vrt.Quiesce()
	if len(n.conns) != k+1 {
		vrt.Fail("%s: connection made to the running transport, %d announced", what, len(n.conns)-k)
	}
	exchange(what, ep, n.conns[k], peer)
	peer.Close()
	vrt.Quiesce()
}

// exchange checks that messages pass both ways between ep and the raw peer.
func exchange(what string, ep ustack.EndPoint, conn ustack.TransportConnection, peer *vnet.VConn) {
	drain(ep)
	had := len(peer.Peer.Wrote)
	peer.Write(framed([]byte("hello")))
	send(ep, conn, "back")
	vrt.Quiesce()
	checkStrings(drain(ep), []string{"hello"}, what+": endpoint")
	if w := string(peer.Peer.Wrote[had:]); w != string(framed([]byte("back"))) {
		vrt.Fail("%s: the peer received %q", what, w)
	}
}

func tranNode() (*node2, ustack.EndPoint) {
	n := newNode("n", 64, ustack.NewStringCodec(), ustack.NewFrameDecoder())
	ep := ustack.NewEndPoint("e", 0)
	n.u.AddEndPoint(ep).Run()
	vrt.Quiesce()
	return n, ep
}

func tranServerHist() {
	kind := vrt.Choose(2)
	stale := kind == 1 && vrt.Choose(2) == 1 // a stale socket file exists
	ops := []string{"add", "delete", "connect", "peer-closes", "send", "second"}
	depth := pick(5, 7)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("%s server, stale file %v, history %v", netName(kind), stale, h) })
	vrt.SchedOff()
	n, ep := tranNode()
	base := warmUp(n, kind)
	if stale {
		vnet.PutFile(netOf(kind, "main"))
	}
	t := newTransport(kind, "t", true, netOf(kind, "main"))
	on, ever := false, false
	var peers []*vnet.VConn
	closed := map[*vnet.VConn]bool{}
	for i := 0; i < depth; i++ {
		op := ops[vrt.Choose(len(ops))]
		h = append(h, op)
		switch op {
		case "add":
			n.u.AddTransport(t)
			on, ever = true, true
		case "delete":
			n.u.DeleteTransport(t)
			if on {
				for _, p := range peers {
					closed[p] = true
				}
			}
			on = false
		case "connect":
			k := len(n.conns)
			c, err := vnet.Dial(netName(kind), netOf(kind, "main"))
			vrt.Quiesce()
			if (err == nil) != on {
				vrt.Fail("connecting: error %v, transport running %v", err, on)
			}
			if on {
				peers = append(peers, c.(*vnet.VConn))
				k++
			}
			if len(n.conns) != k {
				vrt.Fail("%d new connections announced", len(n.conns)-k)
			}
		case "peer-closes":
			if len(peers) > 0 {
				p := peers[len(peers)-1]
				p.Close()
				closed[p] = true
			}
		case "send":
			for j, p := range peers {
				if !closed[p] {
					exchange("connection", ep, n.conns[j], p)
				} else {
					send(ep, n.conns[j], "lost")
				}
			}
		case "second":
			vrt.Sleep(second)
		}
		vrt.Quiesce()
		for j, p := range peers {
			if p.Peer.IsClosed() != closed[p] {
				vrt.Fail("after %s connection %d closed by the transport: %v, want %v", op, j, p.Peer.IsClosed(), closed[p])
			}
			if n.conns[j].Closed() != closed[p] {
				vrt.Fail("after %s connection %d reports closed %v, want %v", op, j, n.conns[j].Closed(), closed[p])
			}
		}
		if len(n.closed) != len(closed) {
			vrt.Fail("after %s: %d closed events, want %d", op, len(n.closed), len(closed))
		}
		vrt.Count("states", 1)
	}
	if on {
		works("at the end", n, ep, kind, true)
		n.u.DeleteTransport(t)
	}
	if stale && !ever {
		return
	}
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	settled("at the end", kind, true, serverEnds(kind), base)
	vrt.Count("traces", 1)
}

func tranClientHist() {
	kind := vrt.Choose(2)
	ops := []string{"add", "delete", "up", "down", "drop", "second"}
	depth := pick(5, 7)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("%s client, history %v", netName(kind), h) })
	vrt.SchedOff()
	n, ep := tranNode()
	base := warmUp(n, kind)
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", false, addr).SetOption("MaxRetryCount", 100)
	var lis *vnet.Lis
	on, connected := false, false
	made := 0
	for i := 0; i < depth; i++ {
		op := ops[vrt.Choose(len(ops))]
		h = append(h, op)
		dialing := on && !connected
		switch op {
		case "add":
			n.u.AddTransport(t)
			if !on {
				on = true
				connected = lis != nil
				if connected {
					made++
				}
			}
		case "delete":
			n.u.DeleteTransport(t)
			on, connected = false, false
		case "up":
			if lis == nil {
				l, err := vnet.Listen(netName(kind), addr)
				if err != nil {
					vrt.Fail("the address is not free: %v", err)
				}
				lis = l.(*vnet.Lis)
			}
		case "down":
			if lis != nil {
				lis.Close()
				lis = nil
			}
		case "drop":
			for _, c := range serverEnds(kind) {
				c.Close()
			}
		case "second":
			vrt.Sleep(second)
			if dialing && lis != nil {
				connected = true
				made++
			}
		}
		if lis != nil {
			for lis.Waiting() > 0 {
				lis.Accept()
			}
		}
		vrt.Quiesce()
		if len(n.conns) != made {
			vrt.Fail("after %s: %d connections announced, want %d", op, len(n.conns), made)
		}
		if len(clientEnds(kind)) != made {
			vrt.Fail("after %s: %d connections made, want %d", op, len(clientEnds(kind)), made)
		}
		if !on {
			for j, c := range clientEnds(kind) {
				if !c.IsClosed() {
					vrt.Fail("after %s: the transport is stopped but connection %d is open", op, j)
				}
			}
		} else if connected && op != "drop" {
			c := clientEnds(kind)[made-1]
			if !c.Peer.IsClosed() {
				if c.IsClosed() || n.conns[made-1].Closed() {
					vrt.Fail("after %s: the connection was closed by the client", op)
				}
				exchange("after "+op, ep, n.conns[made-1], c.Peer)
			}
		}
		vrt.Count("states", 1)
	}
	n.u.DeleteTransport(t)
	nd := len(vnet.N().Dials)
	if lis == nil {
		l, err := vnet.Listen(netName(kind), addr)
		if err != nil {
			vrt.Fail("the address is not free: %v", err)
		}
		lis = l.(*vnet.Lis)
	}
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	if len(vnet.N().Dials) != nd {
		vrt.Fail("the stopped client made %d more dial attempts", len(vnet.N().Dials)-nd)
	}
	settled("at the end", kind, false, clientEnds(kind), base)
	vrt.Count("traces", 1)
}

func tranDirectHist() {
	kind := vrt.Choose(2)
	server := vrt.Choose(2) == 0
	ops := []string{"run", "stop", "next", "connect", "second"}
	depth := pick(5, 7)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("%s, server %v, history %v", netName(kind), server, h) })
	vrt.SchedOff()
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", server, addr).SetOption("MaxRetryCount", 100)
	var lis *vnet.Lis
	if !server {
		l, _ := vnet.Listen(netName(kind), addr)
		lis = l.(*vnet.Lis)
	}
	on, ever := false, false
	waiters, ended := 0, 0
	ready := 0 // connections of this run
	var got []ustack.TransportConnection
	nils := 0
	for i := 0; i < depth; i++ {
		op := ops[vrt.Choose(len(ops))]
		h = append(h, op)
		switch op {
		case "run":
			t.Run()
			if !on && !server {
				ready++
			}
			on, ever = true, true
		case "stop":
			t.Stop()
			on = false
			ready = 0
		case "next":
			if !ever {
				break
			}
			waiters++
			vrt.GoNamed("waiter", func() {
				c := t.NextConnection()
				vrt.Touch("waiter")
				ended++
				if c == nil {
					nils++
				} else {
					got = append(got, c)
				}
			})
		case "connect":
			if !server {
				break
			}
			_, err := vnet.Dial(netName(kind), addr)
			if (err == nil) != on {
				vrt.Fail("connecting: error %v, transport running %v", err, on)
			}
			if on {
				ready++
			}
		case "second":
			vrt.Sleep(second)
		}
		vrt.Quiesce()
		if on {
			// of this run: waiters are served while there are connections
			if waiters-ended > 0 {
				unserved := ready - openOf(got)
				if unserved > 0 {
					vrt.Fail("after %s: %d waits of NextConnection go on although %d connections are ready", op, waiters-ended, unserved)
				}
			}
		} else if ever {
			if waiters != ended {
				vrt.Fail("after %s: %d waits of NextConnection did not end although the transport is stopped", op, waiters-ended)
			}
			for _, c := range got {
				if !c.Closed() {
					vrt.Fail("after %s: the transport is stopped but its connection is open", op)
				}
			}
		}
		if nils > 0 && on && waiters == 1 && !contains(h, "stop") {
			vrt.Fail("NextConnection ended without a connection although the transport was never stopped")
		}
		vrt.Count("states", 1)
	}
	t.Stop()
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	ends := serverEnds(kind)
	if !server {
		ends = clientEnds(kind)
	}
	if waiters != ended && ever {
		vrt.Fail("%d waits of NextConnection did not end although the transport is stopped", waiters-ended)
	}
	if lis != nil && len(ends) != countRuns(h) {
		vrt.Fail("%d connections made in %d runs", len(ends), countRuns(h))
	}
	settled("at the end", kind, server, ends, 0)
	vrt.Count("traces", 1)
}

func openOf(l []ustack.TransportConnection) int {
	n := 0
	for _, c := range l {
		if !c.Closed() {
			n++
		}
	}
	return n
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// countRuns counts the effective starts of a history.
func countRuns(h []string) int {
	n, on := 0, false
	for _, o := range h {
		if o == "run" && !on {
			n++
			on = true
		} else if o == "stop" {
			on = false
		}
	}
	return n
}

func registered(u ustack.UStack, t ustack.Transport) bool {
	for _, x := range u.GetTransport() {
		if x == t {
			return true
		}
	}
	return false
}

func tranStopServer() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(4) // who races with what
	modes := []string{"add | delete | connect", "connect x2 | delete | delete", "connect | delete+add", "delete | add | connect"}
	vrt.SetCase(func() string { return netName(kind) + " server: " + modes[mode] })
	var n *node2
	var ep ustack.EndPoint
	var base int
	t := newTransport(kind, "t", true, netOf(kind, "main"))
	quiet(func() {
		n, ep = tranNode()
		base = warmUp(n, kind)
		if mode != 0 {
			n.u.AddTransport(t)
		}
	})
	connect := func() {
		if c, err := vnet.Dial(netName(kind), netOf(kind, "main")); err == nil {
			c.Write(framed([]byte("early")))
		}
	}
	switch mode {
	case 0:
		vrt.GoNamed("adder", func() { n.u.AddTransport(t) })
		vrt.GoNamed("client", connect)
		n.u.DeleteTransport(t)
	case 1:
		vrt.GoNamed("client", connect)
		vrt.GoNamed("client2", connect)
		vrt.GoNamed("deleter", func() { n.u.DeleteTransport(t) })
		n.u.DeleteTransport(t)
	case 2:
		vrt.GoNamed("client", connect)
		n.u.DeleteTransport(t)
		n.u.AddTransport(t)
	case 3:
		vrt.GoNamed("client", connect)
		vrt.GoNamed("deleter", func() { n.u.DeleteTransport(t) })
		n.u.AddTransport(t)
	}
	vrt.Quiesce()
	vrt.SchedOff()
	r := registered(n.u, t)
	if mode == 2 && !r {
		vrt.Fail("the transport is not registered after it was added again")
	}
	if r {
		works("after the race", n, ep, kind, true)
		n.u.DeleteTransport(t)
	}
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	settled("after the race", kind, true, serverEnds(kind), base)
	if len(n.conns) != len(n.closed) {
		vrt.Fail("%d connections announced, %d reported closed", len(n.conns), len(n.closed))
	}
	vrt.Outcome(fmt.Sprint(modes[mode], " registered ", r, " conns ", len(n.conns)))
}

func tranStopClient() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(6)
	modes := []string{"add | delete, server up", "delete while retrying, server comes up", "delete+add while connecting", "delete+add while retrying, server comes up",
		"delete+add at the moment of giving up", "delete at the moment of giving up"}
	vrt.SetCase(func() string { return netName(kind) + " client: " + modes[mode] })
	var n *node2
	var ep ustack.EndPoint
	var base int
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", false, addr).SetOption("MaxRetryCount", 50)
	up := func() {
		if _, err := vnet.Listen(netName(kind), addr); err != nil {
			vrt.Fail("listen: %v", err)
		}
	}
	quiet(func() {
		n, ep = tranNode()
		base = warmUp(n, kind)
		if mode == 0 || mode == 2 {
			up()
		}
	})
	switch mode {
	case 0:
		vrt.GoNamed("adder", func() { n.u.AddTransport(t) })
		n.u.DeleteTransport(t)
	case 1:
		quiet(func() { n.u.AddTransport(t) })
		vrt.GoNamed("server", func() { vrt.Sleep(second); up() })
		vrt.Sleep(second)
		n.u.DeleteTransport(t)
	case 2:
		n.u.AddTransport(t)
		n.u.DeleteTransport(t)
		n.u.AddTransport(t)
	case 3:
		quiet(func() { n.u.AddTransport(t) })
		vrt.GoNamed("server", func() { vrt.Sleep(second); up() })
		vrt.Sleep(second)
		n.u.DeleteTransport(t)
		n.u.AddTransport(t)
	case 4, 5:
		quiet(func() { n.u.AddTransport(t.SetOption("MaxRetryCount", 1)) })
		vrt.Sleep(second)
		n.u.DeleteTransport(t)
		if mode == 4 {
			n.u.AddTransport(t.SetOption("MaxRetryCount", 50))
			vrt.GoNamed("server", func() { vrt.Sleep(second); up() })
		}
	}
	vrt.Quiesce()
	vrt.SchedOff()
	vrt.Sleep(2 * second)
	vrt.Quiesce()
	r := registered(n.u, t)
	if mode >= 2 && mode < 5 && !r {
		vrt.Fail("the transport is not registered after it was added again")
	}
	if r {
		oneClient("after the race", n, ep, kind)
		n.u.DeleteTransport(t)
	}
	nd := len(vnet.N().Dials)
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	if len(vnet.N().Dials) != nd {
		vrt.Fail("the stopped client made %d more dial attempts", len(vnet.N().Dials)-nd)
	}
	settled("after the race", kind, false, clientEnds(kind), base)
	if len(n.conns) != len(n.closed) {
		vrt.Fail("%d connections announced, %d reported closed", len(n.conns), len(n.closed))
	}
	vrt.Outcome(fmt.Sprint(modes[mode], " registered ", r, " made ", len(clientEnds(kind)), " announced ", len(n.conns)))
}

func tranRunStop() {
	kind := vrt.Choose(2)
	server := vrt.Choose(2) == 0
	mode := vrt.Choose(3)
	modes := []string{"stop | stop+run | next", "run | run | stop", "next | next | stop+stop"}
	vrt.SetCase(func() string { return fmt.Sprintf("%s, server %v: %s", netName(kind), server, modes[mode]) })
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", server, addr).SetOption("MaxRetryCount", 50)
	ended, waiters := 0, 0
	next := func() {
		waiters++
		vrt.GoNamed("next", func() {
			for t.NextConnection() != nil {
			}
			vrt.Touch("next")
			ended++
		})
	}
	running := 0 // 1 yes, 0 no, 2 either
	quiet(func() {
		if !server {
			l, _ := vnet.Listen(netName(kind), addr)
			_ = l
		}
		if mode != 1 {
			t.Run()
		}
	})
	switch mode {
	case 0:
		next()
		vrt.GoNamed("stopper", func() { t.Stop() })
		t.Stop()
		t.Run()
		running = 2
	case 1:
		vrt.GoNamed("runner", func() { t.Run() })
		vrt.GoNamed("stopper", func() { t.Stop() })
		t.Run()
		next()
		running = 2
	case 2:
		next()
		next()
		vrt.GoNamed("stopper", func() { t.Stop() })
		t.Stop()
	}
	vrt.Quiesce()
	vrt.SchedOff()
	if server {
		c, err := vnet.Dial(netName(kind), addr)
		if running == 0 && err == nil {
			vrt.Fail("the stopped transport accepts connections")
		}
		if err == nil {
			vrt.Quiesce()
			if c.(*vnet.VConn).Peer.IsClosed() {
				vrt.Fail("the running transport closes a new connection")
			}
		}
	}
	t.Stop()
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	if ended != waiters {
		vrt.Fail("%d of %d waits of NextConnection did not end", waiters-ended, waiters)
	}
	ends := serverEnds(kind)
	if !server {
		ends = clientEnds(kind)
	}
	settled("after the race", kind, server, ends, 0)
	vrt.Outcome(fmt.Sprint(modes[mode], " made ", len(ends)))
}

func tranRestart() {
	kind := vrt.Choose(2)
	server := vrt.Choose(2) == 0
	twice := vrt.Choose(2) == 1
	busy := vrt.Choose(2) == 1
	other := vrt.Choose(2) == 1 // another transport stays in the stack
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, server %v, restarted twice %v, traffic at the same time %v, another transport %v", netName(kind), server, twice, busy, other)
	})
	var n *node2
	var ep ustack.EndPoint
	var base int
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", server, addr).SetOption("MaxRetryCount", 50)
	quiet(func() {
		n, ep = tranNode()
		if other {
			n.u.AddTransport(newFtran("other"))
		}
		base = warmUp(n, kind)
		if !server {
			vnet.Listen(netName(kind), addr)
		}
		n.u.AddTransport(t)
		vrt.Quiesce()
		if server {
			vnet.Dial(netName(kind), addr)
		}
	})
	if len(n.conns) != 1 {
		vrt.Fail("%d connections announced, 1 made", len(n.conns))
	}
	if busy {
		vrt.GoNamed("app", func() {
			send(ep, n.conns[0], "x")
			serverOrClient(kind, server)[0].Peer.Write(framed([]byte("y")))
		})
	}
	for i := 0; i < 1+b2i(twice); i++ {
		n.u.DeleteTransport(t)
		n.u.AddTransport(t)
	}
	vrt.Quiesce()
	vrt.SchedOff()
	vrt.Sleep(2 * second)
	vrt.Quiesce()
	ends := serverOrClient(kind, server)
	if !ends[0].IsClosed() {
		vrt.Fail("the connection of the previous run is still open")
	}
	if server {
		works("after the restart", n, ep, kind, true)
	} else {
		oneClient("after the restart", n, ep, kind)
	}
	n.u.DeleteTransport(t)
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	settled("after the restart", kind, server, serverOrClient(kind, server), base)
	if len(n.conns) != len(n.closed) {
		vrt.Fail("%d connections announced, %d reported closed", len(n.conns), len(n.closed))
	}
	vrt.Outcome(fmt.Sprint(server, twice, busy, other, len(ends)))
}

func serverOrClient(kind int, server bool) []*vnet.VConn {
	if server {
		return serverEnds(kind)
	}
	return clientEnds(kind)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C17 -------------------------------------------------------------------

// attempts are the dial times since the client started at t0.
func attempts(addr string, t0 int64) (at []int64, ok []bool) {
	for _, d := range vnet.N().Dials {
		if d.Addr == addr && d.At >= t0 {
			at = append(at, d.At-t0)
			ok = append(ok, d.OK)
		}
	}
	return
}

// checkAttempts compares the dial log with the schedule: at most n attempts,
// spaced by the interval, the last one successful iff connected is wanted.
func checkAttempts(addr string, t0 int64, n int, interval int64, up func(int64) int, announced int) string {
	at, ok := attempts(addr, t0)
	want := n
	conn := 0
	for i := range at {
		if i == 0 && at[0] > interval {
			vrt.Fail("first attempt after %.2f s", float64(at[0])/1e9)
		}
		if i > 0 && at[i]-at[i-1] != interval {
			vrt.Fail("attempts at %v: not spaced by %d s", secs(at), interval/second)
		}
		switch up(at[i]) {
		case 1:
			if !ok[i] {
				vrt.Fail("attempt %d failed with the server up", i)
			}
		case 0:
			if ok[i] {
				vrt.Fail("attempt %d succeeded without server", i)
			}
		}
		if ok[i] {
			conn++
			want = i + 1
			if i != len(at)-1 {
				vrt.Fail("attempts %v go on after the connection was made (attempt %d)", secs(at), i)
			}
		}
	}
	if len(at) != want {
		vrt.Fail("%d attempts %v, want %d", len(at), secs(at), want)
	}
	if announced != conn {
		vrt.Fail("%d connections announced, %d made", announced, conn)
	}
	return fmt.Sprint(len(at), conn)
}

func secs(l []int64) []float64 {
	var r []float64
	for _, x := range l {
		r = append(r, float64(x)/1e9)
	}
	return r
}

func retryTimeline() {
	kind := vrt.Choose(2)
	n := vrt.Choose(pick(5, 7))
	iv := int64(1+vrt.Choose(3)) * second
	q := vrt.Choose(4*(n+1)+2) - 1 // the server appears at q quarters of an interval; -1 never
	stay := vrt.Choose(4)          // quarters of an interval the server stays; 0: for good
	direct := vrt.Choose(2) == 1
	vrt.SchedOff()
	tUp := int64(q) * iv / 4
	tDown := tUp + int64(stay)*iv/4
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d retries every %d s, server up at %.2f s (-: never) for %.2f s (0: for good), bare transport %v", netName(kind), n, iv/second, float64(tUp)/1e9, float64(tDown-tUp)/1e9, direct)
	})
	if q < 0 && stay > 0 {
		return
	}
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", false, addr).SetOption("MaxRetryCount", n).SetOption("RetryIntervalInSecond", int(iv/second))
	t0 := vrt.Now()
	if q >= 0 {
		vrt.GoNamed("server", func() {
			if tUp > 0 {
				vrt.Sleep(tUp)
			}
			l, err := vnet.Listen(netName(kind), addr)
			if err != nil {
				vrt.Fail("listen: %v", err)
			}
			if stay > 0 {
				vrt.Sleep(tDown - tUp)
				l.Close()
			}
		})
		vrt.Quiesce()
	}
	announced := 0
	var ended bool
	var nn *node2
	if direct {
		t.Run()
		vrt.GoNamed("next", func() {
			for t.NextConnection() != nil {
				announced++
			}
			ended = true
		})
	} else {
		nn, _ = tranNode()
		nn.u.AddTransport(t)
	}
	vrt.Sleep(int64(n+3) * iv)
	vrt.Quiesce()
	if nn != nil {
		announced = len(nn.conns)
	}
	// at the very instant of an attempt the server may be seen or not
	o := checkAttempts(addr, t0, n, iv, func(at int64) int {
		if q < 0 || at < tUp || (stay > 0 && at > tDown) {
			return 0
		}
		if (at == tUp && q > 0) || (stay > 0 && at == tDown) {
			return 2
		}
		return 1
	}, announced)
	if direct && ended != (announced == 0) {
		vrt.Fail("%d connections made, waiting for one has ended: %v", announced, ended)
	}
	vrt.Count("traces", 1)
	vrt.Outcome(fmt.Sprint(n, o))
}

func retryDefaults() {
	kind := vrt.Choose(2)
	tUp := []int64{-1, 0, 100500, 178500, 179500}[vrt.Choose(5)] * 1000000
	vrt.SchedOff()
	vrt.SetCase(func() string { return fmt.Sprintf("%s, server at %.1f s", netName(kind), float64(tUp)/1e9) })
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", false, addr)
	if tUp >= 0 {
		vrt.GoNamed("server", func() {
			if tUp > 0 {
				vrt.Sleep(tUp)
			}
			vnet.Listen(netName(kind), addr)
		})
		vrt.Quiesce()
	}
	n, _ := tranNode()
	base := len(vrt.Live())
	n.u.AddTransport(t)
	vrt.Sleep(200 * second)
	vrt.Quiesce()
	checkAttempts(addr, 0, 180, second, func(at int64) int {
		if tUp < 0 || at < tUp {
			return 0
		}
		return 1
	}, len(n.conns))
	if l := vrt.Live(); len(n.conns) == 0 && len(l) > base {
		vrt.Fail("the transport gave up but goroutines are left: %v", l)
	}
	vrt.Outcome(fmt.Sprint(tUp, len(n.conns)))
}

func retryLarge() {
	kind := vrt.Choose(2)
	cfgs := [][2]int{{3, 30}, {3, 60}, {3, 61}, {3, 127}, {3, 128}, {3, 255}, {3, 256}, {3, 300}, {2, 3600}, {2, 65535}, {2, 65537}, {2, 1 << 20}, {100, 2}, {127, 1}, {128, 3}, {255, 1}, {256, 1}, {257, 1}, {1000, 1}, {32768, 1}, {70000, 1}}
	c := cfgs[vrt.Choose(len(cfgs))]
	when := vrt.Choose(3)
	vrt.SchedOff()
	iv := int64(c[1]) * second
	tUp := []int64{-1, int64(c[0]-2)*iv + iv/2, int64(c[0]-1)*iv + iv/2}[when]
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d retries every %d s, server at %.1f s", netName(kind), c[0], c[1], float64(tUp)/1e9)
	})
	addr := netOf(kind, "main")
	n, _ := tranNode()
	n.u.AddTransport(newTransport(kind, "t", false, addr).SetOption("MaxRetryCount", c[0]).SetOption("RetryIntervalInSecond", c[1]))
	if tUp >= 0 {
		vrt.GoNamed("server", func() {
			vrt.Sleep(tUp)
			vnet.Listen(netName(kind), addr)
		})
	}
	for i := 0; i < c[0]+2; i++ {
		vrt.ResetBudget()
		vrt.Sleep(iv)
	}
	vrt.Quiesce()
	checkAttempts(addr, 0, c[0], iv, func(at int64) int { return b2i(tUp >= 0 && at >= tUp) }, len(n.conns))
	vrt.Outcome(fmt.Sprint(c, when, len(n.conns)))
}

func retryBlackhole() {
	kind := vrt.Choose(2)
	n := 1 + vrt.Choose(4)
	iv := int64(1+vrt.Choose(2)) * second
	ok := vrt.Choose(n + 1) // number of unanswered attempts
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d retries every %d s, %d unanswered", netName(kind), n, iv/second, ok)
	})
	addr := netOf(kind, "main")
	vnet.Listen(netName(kind), addr)
	vnet.N().Blackhole = ok > 0
	nn, _ := tranNode()
	nn.u.AddTransport(newTransport(kind, "t", false, addr).SetOption("MaxRetryCount", n).SetOption("RetryIntervalInSecond", int(iv/second)))
	for i := 0; i < 40; i++ {
		vrt.Sleep(second / 4)
		if len(vnet.N().Dials) >= ok {
			vnet.N().Blackhole = false
		}
	}
	vrt.Sleep(20 * second)
	vrt.Quiesce()
	at, good := attempts(addr, 0)
	want := min(n, ok+1)
	if len(at) != want {
		vrt.Fail("%d attempts %v, want %d", len(at), secs(at), want)
	}
	for i := range at {
		if i > 0 && (at[i]-at[i-1] < iv || at[i]-at[i-1] > iv+second) {
			vrt.Fail("unanswered attempts at %v, interval %d s", secs(at), iv/second)
		}
		if good[i] != (i == ok) {
			vrt.Fail("attempt %d succeeded: %v", i, good[i])
		}
	}
	if len(nn.conns) != b2i(ok < n) {
		vrt.Fail("%d connections announced", len(nn.conns))
	}
	vrt.Outcome(fmt.Sprint(n, ok))
}

func retryAgain() {
	kind := vrt.Choose(2)
	n1, n2 := 1+vrt.Choose(3), vrt.Choose(4)
	up := vrt.Choose(3) // 0 never, 1 during the first run, 2 during the second
	early := vrt.Choose(2) == 1
	vrt.SchedOff()
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d then %d retries, server up in run %d, deleted early %v", netName(kind), n1, n2, up, early)
	})
	addr := netOf(kind, "main")
	nn, _ := tranNode()
	t := newTransport(kind, "t", false, addr).SetOption("MaxRetryCount", n1)
	var l interface{ Close() error }
	if up == 1 {
		l, _ = vnet.Listen(netName(kind), addr)
	}
	nn.u.AddTransport(t)
	if early {
		vrt.Quiesce()
		nn.u.DeleteTransport(t)
	}
	vrt.Sleep(6 * second)
	vrt.Quiesce()
	lim := n1
	if early {
		lim = 1
	}
	checkAttempts(addr, 0, lim, second, func(int64) int { return b2i(up == 1) }, len(nn.conns))
	nn.u.DeleteTransport(t)
	if l != nil {
		l.Close()
	}
	vrt.Sleep(2 * second)
	vrt.Quiesce()
	made := len(nn.conns)
	if up == 2 {
		vnet.Listen(netName(kind), addr)
	}
	t.SetOption("MaxRetryCount", n2).SetOption("RetryIntervalInSecond", 2)
	t0 := vrt.Now()
	nn.u.AddTransport(t)
	vrt.Sleep(12 * second)
	vrt.Quiesce()
	checkAttempts(addr, t0, n2, 2*second, func(int64) int { return b2i(up == 2) }, len(nn.conns)-made)
	vrt.Outcome(fmt.Sprint(n1, n2, up, early))
}

func retryRace() {
	kind := vrt.Choose(2)
	n := 1 + vrt.Choose(3)
	k := vrt.Choose(n) // the server starts at the moment of this attempt
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %d retries, server starts at the moment of attempt %d", netName(kind), n, k)
	})
	addr := netOf(kind, "main")
	se, ce := ustack.NewEndPoint("s", 0), ustack.NewEndPoint("c", 0)
	var s, c *node2
	mk := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewFrameDecoder()}
	}
	quiet(func() {
		s, c = newNode("s", 32, mk()...), newNode("c", 32, mk()...)
		s.u.AddEndPoint(se).Run()
		c.u.AddEndPoint(ce).Run()
	})
	vrt.GoNamed("server", func() {
		vrt.Sleep(int64(k) * second)
		s.u.AddTransport(newTransport(kind, "s", true, addr))
	})
	c.u.AddTransport(newTransport(kind, "c", false, addr).SetOption("MaxRetryCount", n))
	vrt.Sleep(int64(n+1) * second)
	vrt.Quiesce()
	o := checkAttempts(addr, 0, n, second, func(at int64) int {
		switch {
		case at < int64(k)*second:
			return 0
		case at == int64(k)*second:
			return 2
		}
		return 1
	}, len(c.conns))
	if len(c.conns) != len(s.conns) {
		vrt.Fail("%d client and %d server connections announced", len(c.conns), len(s.conns))
	}
	if len(c.conns) == 1 {
		send(ce, c.conns[0], "hi")
		vrt.Quiesce()
		checkStrings(drain(se), []string{"hi"}, "server")
	} else if k < n-1 {
		vrt.Fail("not connected although the server was there for %d attempts", n-1-k)
	}
	vrt.Outcome(o)
}

// oneClient checks that a running client transport has exactly one connection,
// which works.
func oneClient(what string, n *node2, ep ustack.EndPoint, kind int) {
	open := 0
	for _, c := range clientEnds(kind) {
		if c.IsClosed() {
			continue
		}
		open++
		k := -1
		for i, a := range n.conns {
			if !a.Closed() {
				k = i
			}
		}
		if k < 0 {
			vrt.Fail("%s: a connection was made but not announced", what)
		}
		exchange(what, ep, n.conns[k], c.Peer)
	}
	if open != 1 {
		vrt.Fail("%s: the running client transport has %d open connections, want 1", what, open)
	}
}

// tranReaddress: a new address counts from the next start on.
func tranReaddress() {
	kind := vrt.Choose(2)
	server := vrt.Choose(2) == 0
	ops := []string{"run", "stop", "move", "run other", "stop other"}
	if !server {
		ops = ops[:3]
	}
	depth := pick(6, 8)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("%s, server %v, history %v", netName(kind), server, h) })
	vrt.SchedOff()
	addrs := []string{netOf(kind, "main"), netOf(kind, "warm")}
	t := newTransport(kind, "t", server, addrs[0])
	other := newTransport(kind, "o", true, addrs[1])
	mine, at := 0, -1 // the address of t, and where its run was started
	otherOn := false
	if !server {
		for _, a := range addrs {
			l, err := vnet.Listen(netName(kind), a)
			if err != nil {
				vrt.Fail("%v", err)
			}
			a := a
			vrt.GoNamed("peer", func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					c.Write([]byte(a))
				}
			})
		}
	}
	next := func(x ustack.Transport) ustack.TransportConnection {
		var c ustack.TransportConnection
		done := false
		vrt.GoNamed("next", func() {
			c = x.NextConnection()
			vrt.Touch("next")
			done = true
		})
		vrt.Quiesce()
		if !done || c == nil {
			vrt.Fail("no connection from the %s", x.GetName())
		}
		return c
	}
	var last ustack.TransportConnection
	for i := 0; i < depth; i++ {
		op := ops[vrt.Choose(len(ops))]
		h = append(h, op)
		fresh := false
		switch op {
		case "run":
			if mine == 1 && otherOn && at < 0 {
				break // its address is in use
			}
			t.Run()
			fresh = at < 0
			if fresh {
				at = mine
			}
		case "stop":
			t.Stop()
			at = -1
		case "move":
			mine = 1 - mine
			t.SetAddress(addrs[mine])
		case "run other":
			if at != 1 {
				other.Run()
				otherOn = true
			}
		case "stop other":
			other.Stop()
			otherOn = false
		}
		vrt.Quiesce()
		if server {
			for k, a := range addrs {
				want := at == k || k == 1 && otherOn
				c, err := vnet.Dial(netName(kind), a)
				if (err == nil) != want {
					vrt.Fail("connecting to address %d: error %v, but a server was started there and not stopped: %v", k, err, want)
				}
				if err != nil {
					continue
				}
				x := t
				if at != k {
					x = other
				}
				tc := next(x)
				tc.Write([]byte("ok"))
				b := make([]byte, 8)
				if n, err := c.Read(b); err != nil || string(b[:n]) != "ok" {
					vrt.Fail("a connection to address %d reads %q, %v", k, b[:n], err)
				}
			}
		} else {
			if fresh {
				last = next(t)
				b := make([]byte, 80)
				if n, err := last.Read(b); err != nil || string(b[:n]) != addrs[at] {
					vrt.Fail("the client started with address %s is connected to %q, %v", addrs[at], b[:n], err)
				}
			}
			if last != nil && last.Closed() != (at < 0) {
				vrt.Fail("client running %v, its connection closed %v", at >= 0, last.Closed())
			}
		}
		vrt.Count("states", 1)
	}
	t.Stop()
	other.Stop()
	vrt.Quiesce()
	if server {
		for k, a := range addrs {
			if _, err := vnet.Dial(netName(kind), a); err == nil {
				vrt.Fail("address %d is in use although all servers are stopped", k)
			}
		}
	}
	vrt.Count("traces", 1)
}

func tranOpenClose() {
	kind := vrt.Choose(2)
	who := vrt.Choose(3) // the peer, the application, alternately
	depth := pick(8, 10)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("%s server, closed by %d, history %v", netName(kind), who, h) })
	vrt.SchedOff()
	n, ep := tranNode()
	t := newTransport(kind, "t", true, netOf(kind, "main"))
	n.u.AddTransport(t)
	vrt.Quiesce()
	var peers []*vnet.VConn
	closed := map[int]bool{}
	nclosed := 0
	for i := 0; i < depth; i++ {
		var open []int
		for j := range peers {
			if !closed[j] {
				open = append(open, j)
			}
		}
		k := 0
		if len(open) > 0 {
			k = vrt.Choose(len(open) + b2i(len(open) < 5))
		}
		if k == len(open) {
			h = append(h, "open")
			c, err := vnet.Dial(netName(kind), netOf(kind, "main"))
			if err != nil {
				vrt.Fail("connecting: %v", err)
			}
			peers = append(peers, c.(*vnet.VConn))
		} else {
			j := open[k]
			h = append(h, fmt.Sprint("close ", j))
			if who == 0 || who == 2 && nclosed%2 == 0 {
				peers[j].Close()
			} else {
				n.conns[j].Close()
			}
			nclosed++
			closed[j] = true
		}
		vrt.Quiesce()
		if len(n.conns) != len(peers) || len(n.closed) != nclosed {
			vrt.Fail("%d connections and %d ends announced, want %d and %d", len(n.conns), len(n.closed), len(peers), nclosed)
		}
		for j, p := range peers {
			if n.conns[j].Closed() != closed[j] || p.Peer.IsClosed() != closed[j] {
				vrt.Fail("connection %d: ended %v, reports closed %v, is closed %v", j, closed[j], n.conns[j].Closed(), p.Peer.IsClosed())
			}
		}
		vrt.Count("states", 1)
	}
	for j, p := range peers {
		if !closed[j] {
			exchange("connection", ep, n.conns[j], p)
		}
	}
	n.u.DeleteTransport(t)
	vrt.Quiesce()
	for j, p := range peers {
		if !n.conns[j].Closed() || !p.Peer.IsClosed() {
			vrt.Fail("the transport is deleted but its connection %d is open", j)
		}
	}
	if len(n.closed) != len(peers) {
		vrt.Fail("%d of %d connections announced as closed", len(n.closed), len(peers))
	}
	if _, err := vnet.Dial(netName(kind), netOf(kind, "main")); err == nil {
		vrt.Fail("the transport is deleted but its address is in use")
	}
	vrt.Count("traces", 1)
}

// tranRole: a transport runs in the role it has when it is started.
func tranRole() {
	kind := vrt.Choose(2)
	ops := []string{"run", "stop", "role", "wait"}
	depth := pick(7, 9)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("%s, history %v", netName(kind), h) })
	vrt.SchedOff()
	addr := netOf(kind, "main")
	t := newTransport(kind, "t", true, addr)
	server := true
	running, asServer := false, false
	var peer net.Listener // of the harness, while t runs as a client
	var got []net.Conn
	next := func() ustack.TransportConnection {
		var c ustack.TransportConnection
		done := false
		vrt.GoNamed("next", func() {
			c = t.NextConnection()
			vrt.Touch("next")
			done = true
		})
		vrt.Quiesce()
		if !done || c == nil {
			vrt.Fail("no connection from the transport")
		}
		return c
	}
	exchange := func(c ustack.TransportConnection, p net.Conn) {
		c.Write([]byte("ok"))
		b := make([]byte, 8)
		if n, err := p.Read(b); err != nil || string(b[:n]) != "ok" {
			vrt.Fail("the peer reads %q, %v", b[:n], err)
		}
		p.Write([]byte("yes"))
		if n, err := c.Read(b); err != nil || string(b[:n]) != "yes" {
			vrt.Fail("the transport's connection reads %q, %v", b[:n], err)
		}
	}
	var cur ustack.TransportConnection
	var curPeer net.Conn
	for i := 0; i < depth; i++ {
		op := ops[vrt.Choose(len(ops))]
		h = append(h, op)
		switch op {
		case "run":
			fresh := !running
			if fresh && !server {
				l, err := vnet.Listen(netName(kind), addr)
				if err != nil {
					vrt.Fail("the address is not free although the transport is stopped: %v", err)
				}
				peer = l
				vrt.GoNamed("peer", func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						vrt.Touch("peer")
						got = append(got, c)
					}
				})
			}
			t.Run()
			vrt.Quiesce()
			if fresh {
				running, asServer = true, server
				if !server {
					if len(got) != 1 {
						vrt.Fail("the transport was started as a client and made %d connections", len(got))
					}
					cur, curPeer = next(), got[0]
				}
			}
		case "stop":
			t.Stop()
			vrt.Quiesce()
			running = false
			if cur != nil && !cur.Closed() {
				vrt.Fail("the connection of the stopped transport is open")
			}
			cur = nil
			if peer != nil {
				peer.Close()
				peer = nil
				got = nil
				vrt.Quiesce()
			}
		case "role":
			server = !server
			t.ForServer(server)
		case "wait":
			vrt.Sleep(2 * second)
			vrt.Quiesce()
		}
		switch {
		case running && !asServer:
			if len(got) != 1 {
				vrt.Fail("the client made %d connections", len(got))
			}
			exchange(cur, curPeer)
		case running:
			c, err := vnet.Dial(netName(kind), addr)
			if err != nil {
				vrt.Fail("the transport was started as a server and does not accept connections: %v", err)
			}
			cur = next()
			exchange(cur, c)
		default:
			if _, err := vnet.Dial(netName(kind), addr); err == nil {
				vrt.Fail("a stopped transport accepts connections")
			}
		}
		vrt.Count("states", 1)
	}
	t.Stop()
	if peer != nil {
		peer.Close()
	}
	vrt.Quiesce()
	vrt.Count("traces", 1)
}
