package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

func init() {
	scenario(&Scenario{Name: "frame/last-read", Props: []string{"C06", "C13", "C14"}, Shards: [2]int{4, 8}, Body: frameLast,
		What: "a custom transport whose connection returns the last bytes together with the end of file or another error: 1..3 messages, every cut of the stream into at most 4 (thorough 5) reads, frame decoder with and without a session resolver: all messages are delivered, then the connection is reported closed once"})
	scenario(&Scenario{Name: "frame/all-cuts", Props: []string{"C06"}, Shards: [2]int{4, 8}, Body: frameCuts,
		What: "every way to cut the framed stream of 1..3 messages (all payload-size combinations, 0..MTU-4) into reads of at most MTU bytes; delivered messages must equal the sent ones"})
	scenario(&Scenario{Name: "frame/long-streams", Props: []string{"C06"}, Shards: [2]int{4, 8}, Body: frameLong,
		What: "streams of 14 messages with every 3-periodic payload-size pattern, cut by every 2-periodic (thorough: 3-periodic) read-size pattern, for several MTUs and cache capacities"})
	scenario(&Scenario{Name: "frame/stack-of-processors", Props: []string{"C06"}, Shards: [2]int{2, 4}, Body: frameAbove,
		What: "codec, session resolver, heartbeat and statistics counter above the frame decoder; every cut of the stream of two messages with at most 3 cut points"})
	scenario(&Scenario{Name: "frame/transport-reads", Props: []string{"C06"}, Shards: [2]int{2, 8}, Body: frameTransport,
		What: "real TCP and Unix transports: the peer writes the framed stream in every partition with at most 3 cuts (including one big write that the reader splits at the MTU)"})
	scenario(&Scenario{Name: "frame/segmented-reads", Props: []string{"C06"}, Bound: [2]int{4, 6}, Shards: [2]int{1, 4}, Body: frameSegmented,
		What: "two real stacks over TCP/Unix, five messages; every read may be cut short by the environment, all combinations of at most 3 (thorough 5) short reads or preemptions"})
	scenario(&Scenario{Name: "frame/two-connections-sequential", Props: []string{"C07"}, Shards: [2]int{4, 8}, Body: frameTwoSeq,
		What: "all interleavings of the reads of two connections (two frames each, every cut into at most 3 reads) through one frame decoder"})
	scenario(&Scenario{Name: "frame/connection-ends-mid-frame", Props: []string{"C07"}, Shards: [2]int{1, 1}, Body: frameMidEnd,
		What: "a connection ends after every prefix of its stream; the one that follows and the one beside it, cut everywhere, must get exactly their messages"})
	scenario(&Scenario{Name: "frame/two-connections-concurrent", Props: []string{"C07"}, Bound: [2]int{3, 4}, Shards: [2]int{4, 8}, Body: frameTwoConc,
		What: "two clients of one TCP/Unix server, every schedule (bounded preemptions) of the two receiving goroutines while each gets its frames in pieces"})
	scenario(&Scenario{Name: "frame/close-while-receiving", Props: []string{"C07"}, Bound: [2]int{3, 4}, Shards: [2]int{2, 8}, Body: frameCloseConc,
		What: "one connection is torn down by a failing write in mid-frame while its reader and another connection's reader go on"})
}

func payload(tag, n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(tag*16 + i + 1)
	}
	return p
}

// frameStream returns the bytes the sending side puts on the wire.
func frameStream(mtu int, msgs [][]byte, mk func() []ustack.DataProcessor) []byte {
	a := newRig(mtu, mk()...)
	for _, m := range msgs {
		a.sendBuf(a.conn, m)
	}
	return bytes.Join(a.takeWire(), nil)
}

func onlyFrame() []ustack.DataProcessor { return []ustack.DataProcessor{ustack.NewFrameDecoder()} }

func sizesText(ms [][]byte) string {
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf("%d ", len(m))
	}
	return s
}

func checkBufs(got []upMsg, want [][]byte, where string) {
	for i, g := range got {
		if i >= len(want) {
			vrt.Fail("%s: %d messages delivered, %d sent; extra: % x", where, len(got), len(want), g.bytes)
		}
		if !g.hasBuf || !bytes.Equal(g.bytes, want[i]) {
			vrt.Fail("%s: message %d delivered as % x, sent as % x", where, i, g.bytes, want[i])
		}
	}
	if len(got) < len(want) {
		vrt.Fail("%s: only %d of %d messages delivered", where, len(got), len(want))
	}
}

// cutMask calls f with the pieces of s cut at the set bits of mask.
func cutMask(s []byte, mask uint32, mtu int) ([][]byte, bool) {
	var out [][]byte
	last := 0
	for i := 1; i <= len(s); i++ {
		if i == len(s) || mask&(1<<(i-1)) != 0 {
			if i-last > mtu {
				return nil, false
			}
			out = append(out, s[last:i])
			last = i
		}
	}
	return out, true
}

func cutText(cs [][]byte) string {
	s := ""
	for _, c := range cs {
		s += fmt.Sprintf("%d ", len(c))
	}
	return s
}

func frameCuts() {
	mtu := 9
	sizes := []int{0, 1, 2, 4, 5}
	maxT := pick(13, 19)
	// first message and number of messages are chosen, the rest is looped
	k := vrt.Choose(3) + 1
	first := sizes[vrt.Choose(len(sizes))]
	var cases, reads int64
	idx := make([]int, k)
	var rec func(i int)
	rec = func(i int) {
		if i < k {
			for j := range sizes {
				if i == 0 && sizes[j] != first {
					continue
				}
				idx[i] = j
				rec(i + 1)
			}
			return
		}
		var msgs [][]byte
		T := 0
		for i, j := range idx {
			msgs = append(msgs, payload(i+1, sizes[j]))
			T += sizes[j] + 4
		}
		if T > maxT {
			return
		}
		s := frameStream(mtu, msgs, onlyFrame)
		if len(s) > 24 {
			vrt.Fail("framed stream of %d bytes, expected %d", len(s), T)
		}
		for mask := uint32(0); mask < 1<<(len(s)-1); mask++ {
			cs, ok := cutMask(s, mask, mtu)
			if !ok {
				continue
			}
			vrt.ResetBudget()
			vrt.SetCase(func() string {
				return fmt.Sprintf("MTU %d, payloads %s, reads %s", mtu, sizesText(msgs), cutText(cs))
			})
			b := newRig(mtu, ustack.NewFrameDecoder())
			for _, c := range cs {
				b.recv(b.conn, c)
			}
			checkBufs(b.got, msgs, "frame decoder")
			cases++
			reads += int64(len(cs))
		}
	}
	rec(0)
	vrt.Count("traces", cases)
	vrt.Count("states", reads)
	vrt.Count("transitions", reads)
	vrt.Outcome(fmt.Sprintf("%d messages, first %d bytes: %d cuts intact", k, first, cases))
}

func frameLong() {
	type cfg struct{ mtu, cache int }
	cfgs := []cfg{{9, 0}, {5, 0}, {9, 9}, {9, 1}, {12, 40}, {9, 8}, {9, 5}, {9, 4}, {9, 10}, {12, 13}, {5, 4}}
	c := cfgs[vrt.Choose(len(cfgs))]
	max := c.mtu - 4
	sizes := []int{0, 1, max}
	if max > 2 {
		sizes = []int{0, 1, 2, max - 1, max}
	}
	x := vrt.Choose(c.mtu) + 1
	var cases, reads int64
	zmax := pick(1, c.mtu)
	for _, a := range sizes {
		for _, b := range sizes {
			for _, d := range sizes {
				var msgs [][]byte
				for i := 0; i < 14; i++ {
					msgs = append(msgs, payload(i%15+1, []int{a, b, d}[i%3]))
				}
				s := frameStream(c.mtu, msgs, onlyFrame)
				for y := 1; y <= c.mtu; y++ {
					for z := 0; z < zmax; z++ {
						pat := []int{x, y}
						if z > 0 {
							pat = append(pat, z)
						}
						vrt.ResetBudget()
						vrt.SetCase(func() string {
							return fmt.Sprintf("MTU %d cache option %d, 14 messages with payload sizes %v, read sizes %v repeating", c.mtu, c.cache, []int{a, b, d}, pat)
						})
						fd := ustack.NewFrameDecoder()
						if c.cache > 0 {
							fd.SetOption("CacheCapacity", c.cache)
						}
						r := newRig(c.mtu, fd)
						for i, p := 0, 0; p < len(s); i++ {
							n := min(pat[i%len(pat)], len(s)-p)
							r.recv(r.conn, s[p:p+n])
							p += n
							reads++
						}
						checkBufs(r.got, msgs, "frame decoder")
						cases++
					}
				}
			}
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", reads)
	vrt.Count("transitions", reads)
	vrt.Outcome(fmt.Sprintf("MTU %d cache %d first read %d: %d streams intact", c.mtu, c.cache, x, cases))
}

// cuts3 enumerates all partitions of n bytes with at most k cut points.
func cuts3(n, k int, f func(cuts []int)) {
	f(nil)
	for a := 1; a < n; a++ {
		f([]int{a})
		for b := a + 1; k >= 2 && b < n; b++ {
			f([]int{a, b})
			for c := b + 1; k >= 3 && c < n; c++ {
				f([]int{a, b, c})
			}
		}
	}
}

func pieces(s []byte, cuts []int) [][]byte {
	var out [][]byte
	last := 0
	for _, c := range append(append([]int(nil), cuts...), len(s)) {
		if c > last {
			out = append(out, s[last:c])
		}
		last = c
	}
	return out
}

func frameAbove() {
	stacks := []struct {
		name string
		mk   func() []ustack.DataProcessor
	}{
		{"bytes/frame", func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewFrameDecoder()}
		}},
		{"bytes/session/frame", func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
		}},
		{"bytes/heartbeat/frame", func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewHeartbeat(), ustack.NewFrameDecoder()}
		}},
		{"bytes/stat/frame", func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewStatCounter(), ustack.NewFrameDecoder()}
		}},
		{"string/session/heartbeat/stat/frame", func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewSessionResolver(), ustack.NewHeartbeat(), ustack.NewStatCounter(), ustack.NewFrameDecoder()}
		}},
	}
	vrt.SchedOff()
	st := stacks[vrt.Choose(len(stacks))]
	n1, n2 := []int{1, 3}[vrt.Choose(2)], []int{1, 6}[vrt.Choose(2)]
	mtu := 24
	a := newRig(mtu, st.mk()...)
	msgs := [][]byte{payload(1, n1), payload(2, n2)}
	for _, m := range msgs {
		a.send(a.conn, m, 7)
	}
	s := bytes.Join(a.takeWire(), nil)
	var cases int64
	b := newRig(mtu, st.mk()...)
	cuts3(len(s), 3, func(cuts []int) {
		vrt.ResetBudget()
		for _, p := range pieces(s, cuts) {
			if len(p) > mtu {
				return
			}
		}
		vrt.SetCase(func() string { return fmt.Sprintf("stack %s, payloads %d %d, cuts at %v", st.name, n1, n2, cuts) })
		b.got = nil
		conn := &fconn{name: "x"}
		for _, p := range pieces(s, cuts) {
			b.recv(conn, p)
		}
		if len(b.got) != len(msgs) {
			vrt.Fail("%d messages delivered, %d sent", len(b.got), len(msgs))
		}
		for i, g := range b.got {
			if m, ok := g.msg.([]byte); !ok || !bytes.Equal(m, msgs[i]) {
				vrt.Fail("message %d delivered as %s, sent as % x", i, show(g.msg), msgs[i])
			}
		}
		conn.closed = true
		b.publish(ustack.UStackEventConnectionClosed, conn)
		cases++
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprintf("%s %d/%d: %d cuts", st.name, n1, n2, cases))
}

// frameServer is a real framed server stack over a virtual network.
func frameServer(kind, mtu int, eps ...ustack.EndPoint) *node2 {
	n := newNode("server", mtu, ustack.NewBytesCodec(), ustack.NewFrameDecoder())
	for _, e := range eps {
		n.u.AddEndPoint(e)
	}
	n.tr = newTransport(kind, "s", true, netAddr(kind))
	n.u.AddTransport(n.tr)
	n.u.Run()
	return n
}

func checkData(got []ustack.EndPointData, want [][]byte, what string) {
	for i, d := range got {
		b, ok := d.GetData().([]byte)
		if i >= len(want) {
			vrt.Fail("%s: extra message %s delivered after the %d sent", what, show(d.GetData()), len(want))
		}
		if !ok || !bytes.Equal(b, want[i]) {
			vrt.Fail("%s: message %d delivered as %s, sent as %q", what, i, show(d.GetData()), want[i])
		}
	}
	if len(got) < len(want) {
		vrt.Fail("%s: only %d of %d messages delivered: %s", what, len(got), len(want), showEpds(got))
	}
}

func frameTransport() {
	vrt.SchedOff()
	kind := vrt.Choose(2)
	mtu := 9
	sets := [][]int{{1, 2}, {5, 1}, {5, 5, 5}, {2, 5, 3}}
	set := sets[vrt.Choose(len(sets))]
	var msgs [][]byte
	for i, n := range set {
		msgs = append(msgs, payload(i+1, n))
	}
	s := frameStream(mtu, msgs, onlyFrame)
	ep := ustack.NewEndPoint("e", 0)
	frameServer(kind, mtu, ep)
	vrt.Quiesce()
	var cases int64
	cuts3(len(s), pick(2, 3), func(cuts []int) {
		vrt.ResetBudget()
		vrt.SetCase(func() string { return fmt.Sprintf("%s, payloads %v, writes cut at %v", netName(kind), set, cuts) })
		c := rawDial(kind)
		for _, p := range pieces(s, cuts) {
			c.Write(p)
			vrt.Quiesce()
		}
		checkData(drain(ep), msgs, "endpoint")
		c.Close()
		vrt.Quiesce()
		cases++
	})
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprintf("%s %v: %d partitions", netName(kind), set, cases))
}

// twoStacks builds a connected client and server stack.
func twoStacks(kind, mtu int, mk func() []ustack.DataProcessor, sep, cep []ustack.EndPoint) (s, c *node2) {
	s = newNode("server", mtu, mk()...)
	for _, e := range sep {
		s.u.AddEndPoint(e)
	}
	s.tr = newTransport(kind, "s", true, netAddr(kind))
	s.u.AddTransport(s.tr).Run()
	vrt.Quiesce()
	c = newNode("client", mtu, mk()...)
	for _, e := range cep {
		c.u.AddEndPoint(e)
	}
	c.tr = newTransport(kind, "c", false, netAddr(kind))
	c.u.AddTransport(c.tr).Run()
	vrt.Quiesce()
	if len(s.conns) != 1 || len(c.conns) != 1 {
		vrt.Fail("client and server did not connect: %d server and %d client connections announced", len(s.conns), len(c.conns))
	}
	return
}

func netSeg(on bool) { vnet.N().Seg = on }

func frameSegmented() {
	kind := vrt.Choose(2)
	se, ce := ustack.NewEndPoint("s", 0), ustack.NewEndPoint("c", 0)
	var c *node2
	quiet(func() {
		_, c = twoStacks(kind, 9, func() []ustack.DataProcessor {
			return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewFrameDecoder()}
		}, []ustack.EndPoint{se}, []ustack.EndPoint{ce})
	})
	netSeg(true)
	var msgs [][]byte
	for i, n := range []int{2, 5, 1, 5, 4} {
		msgs = append(msgs, payload(i+1, n))
		send(ce, c.conns[0], msgs[i])
	}
	vrt.Quiesce()
	checkData(drain(se), msgs, "server endpoint")
	vrt.Outcome(fmt.Sprint(vnet.N().Conns[1].Reads))
}

func frameTwoSeq() {
	mtu := 10
	// per connection: payload sizes and all cuts into at most 3 reads
	sa, sb := [][]int{{1, 2}, {3, 6}, {0, 1}}[vrt.Choose(3)], [][]int{{2, 1}, {4, 1}}[vrt.Choose(2)]
	var cases, steps int64
	var ma, mb [][]byte
	for i, n := range sa {
		ma = append(ma, payload(i+1, n))
	}
	for i, n := range sb {
		mb = append(mb, payload(i+9, n))
	}
	wa, wb := frameStream(mtu, ma, onlyFrame), frameStream(mtu, mb, onlyFrame)
	var la, lb [][][]byte
	add := func(l *[][][]byte, w []byte) {
		cuts3(len(w), 2, func(c []int) {
			ps := pieces(w, c)
			for _, p := range ps {
				if len(p) > mtu {
					return
				}
			}
			*l = append(*l, ps)
		})
	}
	add(&la, wa)
	add(&lb, wb)
	for _, pa := range la {
		for _, pb := range lb {
			var rec func(i, j int, order []byte)
			rec = func(i, j int, order []byte) {
				if i < len(pa) {
					rec(i+1, j, append(order[:len(order):len(order)], 0))
				}
				if j < len(pb) {
					rec(i, j+1, append(order[:len(order):len(order)], 1))
				}
				if i < len(pa) || j < len(pb) {
					return
				}
				vrt.ResetBudget()
				vrt.SetCase(func() string {
					return fmt.Sprintf("connection A: payloads %v reads %s; B: payloads %v reads %s; order %v", sa, cutText(pa), sb, cutText(pb), order)
				})
				r := newRig(mtu, ustack.NewFrameDecoder())
				A, B := &fconn{name: "A"}, &fconn{name: "B"}
				x, y := 0, 0
				for _, o := range order {
					if o == 0 {
						r.recv(A, pa[x])
						x++
					} else {
						r.recv(B, pb[y])
						y++
					}
					steps++
				}
				splitCheck(r.got, map[*fconn][][]byte{A: ma, B: mb})
				cases++
			}
			rec(0, 0, nil)
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", steps)
	vrt.Count("transitions", steps)
	vrt.Outcome(fmt.Sprintf("%v %v: %d interleavings", sa, sb, cases))
}

func splitCheck(got []upMsg, want map[*fconn][][]byte) {
	per := map[*fconn][]upMsg{}
	for _, g := range got {
		c, _ := g.conn.(*fconn)
		if c == nil {
			vrt.Fail("a message is attributed to no connection")
		}
		per[c] = append(per[c], g)
	}
	for c, w := range want {
		checkBufs(per[c], w, "connection "+c.name)
	}
}

func frameMidEnd() {
	mtu := 10
	msgs := [][]byte{payload(1, 2), payload(2, 5)}
	next := [][]byte{payload(3, 3), payload(4, 1)}
	w, wn := frameStream(mtu, msgs, onlyFrame), frameStream(mtu, next, onlyFrame)
	var cases int64
	for _, event := range []bool{true, false} {
		for p := 0; p <= len(w); p++ {
			for q := 1; q < len(wn); q++ {
				vrt.ResetBudget()
				vrt.SetCase(func() string {
					return fmt.Sprintf("first connection ends after %d of %d bytes (closed event published: %v), next one cut at %d", p, len(w), event, q)
				})
				r := newRig(mtu, ustack.NewFrameDecoder())
				A, B, C := &fconn{name: "A"}, &fconn{name: "B"}, &fconn{name: "C"}
				feed := func(c *fconn, b []byte) {
					for len(b) > 0 {
						n := min(len(b), mtu)
						r.recv(c, b[:n])
						b = b[n:]
					}
				}
				feed(C, wn[:q])
				feed(A, w[:p])
				A.closed = true
				if event {
					r.publish(ustack.UStackEventConnectionClosed, A)
				}
				feed(B, wn[:q])
				feed(C, wn[q:])
				feed(B, wn[q:])
				var full [][]byte
				n := 0
				for _, m := range msgs {
					n += 4 + len(m)
					if n <= p {
						full = append(full, m)
					}
				}
				splitCheck(r.got, map[*fconn][][]byte{A: full, B: next, C: next})
				cases++
			}
		}
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprintf("%d endings", cases))
}

func perConn(l []ustack.EndPointData, c ustack.TransportConnection) []ustack.EndPointData {
	var o []ustack.EndPointData
	for _, d := range l {
		if d.GetConnection() == c {
			o = append(o, d)
		}
	}
	return o
}

func frameTwoConc() {
	kind := vrt.Choose(2)
	ca, cb := vrt.Choose(3), vrt.Choose(3)
	mtu := 12
	ma, mb := [][]byte{payload(1, 3), payload(2, 2)}, [][]byte{payload(9, 4), payload(10, 1)}
	wa, wb := frameStream(mtu, ma, onlyFrame), frameStream(mtu, mb, onlyFrame)
	cuts := []int{2, 5, 9}
	vrt.SetCase(func() string { return fmt.Sprintf("%s, A cut at %d, B cut at %d", netName(kind), cuts[ca], cuts[cb]) })
	ep := ustack.NewEndPoint("e", 0)
	var s *node2
	var A, B *vnet.VConn
	quiet(func() {
		s = frameServer(kind, mtu, ep)
		vrt.Quiesce()
		A = rawDial(kind)
		vrt.Quiesce()
		B = rawDial(kind)
	})
	if len(s.conns) != 2 {
		vrt.Fail("%d connections announced, want 2", len(s.conns))
	}
	vrt.SchedOff()
	A.Write(wa[:cuts[ca]])
	B.Write(wb[:cuts[cb]])
	vrt.SchedOn()
	vrt.GoNamed("peerA", func() { A.Write(wa[cuts[ca]:]) })
	vrt.GoNamed("peerB", func() { B.Write(wb[cuts[cb]:]) })
	vrt.Quiesce()
	got := drain(ep)
	if len(got) != 4 {
		vrt.Fail("%d messages delivered, 4 sent: %s", len(got), showEpds(got))
	}
	checkData(perConn(got, s.conns[0]), ma, "connection A")
	checkData(perConn(got, s.conns[1]), mb, "connection B")
	vrt.Outcome(showEpds(got))
}

func frameCloseConc() {
	kind := vrt.Choose(2)
	mtu := 12
	mb := [][]byte{payload(9, 4), payload(10, 1)}
	wa, wb := frameStream(mtu, [][]byte{payload(1, 6)}, onlyFrame), frameStream(mtu, mb, onlyFrame)
	ep := ustack.NewEndPoint("e", 0)
	var s *node2
	var A, B *vnet.VConn
	cut := []int{2, 6}[vrt.Choose(2)]
	quiet(func() {
		s = frameServer(kind, mtu, ep)
		vrt.Quiesce()
		A = rawDial(kind)
		vrt.Quiesce()
		B = rawDial(kind)
		vrt.Quiesce()
		A.Write(wa[:cut])
		B.Write(wb[:cut])
	})
	A.Peer.FailWriteAfter = 0
	vrt.GoNamed("sender", func() { send(ep, s.conns[0], []byte{1}) })
	vrt.GoNamed("peerA", func() { A.Write(wa[cut:]) })
	vrt.GoNamed("peerB", func() { B.Write(wb[cut:]) })
	vrt.Quiesce()
	got := drain(ep)
	checkData(perConn(got, s.conns[1]), mb, "connection B")
	if a := perConn(got, s.conns[0]); len(a) > 0 {
		checkData(a, [][]byte{payload(1, 6)}, "connection A")
	}
	// a third connection starts afresh
	vrt.SchedOff()
	C := rawDial(kind)
	C.Write(wb)
	vrt.Quiesce()
	checkData(drain(ep), mb, "connection C")
	vrt.Outcome(fmt.Sprintf("cut %d: %s", cut, showEpds(got)))
}

// frameLast: an io.Reader may return data together with an error.
func frameLast() {
	nm := 1 + vrt.Choose(3)
	end := []error{io.EOF, errors.New("reset")}[vrt.Choose(2)]
	session := vrt.Choose(2) == 1
	var stream []byte
	var msgs []string
	for i := 0; i < nm; i++ {
		t := strings.Repeat(string(rune('a'+i)), i+1)
		msgs = append(msgs, t)
		if session {
			t = "\x00\x00\x00\x00" + t
		}
		stream = append(stream, framed([]byte(t))...)
	}
	var cuts []int
	var cases int64
	run := func() {
		vrt.ResetBudget()
		vrt.SetCase(func() string {
			return fmt.Sprintf("%d messages, session resolver %v, %d bytes cut at %v, the last read also returns %q", nm, session, len(stream), cuts, end)
		})
		fc := &fconn{name: "c", lastly: end}
		p := 0
		for _, c := range append(append([]int{}, cuts...), len(stream)) {
			fc.chunks = append(fc.chunks, stream[p:c])
			p = c
		}
		procs := []ustack.DataProcessor{ustack.NewStringCodec()}
		if session {
			procs = append(procs, ustack.NewSessionResolver())
		}
		ep := ustack.NewEndPoint("e", 0)
		n := newNode("n", 64, append(procs, ustack.NewFrameDecoder())...)
		early := false
		var got []ustack.EndPointData
		n.u.SetEventListener(func(e ustack.Event) {
			if e.Type == ustack.UStackEventConnectionClosed {
				got = append(got, drain(ep)...)
				early = len(got) < nm
			}
		})
		n.u.AddEndPoint(ep).AddTransport(newFtran("t", fc)).Run()
		vrt.Quiesce()
		checkStrings(append(got, drain(ep)...), msgs, "endpoint")
		if len(n.conns) != 1 || len(n.closed) != 1 || early || !fc.closed {
			vrt.Fail("announced %d times, reported closed %d times, before the last message was delivered: %v; closed: %v", len(n.conns), len(n.closed), early, fc.closed)
		}
		n.u.DeleteEndPoint(ep)
		for _, x := range n.u.GetTransport() {
			n.u.DeleteTransport(x)
		}
		vrt.Quiesce()
		cases++
	}
	most := pick(3, 4)
	first := vrt.Choose(len(stream))
	if first > 0 {
		cuts = []int{first}
		if c := vrt.Choose(len(stream) - first); c > 0 {
			cuts = append(cuts, first+c)
		} else {
			most = 1
		}
	}
	vrt.SchedOff()
	var rec func()
	rec = func() {
		run()
		if len(cuts) == most || first == 0 {
			return
		}
		for c := cuts[len(cuts)-1] + 1; c < len(stream); c++ {
			cuts = append(cuts, c)
			rec()
			cuts = cuts[:len(cuts)-1]
		}
	}
	rec()
	vrt.Count("traces", cases)
	vrt.Count("states", cases)
	vrt.Outcome(fmt.Sprint(nm, session, first))
}
