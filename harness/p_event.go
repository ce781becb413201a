package main

import (
	"fmt"
	"strings"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

func init() {
	scenario(&Scenario{Name: "publish/reentrant", Props: []string{"C23"}, Shards: [2]int{8, 8}, Body: pubReentrant,
		What: "0..4 endpoints and 0..2 listeners; every observer in turn performs every action (add/delete any endpoint, add listener, add/delete transport, publish) inside its callback, followed by a second event; before and after start; thorough: every pair of observers and actions"})
	scenario(&Scenario{Name: "publish/own-events", Props: []string{"C23"}, Shards: [2]int{4, 8}, Body: pubOwn,
		What: "every history of 4 (thorough 5) out of adding and deleting 3 endpoints and 2 transports and publishing events about nothing, an endpoint, a transport, of every type, started or not, with 1-2 listeners: each event reaches everyone listed while it is published"})
	scenario(&Scenario{Name: "publish/relisten", Props: []string{"C23"}, Shards: [2]int{4, 8}, Body: pubRelisten,
		What: "every history of 6 (thorough 8) operations {give an endpoint another event listener, take it away, let the listener replace itself in its callback, add or delete the endpoint, publish}: each event reaches the listener the endpoint has, once, and no other; a second endpoint sees all events"})
	scenario(&Scenario{Name: "publish/concurrent", Props: []string{"C23"}, Bound: [2]int{4, 5}, Cap: [2]int{4000000, 0}, Shards: [2]int{8, 8}, Body: pubConc,
		What: "two goroutines publish while a third changes endpoints, listeners or transports; all schedules within the bound"})
	scenario(&Scenario{Name: "publish/stack-events", Props: []string{"C23"}, Bound: [2]int{3, 4}, Cap: [2]int{4000000, 0}, Shards: [2]int{8, 8}, Body: pubStack,
		What: "callbacks of the stack's own events (new, closed, heartbeat lost, added, deleted) send, close, add and delete; all schedules within the bound"})
	scenario(&Scenario{Name: "listener/replace", Props: []string{"C24"}, Bound: [2]int{3, 4}, Cap: [2]int{4000000, 0}, Shards: [2]int{8, 8}, Body: lisReplace,
		What: "4 messages arrive while the data listener is set and replaced up to twice, by one or two goroutines; all schedules within the bound"})
	scenario(&Scenario{Name: "listener/nested", Props: []string{"C24"}, Bound: [2]int{4, 5}, Cap: [2]int{4000000, 0}, Shards: [2]int{4, 8}, Body: lisNested,
		What: "listeners that replace the listener, send, or wait from inside the callback; all schedules within the bound"})
	scenario(&Scenario{Name: "listener/histories", Props: []string{"C24"}, Shards: [2]int{8, 8}, Body: lisHist,
		What: "every history of 6 (thorough 8) operations {message arrives, set listener 1/2, hold and release the running listener}, with quiescence in between, against a model"})
	scenario(&Scenario{Name: "listener/none", Props: []string{"C24"}, Bound: [2]int{4, 5}, Shards: [2]int{2, 4}, Body: lisNone,
		What: "without listener: messages stay readable, in order, by a concurrent or late reader; a listener set later gets the rest"})
	scenario(&Scenario{Name: "listener/removed", Props: []string{"C24"}, Bound: [2]int{3, 4}, Cap: [2]int{2000000, 0}, Shards: [2]int{8, 8}, Body: lisRemoved,
		What: "a listener is removed 1..2 times (set to none) and set again with no message in between, then messages arrive: still one at a time, in order, each once; all schedules within the bound"})
	scenario(&Scenario{Name: "listener/gap", Props: []string{"C24"}, Bound: [2]int{3, 4}, Cap: [2]int{2000000, 0}, Shards: [2]int{8, 8}, Body: lisGap,
		What: "a listener is removed and, while messages arrive, another one is set, 1..2 times: what arrives afterwards reaches it once, in order, one at a time (messages that arrive while there is none may be lost, never doubled); all schedules within the bound"})
	scenario(&Scenario{Name: "registry/histories", Props: []string{"C27"}, Shards: [2]int{8, 8}, Body: regHist,
		What: "every history of 5 (thorough 6) operations {add/delete endpoint A, B, C, transport T, U; run}, lists and events compared with a model after each"})
	scenario(&Scenario{Name: "registry/order", Props: []string{"C27"}, Shards: [2]int{8, 8}, Body: regOrder,
		What: "5 endpoints or 5 transports present, every sequence of 4 (thorough 5) additions and deletions, before and after the start"})
	scenario(&Scenario{Name: "registry/concurrent", Props: []string{"C27"}, Bound: [2]int{3, 4}, Cap: [2]int{4000000, 0}, Shards: [2]int{8, 8}, Body: regConc,
		What: "three goroutines add and delete different endpoints and transports while a fourth lists them; all schedules within the bound"})
	scenario(&Scenario{Name: "registry/same-object", Props: []string{"C27"}, Bound: [2]int{4, 5}, Cap: [2]int{4000000, 0}, Shards: [2]int{8, 8}, Body: regSame,
		What: "two goroutines add / delete the same endpoint or transport; all schedules within the bound"})
}

// ---- C23 -------------------------------------------------------------------

// observer is a stack listener or an endpoint that logs events.
type observer struct {
	name string
	ep   ustack.EndPoint // nil: a stack listener
	log  []ustack.Event
	on   bool // registered
	// registration changes, in global ticks
	since, until int
	act          func(ustack.Event)
}

type pubRig struct {
	u    ustack.UStack
	obs  []*observer
	tick int
	pubs []*published
}

type published struct {
	ev         ustack.Event
	begin, end int
}

func (r *pubRig) newObserver(name string, ep bool) *observer {
	o := &observer{name: name, until: 1 << 30, since: 1 << 30}
	if ep {
		o.ep = ustack.NewEndPoint(name, len(r.obs)+1)
		o.ep.SetEventListener(func(e ustack.EndPoint, ev ustack.Event) {
			if e != o.ep {
				vrt.Fail("the callback of %s was given another endpoint", name)
			}
			r.seen(o, ev)
		})
	}
	r.obs = append(r.obs, o)
	return o
}

func (r *pubRig) now() int { vrt.Touch("tick"); r.tick++; return r.tick }

func (r *pubRig) seen(o *observer, ev ustack.Event) {
	r.now()
	o.log = append(o.log, ev)
	if o.act != nil {
		o.act(ev)
	}
}

// register makes the observer known to the stack (from some tick on).
func (r *pubRig) register(o *observer) {
	if o.on {
		return
	}
	o.on = true
	if o.ep != nil {
		r.u.AddEndPoint(o.ep)
	} else {
		r.u.SetEventListener(func(ev ustack.Event) { r.seen(o, ev) })
	}
	o.since = r.now()
}

func (r *pubRig) unregister(o *observer) {
	if !o.on || o.ep == nil {
		return
	}
	o.until = r.now()
	r.u.DeleteEndPoint(o.ep)
	o.on = false
}

func (r *pubRig) publish(t int) {
	p := &published{ev: ustack.Event{Type: t, Source: &obj{n: t}, Data: &obj{n: 1000 + t}}, begin: r.now()}
	r.pubs = append(r.pubs, p)
	r.u.PublishEvent(p.ev)
	p.end = r.now()
}

// verify checks every published event at every observer.
func (r *pubRig) verify() {
	for _, p := range r.pubs {
		for _, o := range r.obs {
			n := 0
			for _, e := range o.log {
				if e.Type == p.ev.Type {
					n++
					if e.Source != p.ev.Source || e.Data != p.ev.Data {
						vrt.Fail("%s saw event %d with other source or data", o.name, e.Type)
					}
				}
			}
			if n > 1 {
				vrt.Fail("%s saw event %d %d times", o.name, p.ev.Type, n)
			}
			stable := o.since < p.begin && o.until > p.end
			if n == 0 && stable {
				vrt.Fail("%s, registered all the time, did not see event %d; it saw %s", o.name, p.ev.Type, types(o.log))
			}
			if n == 1 && (o.since > p.end || o.until < p.begin) && !(o.ep == nil) {
				// (until is taken before the deletion starts, so this may be in flight)
				if o.since > p.end && o.since != 1<<30 || o.since == 1<<30 && !o.on {
					vrt.Fail("%s saw event %d although it was not registered", o.name, p.ev.Type)
				}
			}
		}
	}
}

func types(l []ustack.Event) string {
	var s []string
	for _, e := range l {
		s = append(s, eventName(e.Type))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func pubReentrant() {
	neps := vrt.Choose(5)
	nlis := vrt.Choose(3)
	started := vrt.Choose(2) == 1
	if neps+nlis == 0 {
		return
	}
	who := vrt.Choose(neps + nlis)
	// actions: delete endpoint k; add spare endpoint; add listener; add
	// transport; delete transport; publish; delete+add endpoint k
	nact := 2*neps + 5
	what := vrt.Choose(nact)
	who2, what2 := -1, 0
	if tier == 1 {
		who2 = vrt.Choose(neps+nlis+1) - 1
		if who2 >= 0 {
			what2 = vrt.Choose(nact)
		}
	}
	vrt.SchedOff()
	r := &pubRig{u: ustack.NewUStack()}
	var tdel, tadd ustack.Transport = newFtran("t"), newFtran("t2")
	r.u.AddTransport(tdel)
	if started {
		r.u.Run()
	}
	var eps []*observer
	for i := 0; i < neps; i++ {
		o := r.newObserver(fmt.Sprint("endpoint ", i), true)
		eps = append(eps, o)
		r.register(o)
	}
	for i := 0; i < nlis; i++ {
		r.register(r.newObserver(fmt.Sprint("listener ", i), false))
	}
	vrt.Quiesce()
	spareL := 0
	actName := func(a int) string {
		switch {
		case a < neps:
			return fmt.Sprint("deletes endpoint ", a)
		case a < 2*neps:
			return fmt.Sprint("deletes and re-adds endpoint ", a-neps)
		}
		return []string{"adds an endpoint", "adds a listener", "adds a transport", "deletes a transport", "publishes"}[a-2*neps]
	}
	vrt.SetCase(func() string {
		t := fmt.Sprintf("%d endpoints, %d listeners, started %v: %s %s in its callback", neps, nlis, started, r.obs[who].name, actName(what))
		if who2 >= 0 {
			t += fmt.Sprintf("; %s %s", r.obs[who2].name, actName(what2))
		}
		return t
	})
	nested := 110
	do := func(a int) {
		switch {
		case a < neps:
			r.unregister(eps[a])
		case a < 2*neps:
			o := eps[a-neps]
			if o.on {
				r.u.DeleteEndPoint(o.ep)
				o.on = false
				r.u.AddEndPoint(o.ep)
				o.on = true
				// registered again from now on, not surely before
				if o.until == 1<<30 {
					o.since = r.now()
				}
			}
		case a == 2*neps:
			r.register(r.newObserver(fmt.Sprint("endpoint added in a callback ", r.tick), true))
		case a == 2*neps+1:
			spareL++
			r.register(r.newObserver(fmt.Sprint("listener added in a callback ", spareL), false))
		case a == 2*neps+2:
			r.u.AddTransport(tadd)
		case a == 2*neps+3:
			r.u.DeleteTransport(tdel)
		default:
			nested++
			r.publish(nested)
		}
	}
	for i, w := range []int{who, who2} {
		if w < 0 {
			continue
		}
		a := []int{what, what2}[i]
		o := r.obs[w]
		prev := o.act
		done := false
		o.act = func(e ustack.Event) {
			if prev != nil {
				prev(e)
			}
			if e.Type == 100 && !done {
				done = true
				do(a)
			}
		}
	}
	r.publish(100)
	vrt.Quiesce()
	r.publish(101)
	vrt.Quiesce()
	r.verify()
	// the changes made in callbacks took effect
	for _, o := range r.obs {
		n := 0
		for _, e := range r.u.GetEndPoint() {
			n += b2i(o.ep != nil && e == o.ep)
		}
		if o.ep != nil && n != b2i(o.on) {
			vrt.Fail("%s is listed %d times, want %d", o.name, n, b2i(o.on))
		}
		k := 0
		for _, e := range o.log {
			k += b2i(e.Type == 101)
		}
		if k != b2i(o.on) {
			vrt.Fail("%s saw the next event %d times, registered: %v", o.name, k, o.on)
		}
	}
	vrt.Count("traces", 1)
	vrt.Count("states", int64(len(r.obs)))
	vrt.Outcome(fmt.Sprint(neps, nlis, what))
}

func pubOwn() {
	started := vrt.Choose(2) == 1
	nlis := 1 + vrt.Choose(2)
	n := 4 + tier
	const nops = 17
	var head []int
	for i := 1; i < n; i++ {
		head = append(head, vrt.Choose(nops-6*b2i(i == 1)))
	}
	vrt.SchedOff()
	var cases int64
	for code := 0; code < nops; code++ {
		vrt.ResetBudget()
		ops := append(append([]int{}, head...), code)
		vrt.SetCase(func() string { return fmt.Sprintf("started %v, %d listeners, operations %v", started, nlis, ops) })
		u := ustack.NewUStack()
		type seen struct {
			who int
			ev  ustack.Event
		}
		var log []seen
		var listed map[ustack.EndPoint]bool
		for i := 0; i < nlis; i++ {
			i := i
			u.SetEventListener(func(e ustack.Event) {
				log = append(log, seen{-1 - i, e})
				if i == 0 {
					listed = map[ustack.EndPoint]bool{}
					for _, x := range u.GetEndPoint() {
						listed[x] = true
					}
				}
			})
		}
		eps := make([]ustack.EndPoint, 3)
		for i := range eps {
			i := i
			eps[i] = ustack.NewEndPoint("e", i*(2-nlis)) // all of one session beside two listeners
			eps[i].SetEventListener(func(x ustack.EndPoint, e ustack.Event) {
				if x != eps[i] {
					vrt.Fail("endpoint %d was called for another one", i)
				}
				log = append(log, seen{i, e})
			})
		}
		trs := []ustack.Transport{newFtran("t"), newFtran("t")}
		if started {
			u.Run()
		}
		for k, op := range ops {
			log, listed = nil, nil
			before := map[ustack.EndPoint]bool{}
			for _, x := range u.GetEndPoint() {
				before[x] = true
			}
			var want *ustack.Event
			switch {
			case op < 6:
				ep := eps[op/2]
				if op%2 == 0 {
					u.AddEndPoint(ep)
				} else {
					u.DeleteEndPoint(ep)
				}
				if before[ep] == (op%2 == 1) {
					want = &ustack.Event{Type: []int{ustack.UStackEventEndpointAdded, ustack.UStackEventEndpointDeleted}[op%2], Source: u, Data: ep}
				}
			case op < 10:
				tr := trs[op%2]
				had := false
				for _, x := range u.GetTransport() {
					had = had || x == tr
				}
				if op < 8 {
					u.AddTransport(tr)
				} else {
					u.DeleteTransport(tr)
				}
				if had == (op >= 8) {
					want = &ustack.Event{Type: []int{ustack.UStackEventTransportAdded, ustack.UStackEventTransportDeleted}[b2i(op >= 8)], Source: u, Data: tr}
				}
			default:
				e := []ustack.Event{
					{Type: 100},
					{Type: 0, Source: eps[0], Data: nil},
					{Type: -1, Source: u, Data: eps[0]},
					{Type: ustack.UStackEventHeartbeatRecover, Source: eps[1], Data: trs[0]},
					{Type: ustack.UStackEventHeartbeatLost, Source: nil, Data: eps[2]},
					{Type: 1, Source: u, Data: "x"},
					{Type: 101, Source: u, Data: eps[1]},
				}[op-10]
				u.PublishEvent(e)
				want = &e
			}
			if want == nil {
				if len(log) > 0 {
					vrt.Fail("operation %d changed nothing but published", k)
				}
				continue
			}
			n := map[int]int{}
			for _, s := range log {
				if s.ev != *want {
					vrt.Fail("operation %d: an observer saw %s about %v, not the published event", k, eventName(s.ev.Type), s.ev.Data)
				}
				n[s.who]++
			}
			for i := 0; i < nlis; i++ {
				if n[-1-i] != 1 {
					vrt.Fail("operation %d: listener %d saw the event %d times", k, i, n[-1-i])
				}
			}
			for i, ep := range eps {
				switch {
				case n[i] > 1 || n[i] == 1 && !before[ep] && want.Data != ep:
					vrt.Fail("operation %d: endpoint %d, registered: %v, saw the event %d times", k, i, before[ep], n[i])
				case n[i] == 0 && before[ep] && listed[ep]:
					vrt.Fail("operation %d: endpoint %d, still registered, did not see the event", k, i)
				}
			}
		}
		if started {
			for _, x := range u.GetEndPoint() {
				u.DeleteEndPoint(x)
			}
			for _, x := range u.GetTransport() {
				u.DeleteTransport(x)
			}
			vrt.Quiesce()
		}
		cases++
	}
	vrt.Count("traces", cases)
	vrt.Count("states", cases*int64(n))
	vrt.Outcome(fmt.Sprint(started, nlis, head[0]))
}

func pubConc() {
	mode := vrt.Choose(5)
	started := vrt.Choose(2) == 1
	modes := []string{"add endpoint", "delete endpoint", "delete and add endpoint", "add listener", "add and delete transport"}
	vrt.SetCase(func() string { return fmt.Sprintf("third goroutine: %s, started %v", modes[mode], started) })
	r := &pubRig{u: ustack.NewUStack()}
	var e0, e1, e2 *observer
	quiet(func() {
		if started {
			r.u.Run()
		}
		r.register(r.newObserver("listener 0", false))
		e0, e1, e2 = r.newObserver("endpoint 0", true), r.newObserver("endpoint 1", true), r.newObserver("endpoint 2", true)
		r.register(e0)
		r.register(e1)
		if mode != 0 {
			r.register(e2)
		}
		// the one that changes is not the last in the list
		r.register(r.newObserver("endpoint 3", true))
	})
	done := 0
	vrt.GoNamed("publisher", func() { r.publish(100); r.publish(101); vrt.Touch("done"); done++ })
	vrt.GoNamed("publisher2", func() { r.publish(102); vrt.Touch("done"); done++ })
	tp := newFtran("t")
	switch mode {
	case 0:
		r.register(e2)
	case 1:
		r.unregister(e1)
	case 2:
		r.unregister(e1)
		r.u.AddEndPoint(e1.ep)
		e1.since = 1 << 30
		e1.on = true
	case 3:
		r.register(r.newObserver("listener 1", false))
	case 4:
		r.u.AddTransport(tp)
		r.u.DeleteTransport(tp)
	}
	vrt.Quiesce()
	if done != 2 {
		vrt.Fail("publishing is stuck: %v", vrt.Live())
	}
	vrt.SchedOff()
	r.verify()
	r.publish(103)
	o := ""
	for _, b := range r.obs {
		i100, i101, n := -1, -1, 0
		for i, e := range b.log {
			switch e.Type {
			case 100:
				i100 = i
			case 101:
				i101 = i
			case 103:
				n++
			}
		}
		if i101 >= 0 && i100 > i101 {
			vrt.Fail("%s saw one publisher's events in the wrong order: %s", b.name, types(b.log))
		}
		if n != b2i(b.on) {
			vrt.Fail("%s saw a later event %d times, registered: %v", b.name, n, b.on)
		}
		o += fmt.Sprint(len(b.log), " ")
	}
	vrt.Outcome(o)
}

func pubStack() {
	kind := vrt.Choose(2)
	mode := vrt.Choose(7)
	byEp := vrt.Choose(2) == 1
	modes := []string{"new: sends", "new: closes", "new: adds an endpoint", "new: deletes the transport", "closed: deletes and adds the transport", "lost: deletes the endpoint", "new: publishes"}
	vrt.SetCase(func() string {
		return fmt.Sprintf("%s, %s, in an endpoint's callback %v", netName(kind), modes[mode], byEp)
	})
	var u ustack.UStack
	logs := map[string][]string{}
	a, b, x := ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 2), ustack.NewEndPoint("x", 3)
	tr := newTransport(kind, "s", true, netAddr(kind))
	did := false
	act := func(e ustack.Event) {
		if did {
			return
		}
		c, _ := e.Data.(ustack.TransportConnection)
		switch {
		case e.Type == ustack.UStackEventNewConnection && mode == 0:
			did = true
			send(a, c, "hello")
		case e.Type == ustack.UStackEventNewConnection && mode == 1:
			did = true
			c.Close()
		case e.Type == ustack.UStackEventNewConnection && mode == 2:
			did = true
			u.AddEndPoint(x)
		case e.Type == ustack.UStackEventNewConnection && mode == 3:
			did = true
			u.DeleteTransport(tr)
		case e.Type == ustack.UStackEventConnectionClosed && mode == 4:
			did = true
			u.DeleteTransport(tr)
			u.AddTransport(tr)
		case e.Type == ustack.UStackEventHeartbeatLost && mode == 5:
			did = true
			u.DeleteEndPoint(b)
		case e.Type == ustack.UStackEventNewConnection && mode == 6:
			did = true
			u.PublishEvent(ustack.Event{Type: 200, Source: u, Data: c})
		}
	}
	see := func(who string, e ustack.Event, acts bool) {
		vrt.Touch("log")
		logs[who] = append(logs[who], eventName(e.Type))
		if acts {
			act(e)
		}
	}
	var p *vnet.VConn
	quiet(func() {
		hb := ustack.NewHeartbeat().SetOption("TimeoutInSecond", 1)
		u = ustack.NewUStack().AppendDataProcessor(ustack.NewStringCodec()).AppendDataProcessor(hb).AppendDataProcessor(ustack.NewFrameDecoder())
		u.SetOption("MTU", 64)
		for _, e := range []ustack.EndPoint{a, b} {
			e := e
			e.SetEventListener(func(ep ustack.EndPoint, ev ustack.Event) { see(ep.GetName(), ev, byEp && ep == a) })
			u.AddEndPoint(e)
		}
		u.AddTransport(tr)
		u.SetEventListener(func(e ustack.Event) { see("l", e, !byEp) })
		u.SetEventListener(func(e ustack.Event) { see("m", e, false) })
		u.Run()
	})
	for k := range logs {
		delete(logs, k)
	}
	p = rawDial(kind)
	p.Write(framed([]byte("\x00hi")))
	vrt.Quiesce()
	if mode == 5 {
		vrt.Sleep(3 * second)
	} else {
		p.Close()
	}
	vrt.Quiesce()
	vrt.SchedOff()
	vrt.Sleep(3 * second)
	vrt.Quiesce()
	want := map[string]int{"new": 1, "closed": 1}
	switch mode {
	case 2:
		want["eadd"] = 1
	case 3:
		want["tdel"] = 1
	case 4:
		want["tdel"], want["tadd"] = 1, 1
	case 5:
		want["lost"], want["edel"] = 1, 1
	case 6:
		want["200"] = 1
	}
	if !did {
		vrt.Fail("the event never came: %v", logs)
	}
	for _, who := range []string{"l", "m", "a", "b"} {
		if who == "b" && mode == 5 {
			continue // deleted on the way
		}
		n := map[string]int{}
		for _, t := range logs[who] {
			n[t]++
		}
		for _, t := range []string{"new", "closed", "lost", "tadd", "tdel", "eadd", "edel", "200"} {
			if n[t] != want[t] {
				vrt.Fail("%s saw %v: %d times %s, want %d", who, logs[who], n[t], t, want[t])
			}
		}
	}
	switch mode {
	case 0:
		if !strings.Contains(string(p.Peer.Wrote), "hello") {
			vrt.Fail("the message sent in the callback is missing")
		}
	case 3:
		if c, err := vnet.Dial(netName(kind), netAddr(kind)); err == nil {
			c.Close()
			vrt.Fail("the deleted transport still listens")
		}
	case 4:
		c := rawDial(kind)
		vrt.Quiesce()
		if c.Peer.IsClosed() {
			vrt.Fail("the re-added transport does not work")
		}
	}
	vrt.Outcome(fmt.Sprint(modes[mode], byEp))
}

// ---- C24 -------------------------------------------------------------------

type call struct {
	who, msg string
	at       int
}

// lisRig is an endpoint of a real stack that receives plain messages.
type lisRig struct {
	ep      ustack.EndPoint
	fc      *fconn
	n       *node2
	calls   []call
	in      int
	tick    int
	fed     map[string]int
	setDone map[string]int
	setBeg  map[string]int
}

func newLisRig() *lisRig {
	r := &lisRig{ep: ustack.NewEndPoint("e", 0), fc: &fconn{name: "c"}, fed: map[string]int{}, setDone: map[string]int{}, setBeg: map[string]int{}}
	r.n = newNode("n", 64, ustack.NewStringCodec())
	r.n.u.AddEndPoint(r.ep).AddTransport(newFtran("t", r.fc)).Run()
	vrt.Quiesce()
	return r
}

func (r *lisRig) now() int { vrt.Touch("tick"); r.tick++; return r.tick }

func (r *lisRig) feed(m string) {
	r.fed[m] = r.now()
	r.fc.feed([]byte(m))
}

func (r *lisRig) listener(name string, inside func(string)) func(ustack.EndPoint, ustack.EndPointData) {
	return func(ep ustack.EndPoint, d ustack.EndPointData) {
		if ep != r.ep {
			vrt.Fail("listener %s was given another endpoint", name)
		}
		at := r.now()
		m, _ := d.GetData().(string)
		r.in++
		if r.in > 1 {
			vrt.Fail("listener calls overlap (%s, message %s)", name, m)
		}
		if d.GetConnection() != r.fc {
			vrt.Fail("message %s with another connection", m)
		}
		r.calls = append(r.calls, call{name, m, at})
		vrt.Yield()
		if inside != nil {
			inside(m)
		}
		vrt.Touch("in")
		r.in--
	}
}

func (r *lisRig) set(name string, inside func(string)) {
	l := r.listener(name, inside)
	r.setBeg[name] = r.now()
	r.ep.SetDataListener(l)
	r.setDone[name] = r.now()
}

// check verifies exactly-once, order, and who was called.
func (r *lisRig) check(msgs ...string) {
	var got []string
	for _, c := range r.calls {
		got = append(got, c.msg)
		if b, ok := r.setBeg[c.who]; !ok || b > c.at {
			vrt.Fail("listener %s called before it was set", c.who)
		}
		for l, d := range r.setDone {
			if l != c.who && r.setBeg[l] > r.setDone[c.who] && r.setDone[c.who] > 0 && d > 0 && d < r.fed[c.msg] {
				vrt.Fail("message %s, which arrived after listener %s was set, went to the older %s", c.msg, l, c.who)
			}
		}
	}
	if strings.Join(got, " ") != strings.Join(msgs, " ") {
		vrt.Fail("listeners saw %v, received were %v", r.calls, msgs)
	}
	if l := drain(r.ep); len(l) != 0 {
		vrt.Fail("left in the receive channel: %s", showEpds(l))
	}
}

func (r *lisRig) outcome() string {
	s := ""
	for _, c := range r.calls {
		s += c.who + ":" + c.msg + " "
	}
	return s
}

func lisReplace() {
	before := vrt.Choose(3) // messages that arrive before any listener
	sets := 1 + vrt.Choose(3)
	two := vrt.Choose(2) == 1
	vrt.SetCase(func() string {
		return fmt.Sprintf("%d messages before, listener set %d times, by two goroutines %v", before, sets, two)
	})
	var r *lisRig
	quiet(func() {
		r = newLisRig()
		for i := 0; i < before; i++ {
			r.feed(fmt.Sprint("m", i))
		}
	})
	vrt.GoNamed("net", func() {
		for i := before; i < 4; i++ {
			r.feed(fmt.Sprint("m", i))
		}
	})
	if two {
		vrt.GoNamed("setter", func() { r.set("x", nil) })
	}
	for i := 0; i < sets; i++ {
		r.set(fmt.Sprint("l", i), nil)
	}
	vrt.Quiesce()
	r.feed("z")
	vrt.Quiesce()
	r.check("m0", "m1", "m2", "m3", "z")
	vrt.Outcome(r.outcome())
}

func lisNested() {
	mode := vrt.Choose(4)
	modes := []string{"replaces the listener", "sets itself again", "sends a reply", "replaces the listener twice"}
	vrt.SetCase(func() string { return modes[mode] })
	var r *lisRig
	quiet(func() { r = newLisRig() })
	var first func(string)
	first = func(m string) {
		switch mode {
		case 0:
			r.set("b", nil)
		case 1:
			r.ep.SetDataListener(r.listener("a", nil))
		case 2:
			send(r.ep, r.fc, "re-"+m)
		case 3:
			r.set("b", nil)
			r.set("c", nil)
		}
	}
	r.set("a", first)
	vrt.GoNamed("net", func() {
		for i := 0; i < 3; i++ {
			r.feed(fmt.Sprint("m", i))
		}
	})
	if mode == 2 {
		vrt.GoNamed("setter", func() { r.set("b", nil) })
	}
	vrt.Quiesce()
	r.check("m0", "m1", "m2")
	// the call in progress ends first, the next message goes to the new listener
	for i, c := range r.calls {
		want := "a"
		if i > 0 && mode == 0 {
			want = "b"
		}
		if i > 0 && mode == 3 {
			want = "c"
		}
		if mode != 2 && c.who != want {
			vrt.Fail("message %s went to listener %s, want %s", c.msg, c.who, want)
		}
	}
	vrt.Outcome(r.outcome())
}

func lisHist() {
	ops := []string{"msg", "set1", "set2", "hold", "release"}
	depth := pick(6, 8)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("history %v", h) })
	vrt.SchedOff()
	r := newLisRig()
	gate := false // while true, a running listener waits
	inside := func(string) { vrt.Block("gate", func() bool { return !gate }) }
	cur := ""
	var pending []string // arrived, not yet passed on
	busy := false
	var want []string
	num := 0
	flush := func() {
		for cur != "" && !busy && len(pending) > 0 {
			want = append(want, cur+":"+pending[0])
			pending = pending[1:]
			if gate {
				busy = true
			}
		}
	}
	for i := 0; i < depth+1; i++ {
		op := "release"
		if i < depth {
			op = ops[vrt.Choose(len(ops))]
		}
		h = append(h, op)
		switch op {
		case "msg":
			num++
			m := fmt.Sprint("m", num)
			r.feed(m)
			pending = append(pending, m)
		case "set1", "set2":
			cur = op[3:]
			r.ep.SetDataListener(r.listener(cur, inside))
		case "hold":
			gate = true
		case "release":
			gate = false
			busy = false
		}
		flush()
		vrt.Quiesce()
		var got []string
		for _, c := range r.calls {
			got = append(got, c.who+":"+c.msg)
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			vrt.Fail("after %s the calls are %v, want %v", op, got, want)
		}
		vrt.Count("states", 1)
	}
	var left []string
	for _, d := range drain(r.ep) {
		left = append(left, d.GetData().(string))
	}
	if strings.Join(left, " ") != strings.Join(pending, " ") {
		vrt.Fail("readable from the receive channel: %v, want %v", left, pending)
	}
	vrt.Count("traces", 1)
}

// lisRemoved: removing the listener and setting one again, with nothing
// received in between, is no different from replacing it.
func lisRemoved() {
	before := vrt.Choose(2)
	times := 1 + vrt.Choose(2)
	last := vrt.Choose(2) == 1 // the last set races with the messages
	vrt.SetCase(func() string {
		return fmt.Sprintf("%d messages, removed %d times, set again while messages arrive %v", before, times, last)
	})
	var r *lisRig
	var msgs []string
	quiet(func() {
		r = newLisRig()
		r.set("l0", nil)
		for i := 0; i < before; i++ {
			r.feed(fmt.Sprint("b", i))
			msgs = append(msgs, fmt.Sprint("b", i))
		}
		vrt.Quiesce()
		for i := 1; i <= times; i++ {
			r.ep.SetDataListener(nil)
			r.set(fmt.Sprint("l", i), nil)
			vrt.Quiesce()
		}
	})
	for i := 0; i < 4; i++ {
		msgs = append(msgs, fmt.Sprint("m", i))
	}
	vrt.GoNamed("net", func() {
		for i := 0; i < 4; i++ {
			r.feed(fmt.Sprint("m", i))
		}
	})
	if last {
		r.set("last", nil)
	}
	vrt.Quiesce()
	r.check(msgs...)
	vrt.Outcome(r.outcome())
}

// lisGap: the fate of messages that arrive while no listener is set is open,
// but a listener set later gets everything that arrives after it.
func lisGap() {
	before := vrt.Choose(2)
	gaps := 1 + vrt.Choose(2)
	settled := vrt.Choose(2) == 1 // the messages of the gap arrive before the next set
	vrt.SetCase(func() string {
		return fmt.Sprintf("%d messages, %d gaps, the next listener set after the gap's messages %v", before, gaps, settled)
	})
	var r *lisRig
	var must []string
	quiet(func() {
		r = newLisRig()
		r.set("l0", nil)
		for i := 0; i < before; i++ {
			r.feed(fmt.Sprint("b", i))
			must = append(must, fmt.Sprint("b", i))
		}
		vrt.Quiesce()
	})
	all := append([]string(nil), must...)
	for g := 0; g < gaps; g++ {
		r.ep.SetDataListener(nil)
		a, b := fmt.Sprint("g", g, "a"), fmt.Sprint("g", g, "b")
		all = append(all, a, b)
		vrt.GoNamed("net", func() {
			r.feed(a)
			r.feed(b)
		})
		if settled {
			vrt.Quiesce()
		}
		r.set(fmt.Sprint("l", g+1), nil)
		vrt.Quiesce()
		for i := 0; i < 2; i++ {
			m := fmt.Sprint("m", g, i)
			r.feed(m)
			must = append(must, m)
			all = append(all, m)
		}
		vrt.Quiesce()
	}
	var kept []string
	got := map[string]bool{}
	for _, c := range r.calls {
		got[c.msg] = true
	}
	missing := map[string]bool{}
	for _, m := range must {
		missing[m] = true
	}
	for _, m := range all {
		if got[m] || missing[m] {
			kept = append(kept, m)
		}
	}
	r.check(kept...)
	vrt.Outcome(r.outcome())
}

func lisNone() {
	reader := vrt.Choose(2) == 1
	later := vrt.Choose(2) == 1
	vrt.SetCase(func() string { return fmt.Sprintf("concurrent reader %v, listener set later %v", reader, later) })
	var r *lisRig
	quiet(func() { r = newLisRig() })
	var got []string
	vrt.GoNamed("net", func() {
		for i := 0; i < 3; i++ {
			r.feed(fmt.Sprint("m", i))
		}
	})
	if reader {
		for i := 0; i < 2; i++ {
			d := vrt.Recv(r.ep.GetRxChannel())
			got = append(got, d.GetData().(string))
		}
	}
	vrt.Quiesce()
	if later {
		r.set("l", nil)
		vrt.Quiesce()
		for _, c := range r.calls {
			got = append(got, c.msg)
		}
	} else {
		for _, d := range drain(r.ep) {
			got = append(got, d.GetData().(string))
		}
	}
	if strings.Join(got, " ") != "m0 m1 m2" {
		vrt.Fail("received %v", got)
	}
	vrt.Outcome(fmt.Sprint(reader, later))
}

// ---- C27 -------------------------------------------------------------------

type regRig struct {
	u    ustack.UStack
	eps  []ustack.EndPoint
	tps  []*ftran
	evs  []string
	name map[any]string
}

func newRegRig() *regRig {
	r := &regRig{u: ustack.NewUStack(), name: map[any]string{}}
	for i := 0; i < 3; i++ {
		e := ustack.NewEndPoint("same", i+1)
		r.eps = append(r.eps, e)
		r.name[e] = string(rune('A' + i))
	}
	for i := 0; i < 2; i++ {
		t := newFtran("same")
		r.tps = append(r.tps, t)
		r.name[t] = string(rune('T' + i))
	}
	r.u.SetEventListener(func(e ustack.Event) {
		vrt.Touch("evs")
		n, ok := r.name[e.Data]
		if !ok {
			vrt.Fail("event %s names %v", eventName(e.Type), e.Data)
		}
		if e.Source != r.u {
			vrt.Fail("event %s of %s has source %v", eventName(e.Type), n, e.Source)
		}
		r.evs = append(r.evs, eventName(e.Type)+n)
	})
	return r
}

func (r *regRig) lists() (string, string) {
	e, t := "", ""
	for _, x := range r.u.GetEndPoint() {
		e += r.name[x]
	}
	for _, x := range r.u.GetTransport() {
		t += r.name[x]
	}
	return e, t
}

// do performs operation o: 0..2 add endpoint, 3..5 delete endpoint, 6,7 add
// transport, 8,9 delete transport.
func (r *regRig) do(o int) {
	switch {
	case o < 3:
		r.u.AddEndPoint(r.eps[o])
	case o < 6:
		r.u.DeleteEndPoint(r.eps[o-3])
	case o < 8:
		r.u.AddTransport(r.tps[o-6])
	case o < 10:
		r.u.DeleteTransport(r.tps[o-8])
	default:
		r.u.Run()
	}
}

func regHist() {
	ops := []string{"+A", "+B", "+C", "-A", "-B", "-C", "+T", "+U", "-T", "-U", "run"}
	depth := pick(5, 6)
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("history %v", h) })
	vrt.SchedOff()
	r := newRegRig()
	eps, tps := "", ""
	var evs []string
	run := false
	for i := 0; i < depth; i++ {
		o := vrt.Choose(len(ops))
		if ops[o] == "run" {
			if run {
				return // a stack is started once
			}
			run = true
		}
		h = append(h, ops[o])
		r.do(o)
		vrt.Quiesce()
		n := ops[o][1:]
		l := &eps
		kind := "e"
		if n == "T" || n == "U" {
			l, kind = &tps, "t"
		}
		switch ops[o][0] {
		case '+':
			if !strings.Contains(*l, n) {
				*l += n
				evs = append(evs, kind+"add"+n)
			}
		case '-':
			if strings.Contains(*l, n) {
				*l = strings.Replace(*l, n, "", 1)
				evs = append(evs, kind+"del"+n)
			}
		}
		ge, gt := r.lists()
		if ge != eps || gt != tps {
			vrt.Fail("after %s the lists are %q and %q, want %q and %q", ops[o], ge, gt, eps, tps)
		}
		if strings.Join(r.evs, " ") != strings.Join(evs, " ") {
			vrt.Fail("after %s the events are %v, want %v", ops[o], r.evs, evs)
		}
		for i, t := range r.tps {
			if n := r.name[t]; run && strings.Contains(tps, n) != (t.runs > t.stops) {
				vrt.Fail("transport %d: listed %v, started %d times, stopped %d times", i, strings.Contains(tps, n), t.runs, t.stops)
			}
		}
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}

// regOrder: longer lists keep the order of addition.
func regOrder() {
	tran := vrt.Choose(2) == 1
	run := vrt.Choose(2) == 1
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("transports %v, started %v, history %v", tran, run, h) })
	vrt.SchedOff()
	r := &regRig{u: ustack.NewUStack(), name: map[any]string{}}
	const n = 5
	for i := 0; i < n; i++ {
		e := ustack.NewEndPoint("same", i+1)
		t := newFtran("same")
		r.eps, r.tps = append(r.eps, e), append(r.tps, t)
		r.name[e], r.name[t] = string(rune('A'+i)), string(rune('T'+i))
	}
	// the list of the other kind stays as it is
	wantE, wantT := "", ""
	for i := 0; i < n; i++ {
		r.u.AddEndPoint(r.eps[i]).AddTransport(r.tps[i])
		wantE += r.name[r.eps[i]]
		wantT += r.name[r.tps[i]]
	}
	if run {
		r.u.Run()
	}
	r.u.SetEventListener(func(e ustack.Event) { r.evs = append(r.evs, eventName(e.Type)+r.name[e.Data]) })
	var evs []string
	check := func() {
		e, t := r.lists()
		if e != wantE || t != wantT {
			vrt.Fail("the lists are %q and %q, want %q and %q", e, t, wantE, wantT)
		}
		if strings.Join(r.evs, " ") != strings.Join(evs, " ") {
			vrt.Fail("the events are %v, want %v", r.evs, evs)
		}
	}
	check()
	for d := 0; d < pick(4, 5); d++ {
		i := vrt.Choose(n)
		var x string
		l := &wantE
		k := "e"
		if tran {
			l, x, k = &wantT, r.name[r.tps[i]], "t"
		} else {
			x = r.name[r.eps[i]]
		}
		if strings.Contains(*l, x) {
			h = append(h, "-"+x)
			*l = strings.Replace(*l, x, "", 1)
			evs = append(evs, k+"del"+x)
			if tran {
				r.u.DeleteTransport(r.tps[i])
			} else {
				r.u.DeleteEndPoint(r.eps[i])
			}
		} else {
			h = append(h, "+"+x)
			*l += x
			evs = append(evs, k+"add"+x)
			if tran {
				r.u.AddTransport(r.tps[i])
			} else {
				r.u.AddEndPoint(r.eps[i])
			}
		}
		vrt.Quiesce()
		check()
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
}

func regConc() {
	mode := vrt.Choose(4)
	started := vrt.Choose(2) == 1
	progs := [][][]int{
		{{0, 3}, {1}, {6, 8}}, // A added and deleted | B added | T added and deleted
		{{3}, {4}, {2}},       // A, B deleted | C added (A, B present)
		{{3, 0}, {1, 4}, {9}}, // A re-added | B deleted... | U deleted
		{{0, 3, 0}, {7}, {8}}, // A toggled | U added | T deleted
	}
	init := [][]int{{}, {0, 1, 6}, {0, 1, 6, 7}, {2, 6}}
	vrt.SetCase(func() string { return fmt.Sprintf("mode %d, started %v", mode, started) })
	r := newRegRig()
	have := map[string]bool{}
	names := []string{"A", "B", "C", "A", "B", "C", "T", "U", "T", "U"}
	var want []string
	apply := func(o int) {
		add := o < 3 || o == 6 || o == 7
		if have[names[o]] != add {
			have[names[o]] = add
			k := "e"
			if o >= 6 {
				k = "t"
			}
			t := "del"
			if add {
				t = "add"
			}
			want = append(want, k+t+names[o])
		}
	}
	quiet(func() {
		if started {
			r.u.Run()
		}
		for _, o := range init[mode] {
			r.do(o)
			apply(o)
		}
	})
	stable := map[string]bool{}
	for n := range have {
		stable[n] = true
	}
	for _, p := range progs[mode] {
		for _, o := range p {
			delete(stable, names[o])
			apply(o) // different goroutines never touch the same object
		}
	}
	for i, p := range progs[mode] {
		p := p
		if i == 0 {
			continue
		}
		vrt.GoNamed("mutator", func() {
			for _, o := range p {
				r.do(o)
			}
		})
	}
	vrt.GoNamed("reader", func() {
		for i := 0; i < 2; i++ {
			e, t := r.lists()
			for n := range stable {
				if !strings.Contains(e+t, n) {
					vrt.Fail("%s is missing in the lists %q and %q", n, e, t)
				}
			}
			for _, n := range []string{"A", "B", "C", "T", "U"} {
				if strings.Count(e+t, n) > 1 {
					vrt.Fail("%s is listed twice: %q and %q", n, e, t)
				}
			}
		}
	})
	for _, o := range progs[mode][0] {
		r.do(o)
	}
	vrt.Quiesce()
	e, t := r.lists()
	for _, n := range []string{"A", "B", "C", "T", "U"} {
		if strings.Count(e+t, n) != b2i(have[n]) {
			vrt.Fail("lists %q and %q: %s is there %d times, want %d", e, t, n, strings.Count(e+t, n), b2i(have[n]))
		}
	}
	n := map[string]int{}
	for _, x := range r.evs {
		n[x]++
	}
	for _, x := range want {
		n[x]--
	}
	for x, k := range n {
		if k != 0 {
			vrt.Fail("events %v, want (in some order) %v: %s %+d", r.evs, want, x, k)
		}
	}
	if started {
		for _, tp := range r.tps {
			if n := r.name[tp]; have[n] != (tp.runs > tp.stops) {
				vrt.Fail("transport %s: listed %v, started %d times, stopped %d times", n, have[n], tp.runs, tp.stops)
			}
		}
	}
	vrt.Outcome(e + "/" + t)
}

func regSame() {
	tran := vrt.Choose(2) == 1
	mode := vrt.Choose(3)
	started := vrt.Choose(2) == 1
	modes := []string{"add | add", "delete | delete", "delete+add | delete+add"}
	vrt.SetCase(func() string { return fmt.Sprintf("transport %v, started %v: %s", tran, started, modes[mode]) })
	r := newRegRig()
	add, del, n := 1, 4, "B"
	if tran {
		add, del, n = 6, 8, "T"
	}
	quiet(func() {
		if started {
			r.u.Run()
		}
		r.do(0)
		if mode != 0 {
			r.do(add)
		}
		r.do(2)
	})
	r.evs = nil
	prog := [][]int{{add}, {del}, {del, add}}[mode]
	vrt.GoNamed("other", func() {
		for _, o := range prog {
			r.do(o)
		}
	})
	for _, o := range prog {
		r.do(o)
	}
	vrt.Quiesce()
	vrt.SchedOff()
	present := func() int {
		e, t := r.lists()
		if strings.Replace(e, "B", "", -1) != "AC" {
			vrt.Fail("other endpoints changed: %q", e)
		}
		return strings.Count(e+t, n)
	}
	check := func(was int) {
		na, nd := 0, 0
		for _, x := range r.evs {
			na += b2i(strings.HasSuffix(x, "add"+n))
			nd += b2i(strings.HasSuffix(x, "del"+n))
		}
		p := present()
		if p != was+na-nd || p > 1 {
			vrt.Fail("listed %d times after the events %v (before: %d)", p, r.evs, was)
		}
		if mode == 0 && na != 1 || mode == 1 && nd != 1 {
			vrt.Fail("events %v, want exactly one", r.evs)
		}
		if tran && started && (r.tps[0].runs > r.tps[0].stops) != (p == 1) {
			vrt.Fail("transport listed %d times, started %d times, stopped %d times", p, r.tps[0].runs, r.tps[0].stops)
		}
	}
	check(b2i(mode != 0))
	// afterwards everything works as usual
	p := present()
	r.evs = nil
	if p == 1 {
		r.do(del)
		r.do(add)
	} else {
		r.do(add)
		r.do(del)
	}
	vrt.Quiesce()
	if len(r.evs) != 2 || present() != p {
		vrt.Fail("later changes: events %v, listed %d times", r.evs, present())
	}
	vrt.Outcome(fmt.Sprint(modes[mode], tran, p))
}

// pubRelisten: an endpoint's events go to the listener it was given last.
func pubRelisten() {
	ops := []string{"set", "none", "self", "flip", "publish"}
	depth := pick(6, 8)
	started := vrt.Choose(2) == 1
	var h []string
	vrt.SetCase(func() string { return fmt.Sprintf("started %v, history %v", started, h) })
	vrt.SchedOff()
	u := ustack.NewUStack()
	if started {
		u.Run()
	}
	a, b := ustack.NewEndPoint("a", 1), ustack.NewEndPoint("b", 2)
	var calls []int
	others := 0
	b.SetEventListener(func(ustack.EndPoint, ustack.Event) { others++ })
	cur, gen, listed := 0, 0, false // the listener of a, 0: none
	var set func(self bool)
	set = func(self bool) {
		gen++
		g := gen
		cur = g
		a.SetEventListener(func(x ustack.EndPoint, e ustack.Event) {
			if x != a || e.Type != 100 && e.Data != ustack.EndPoint(a) && e.Data != ustack.EndPoint(b) {
				vrt.Fail("the listener is called with another endpoint or event")
			}
			calls = append(calls, g)
			if self {
				set(false)
			}
		})
	}
	u.AddEndPoint(b)
	for i := 0; i < depth; i++ {
		op := ops[vrt.Choose(len(ops))]
		h = append(h, op)
		calls, others = nil, 0
		switch op {
		case "set", "self":
			set(op == "self")
			if len(calls)+others > 0 {
				vrt.Fail("setting a listener calls one")
			}
		case "none":
			a.SetEventListener(nil)
			cur = 0
			if len(calls)+others > 0 {
				vrt.Fail("taking the listener away calls one")
			}
		case "flip":
			was := cur
			if listed {
				u.DeleteEndPoint(a)
			} else {
				u.AddEndPoint(a)
			}
			listed = !listed
			// whether an endpoint sees its own addition and deletion is open
			if others != 1 || len(calls) > 1 || len(calls) == 1 && calls[0] != was {
				vrt.Fail("%s: listener %d is set, called %v, the other endpoint's %d times", op, was, calls, others)
			}
		case "publish":
			was := cur
			u.PublishEvent(ustack.Event{Type: 100, Source: u})
			want := []int{}
			if listed && was > 0 {
				want = append(want, was)
			}
			if others != 1 || fmt.Sprint(calls) != fmt.Sprint(want) {
				vrt.Fail("published an event with listener %d set, registered %v: called %v, the other endpoint's %d times", was, listed, calls, others)
			}
		}
		vrt.Count("states", 1)
	}
	vrt.Count("traces", 1)
	vrt.Outcome(fmt.Sprint(h))
}
