package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"ustack"
	"ustack/vrt"
	"ustack/vrt/vnet"
)

// ---- a scripted transport connection ------------------------------------

type fconn struct {
	name   string
	closed bool
	chunks [][]byte // what successive reads return
	eof    bool
	lastly error // comes along with the last chunk
	wrote  [][]byte
	failW  bool
	ref    bool
	inRef  []any
	outRef []any
	nclose int
	onW    func()
	o      vrt.HObj
}

func (c *fconn) GetName() string { return c.name }

func (c *fconn) Read(p []byte) (int, error) {
	vrt.Point("fconn.read")
	vrt.Block("fconn.read", func() bool { return c.closed || len(c.chunks) > 0 || c.eof })
	c.o.AcqRel()
	if c.closed {
		return 0, errors.New("closed")
	}
	if len(c.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.chunks[0])
	if n < len(c.chunks[0]) {
		c.chunks[0] = c.chunks[0][n:]
	} else {
		c.chunks = c.chunks[1:]
		if len(c.chunks) == 0 && c.lastly != nil {
			c.eof = true
			return n, c.lastly
		}
	}
	return n, nil
}

func (c *fconn) Write(p []byte) (int, error) {
	vrt.Point("fconn.write")
	c.o.AcqRel()
	if c.closed || c.failW {
		return 0, errors.New("write failed")
	}
	c.wrote = append(c.wrote, append([]byte(nil), p...))
	if c.onW != nil {
		c.onW()
	}
	return len(p), nil
}

func (c *fconn) UseReference() bool { return c.ref }

func (c *fconn) GetReference() (interface{}, error) {
	vrt.Point("fconn.getref")
	vrt.Block("fconn.getref", func() bool { return c.closed || len(c.inRef) > 0 })
	c.o.AcqRel()
	if c.closed {
		return nil, errors.New("closed")
	}
	v := c.inRef[0]
	c.inRef = c.inRef[1:]
	return v, nil
}

func (c *fconn) SetReference(p interface{}) error {
	vrt.Point("fconn.setref")
	c.o.AcqRel()
	if c.closed || !c.ref || p == nil {
		return errors.New("setref failed")
	}
	c.outRef = append(c.outRef, p)
	return nil
}

func (c *fconn) Close() {
	vrt.Point("fconn.close")
	c.o.AcqRel()
	c.closed = true
	c.nclose++
}

func (c *fconn) Closed() bool {
	vrt.Point("fconn.closed")
	c.o.AcqRel()
	return c.closed
}

// feed makes one more chunk readable (harness side).
func (c *fconn) feed(b []byte) {
	vrt.Point("feed")
	c.o.AcqRel()
	c.chunks = append(c.chunks, append([]byte(nil), b...))
}

func (c *fconn) wire() []byte { return bytes.Join(c.wrote, nil) }

// ---- a scripted transport ------------------------------------------------

type ftran struct {
	name    string
	addr    string
	queue   []*fconn
	stopped bool
	running bool
	runs    int
	stops   int
	opts    map[string]any
	o       vrt.HObj
}

func newFtran(name string, conns ...*fconn) *ftran {
	return &ftran{name: name, addr: "address", queue: conns, opts: map[string]any{}}
}

func (t *ftran) GetName() string                                    { return t.name }
func (t *ftran) SetOption(n string, v interface{}) ustack.Transport { t.opts[n] = v; return t }
func (t *ftran) GetOption(n string) interface{}                     { return t.opts[n] }
func (t *ftran) ForServer(bool) ustack.Transport                    { return t }
func (t *ftran) SetAddress(a string) ustack.Transport               { t.addr = a; return t }
func (t *ftran) GetAddress() string                                 { return t.addr }
func (t *ftran) Run() ustack.Transport                              { t.runs++; t.stopped = false; return t }
func (t *ftran) Stop() ustack.Transport {
	vrt.Point("ftran.stop")
	t.o.AcqRel()
	t.stopped = true
	t.stops++
	return t
}

func (t *ftran) NextConnection() ustack.TransportConnection {
	vrt.Point("ftran.next")
	vrt.Block("ftran.next", func() bool { return t.stopped || len(t.queue) > 0 })
	t.o.AcqRel()
	if t.stopped {
		return nil
	}
	c := t.queue[0]
	t.queue = t.queue[1:]
	return c
}

func (t *ftran) offer(c *fconn) {
	vrt.Point("offer")
	t.o.AcqRel()
	t.queue = append(t.queue, c)
}

// ---- probes: processors at the top and the bottom of a stack -------------

type probe struct {
	ustack.ProcBase
	up, down ustack.DataProcessor
	onUpper  func(ustack.Context)
	onLower  func(ustack.Context)
}

func newProbe(name string) *probe {
	p := &probe{ProcBase: ustack.NewProcBaseInstance(name)}
	p.ProcBase.SetWhere(p)
	return p
}

func (p *probe) SetUpper(u ustack.DataProcessor) ustack.DataProcessor { p.up = u; return p }
func (p *probe) SetLower(l ustack.DataProcessor) ustack.DataProcessor { p.down = l; return p }
func (p *probe) OnUpperData(c ustack.Context) {
	if p.onUpper != nil {
		p.onUpper(c)
		return
	}
	p.down.OnUpperData(c)
}
func (p *probe) OnLowerData(c ustack.Context) {
	if p.onLower != nil {
		p.onLower(c)
		return
	}
	p.up.OnLowerData(c)
}

type upMsg struct {
	conn    ustack.TransportConnection
	msg     any
	bytes   []byte // readable bytes of the buffer, if any
	hasBuf  bool
	session any
}

// rig is a stack cut below (bottom) and above (top): data is pushed in by
// direct calls, so that one case is a plain sequential computation.
type rig struct {
	u           ustack.UStack
	top, bottom *probe
	got         []upMsg  // what came up
	wire        [][]byte // what came down, one entry per message
	wireConn    []ustack.TransportConnection
	conn        *fconn
}

func newRig(mtu int, procs ...ustack.DataProcessor) *rig {
	r := &rig{u: ustack.NewUStack(), top: newProbe("top"), bottom: newProbe("bottom"), conn: &fconn{name: "c"}}
	if mtu > 0 {
		r.u.SetOption("MTU", mtu)
	}
	r.top.onLower = func(c ustack.Context) {
		m := upMsg{conn: c.GetConnection(), msg: c.GetMessage(), session: c.GetOption("session")}
		if b := c.GetBuffer(); b != nil {
			m.hasBuf = true
			m.bytes = peekAll(b)
		}
		r.got = append(r.got, m)
	}
	r.bottom.onUpper = func(c ustack.Context) {
		b := c.GetBuffer()
		if b == nil {
			r.wire = append(r.wire, nil)
		} else {
			r.wire = append(r.wire, peekAll(b))
		}
		r.wireConn = append(r.wireConn, c.GetConnection())
	}
	r.u.AppendDataProcessor(r.top)
	for _, p := range procs {
		r.u.AppendDataProcessor(p)
	}
	r.u.AppendDataProcessor(r.bottom)
	r.u.Run()
	return r
}

func peekAll(b *ustack.UBuf) []byte {
	p := make([]byte, b.ReadableLength())
	if len(p) > 0 {
		b.Peek(p)
	}
	return p
}

// send pushes a message down from the top.
func (r *rig) send(c ustack.TransportConnection, msg any, session any) {
	x := ustack.NewUStackContext().SetConnection(c).SetMessage(msg)
	if session != nil {
		x.SetOption("session", session)
	}
	r.top.down.OnUpperData(x)
}

// sendBuf pushes a buffer down from the top (stacks without codec).
func (r *rig) sendBuf(c ustack.TransportConnection, p []byte) {
	ub := ustack.UBufAllocWithHeadReserved(r.u.GetMTU()+r.u.GetOverhead(), r.u.GetOverhead())
	if len(p) > 0 {
		ub.Write(p)
	}
	r.top.down.OnUpperData(ustack.NewUStackContext().SetConnection(c).SetBuffer(ub))
}

// recv pushes received bytes up from the bottom, as the lower deck does.
func (r *rig) recv(c ustack.TransportConnection, p []byte) {
	ub := ustack.UBufAlloc(r.u.GetMTU())
	if len(p) > 0 {
		ub.Write(p)
	}
	r.bottom.up.OnLowerData(ustack.NewUStackContext().SetConnection(c).SetBuffer(ub))
}

func (r *rig) takeWire() [][]byte { w := r.wire; r.wire, r.wireConn = nil, nil; return w }
func (r *rig) takeGot() []upMsg   { g := r.got; r.got = nil; return g }

func (r *rig) publish(t int, data any) {
	r.u.PublishEvent(ustack.Event{Type: t, Source: r.u, Data: data})
}

// ---- endpoints with small channels --------------------------------------

type sep struct { // small endpoint
	name    string
	session int
	tx, rx  chan ustack.EndPointData
	events  []ustack.Event
	onEvent func(ustack.EndPoint, ustack.Event)
}

func newSep(name string, session, cap int) *sep {
	return &sep{name: name, session: session, tx: make(chan ustack.EndPointData, cap), rx: make(chan ustack.EndPointData, cap)}
}

func (e *sep) SetName(n string) ustack.EndPoint                                             { e.name = n; return e }
func (e *sep) GetName() string                                                              { return e.name }
func (e *sep) SetSession(s int) ustack.EndPoint                                             { e.session = s; return e }
func (e *sep) GetSession() int                                                              { return e.session }
func (e *sep) GetTxChannel() chan ustack.EndPointData                                       { return e.tx }
func (e *sep) GetRxChannel() chan ustack.EndPointData                                       { return e.rx }
func (e *sep) SetDataListener(f func(ustack.EndPoint, ustack.EndPointData)) ustack.EndPoint { return e }
func (e *sep) SetEventListener(f func(ustack.EndPoint, ustack.Event)) ustack.EndPoint {
	e.onEvent = f
	return e
}
func (e *sep) OnEvent(ev ustack.Event) {
	e.events = append(e.events, ev)
	if e.onEvent != nil {
		e.onEvent(e, ev)
	}
}

// send puts a message in the endpoint's send channel.
func send(ep ustack.EndPoint, c ustack.TransportConnection, data any) {
	vrt.Send(ep.GetTxChannel(), ustack.NewEndPointData().SetConnection(c).SetData(data))
}

func sendTo(ep ustack.EndPoint, c ustack.TransportConnection, data any, session int) {
	vrt.Send(ep.GetTxChannel(), ustack.NewEndPointData().SetConnection(c).SetData(data).SetDestinationSession(session))
}

// drain takes everything now in the receive channel.
func drain(ep ustack.EndPoint) []ustack.EndPointData {
	var l []ustack.EndPointData
	for {
		d, ok := vrt.TryRecv(ep.GetRxChannel())
		if !ok {
			return l
		}
		l = append(l, d)
	}
}

// show renders a delivered message.
func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case []byte:
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		return fmt.Sprintf("&%+v", rv.Elem().Interface())
	}
	return fmt.Sprintf("%+v", v)
}

func showEpds(l []ustack.EndPointData) string {
	s := "["
	for i, d := range l {
		if i > 0 {
			s += " "
		}
		s += show(d.GetData())
	}
	return s + "]"
}

func eventName(t int) string {
	names := []string{"new", "closed", "lost", "recover", "tadd", "tdel", "eadd", "edel"}
	if t >= 0 && t < len(names) {
		return names[t]
	}
	return fmt.Sprint(t)
}

// ---- two stacks over a virtual network ------------------------------------

type node2 struct {
	u      ustack.UStack
	conns  []ustack.TransportConnection // announced, in order
	closed []ustack.TransportConnection
	lost   []ustack.TransportConnection
	evs    []ustack.Event
	tr     ustack.Transport
}

func newNode(name string, mtu int, procs ...ustack.DataProcessor) *node2 {
	n := &node2{u: ustack.NewUStack().SetName(name)}
	if mtu > 0 {
		n.u.SetOption("MTU", mtu)
	}
	for _, p := range procs {
		n.u.AppendDataProcessor(p)
	}
	n.u.SetEventListener(func(e ustack.Event) {
		vrt.Touch("events " + name)
		n.evs = append(n.evs, e)
		switch e.Type {
		case ustack.UStackEventNewConnection:
			n.conns = append(n.conns, e.Data.(ustack.TransportConnection))
		case ustack.UStackEventConnectionClosed:
			n.closed = append(n.closed, e.Data.(ustack.TransportConnection))
		case ustack.UStackEventHeartbeatLost:
			n.lost = append(n.lost, e.Data.(ustack.TransportConnection))
		}
	})
	return n
}

// kind of network transport: 0 TCP, 1 Unix
func newTransport(kind int, name string, server bool, addr string) ustack.Transport {
	var t ustack.Transport
	if kind == 0 {
		t = ustack.NewTCPTransport(name)
	} else {
		t = ustack.NewUDSTransport(name)
	}
	return t.ForServer(server).SetAddress(addr)
}

func netName(kind int) string { return []string{"tcp", "unix"}[kind] }
func netAddr(kind int) string { return []string{"127.0.0.1:4000", "/tmp/u.sock"}[kind] }

// rawDial connects the harness itself to a listening transport.
func rawDial(kind int) *vnet.VConn {
	c, err := vnet.Dial(netName(kind), netAddr(kind))
	if err != nil {
		vrt.Fail("the transport does not accept connections: %v", err)
	}
	return c.(*vnet.VConn)
}

// quiet runs f without scheduling choices and waits until the system is idle.
func quiet(f func()) {
	vrt.SchedOff()
	f()
	vrt.Quiesce()
	vrt.SchedOn()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
