S = []
def s(id, prop, needs, breaks, edits, demo):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))

s('C01-reset-keeps-head', 'C01', 'a buffer whose head was written (reader index below the reservation), then Reset',
  'Reset leaves stale bytes readable: bytes come out that were never written after the reset',
  [('ubuf.go', "	ub.readerIndex = ub.reserved\n	ub.writerIndex = ub.reserved\n}", "	ub.writerIndex = ub.reserved\n	if ub.readerIndex > ub.reserved {\n		ub.readerIndex = ub.reserved\n	}\n}")],
  '''
func TestDemo(t *testing.T) {
	ub := UBufAllocWithHeadReserved(16, 8)
	ub.WriteHeadU32(0x01020304)
	ub.Reset()
	if ub.ReadableLength() != 0 || ub.HeadWritableLength() != 8 {
		t.Fatal(ub.ReadableLength(), ub.HeadWritableLength())
	}
}''')

s('C01-full-write-resets', 'C01', 'a one-byte write on a buffer that is full at the tail and completely read',
  'a failing WriteByte changes the buffer: the lengths of head and tail room change although the call failed',
  [('ubuf.go', "	if ub.TailWritableLength() <= 0 {\n		return errors.New(\"UBuf is full\")\n	}\n", "	if ub.TailWritableLength() < 1 {\n		if ub.readerIndex == ub.writerIndex {\n			ub.Reset()\n		}\n		return errors.New(\"UBuf is full\")\n	}\n")],
  '''
func TestDemo(t *testing.T) {
	ub := UBufAlloc(4)
	ub.Write([]byte{1, 2, 3, 4})
	ub.Read(make([]byte, 4))
	if ub.WriteByte(5) == nil {
		t.Fatal("no error")
	}
	if ub.HeadWritableLength() != 4 || ub.TailWritableLength() != 0 {
		t.Fatal("the failed write changed the buffer", ub.HeadWritableLength(), ub.TailWritableLength())
	}
}''')

s('C02-le64-short', 'C02', 'a little endian 64-bit write with 4 to 7 bytes of room left',
  'the write fails but leaves part of the value in the buffer',
  [('ubuf.go', "	if ub.TailWritableLength() < 8 {\n		return errors.New(\"UBuf: no more free data space\")\n	}\n\n	return binary.Write(ub, binary.LittleEndian, value)", "	if ub.TailWritableLength() < 4 {\n		return errors.New(\"UBuf: no more free data space\")\n	}\n\n	return binary.Write(ub, binary.LittleEndian, value)")],
  '''
func TestDemo(t *testing.T) {
	ub := UBufAlloc(6)
	if ub.WriteU64LE(1) == nil {
		t.Fatal("no error")
	}
	if ub.ReadableLength() != 0 {
		t.Fatal("part of the value was written")
	}
}''')

s('C03-short-write-loses', 'C03', 'a writer that accepts part of the bytes and reports an error (a short or failed write)',
  'the bytes that were not accepted are dropped from the buffer',
  [('ubuf.go', "	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])\n\n	ub.readerIndex += written\n", "	readable := ub.data.bytes[ub.readerIndex:ub.writerIndex]\n	written, err := w.Write(readable)\n	if err == nil || written > 0 {\n		ub.readerIndex += len(readable)\n	}\n")],
  """
type demoWriter struct{}

func (demoWriter) Write(p []byte) (int, error) { return 2, io.ErrShortWrite }

func TestDemo(t *testing.T) {
	ub := UBufAlloc(8)
	ub.Write([]byte("abcde"))
	n, err := ub.WriteTo(demoWriter{})
	if n != 2 || err == nil || string(demoBytes(ub)) != "cde" {
		t.Fatal(n, err, demoBytes(ub))
	}
}""")

s('C04-reset-shared', 'C04', 'a copy-on-write buffer whose last other snapshot is gone logically but which is snapshot again by reference to the stale flag: snapshot of a snapshot, then writes to the middle one',
  'a write through one snapshot is seen through another one',
  [('ubuf.go', "		ub.copyOnWrite = true\n		newub.copyOnWrite = true\n		return newub", "		newub.copyOnWrite = true\n		ub.copyOnWrite = atomic.LoadInt32(&ub.data.refCount) <= 2\n		return newub")],
  '''
func TestDemo(t *testing.T) {
	a := UBufAlloc(16)
	a.Write([]byte("ab"))
	b := UBufMakeSnapshot(a, UBufSnapshotTypeCopyOnWrite)
	c := UBufMakeSnapshot(a, UBufSnapshotTypeCopyOnWrite)
	a.Reset()
	a.Write([]byte("xy"))
	if string(demoBytes(b)) != "ab" || string(demoBytes(c)) != "ab" {
		t.Fatalf("%q %q", demoBytes(b), demoBytes(c))
	}
}''')

s('C06-empty-tail', 'C06', 'two frames in one read, the second with an empty payload or a header that ends exactly at the end of the read',
  'the last frame of the read is held back (until more data of the connection arrives)',
  [('proc_frame_decoder.go', "		if ub.ReadableLength() < FrameLengthFieldSizeInByte {\n			cache.ReadFrom(ub)", "		if ub.ReadableLength() <= FrameLengthFieldSizeInByte {\n			cache.ReadFrom(ub)")],
  '''
func TestDemo(t *testing.T) {
	u := NewUStack()
	top, bottom := newDemoProc(), newDemoProc()
	frm := NewFrameDecoder()
	frm.SetUStack(u)
	frm.SetUpper(top)
	frm.SetLower(bottom)
	frm.Run()
	c := newDemoConn("c")
	ub := UBufAlloc(32)
	ub.Write(append(demoFrame(1, 2), demoFrame()...))
	frm.OnLowerData(NewUStackContext().SetConnection(c).SetBuffer(ub))
	if len(top.up) != 2 {
		t.Fatal("frames delivered:", len(top.up))
	}
}''')

s('C08-short-session', 'C08', 'a peer that sends a message shorter than the session header',
  'the truncated message is delivered to the endpoint of session 0',
  [('proc_session_resolver.go', "		session, err := ub.ReadU32BE()\n		if err != nil {\n			return\n		}\n", "		session, _ := ub.ReadU32BE()\n")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewStringCodec()).
		AppendDataProcessor(NewSessionResolver()).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- []byte("ab")
	demoNone(t, ep)
	c.rx <- []byte("\\x00\\x00\\x00\\x00ok")
	if d := demoGet(t, ep); d.GetData() != "ok" {
		t.Fatal(d.GetData())
	}
}''')

s('C10-truncated-message', 'C10', 'a message larger than the MTU minus the overhead',
  'the first part of the too large message is sent and delivered as if it were a message',
  [('proc_codec_string.go', "		n, err := ub.Write([]byte(str))\n		if n == 0 || err != nil {\n			return\n		}\n", "		n, _ := ub.Write([]byte(str))\n		if n == 0 {\n			return\n		}\n")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().SetOption("MTU", 16).AddEndPoint(ep).
		AppendDataProcessor(NewStringCodec()).
		AppendDataProcessor(NewFrameDecoder()).
		AddTransport(newDemoTransport(c)).Run()
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("0123456789abc")
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("0123456789ab")
	demoWait(t, "a write", func() bool { return len(c.out()) > 0 })
	time.Sleep(200 * time.Millisecond)
	if o := c.out(); len(o) != 1 || string(o[0][4:]) != "0123456789ab" {
		t.Fatalf("%q", o)
	}
}''')

s('C11-high-sessions', 'C11', 'a session number of 2^31 or more',
  'a message for a session with the high bit set is not delivered',
  [('proc_session_resolver.go', 'context.SetOption("session", int(session))', 'context.SetOption("session", int(int32(session)))')],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0x80000001)
	NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewStringCodec()).
		AppendDataProcessor(NewSessionResolver()).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- []byte("\\x80\\x00\\x00\\x01ok")
	if d := demoGet(t, ep); d.GetData() != "ok" {
		t.Fatal(d.GetData())
	}
}''')

s('C12-shared-receive-buffer', 'C12', 'two messages received in succession, the first one still in use when the second arrives',
  'a message already delivered changes when a later one (of at most its size) arrives',
  [('proc_codec_bytes.go', "	ProcBase\n}", "	ProcBase\n	rx []byte\n}"),
   ('proc_codec_bytes.go', "	bc := &BytesCodec{\n		NewProcBaseInstance(\"BytesCodec\"),\n	}", "	bc := &BytesCodec{\n		ProcBase: NewProcBaseInstance(\"BytesCodec\"),\n	}"),
   ('proc_codec_bytes.go', "		bytes := make([]byte, ub.ReadableLength())\n", "		if cap(bc.rx) < ub.ReadableLength() {\n			bc.rx = make([]byte, ub.ReadableLength())\n		}\n		bytes := bc.rx[:ub.ReadableLength()]\n")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewBytesCodec()).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- []byte("first")
	a := demoGet(t, ep).GetData().([]byte)
	c.rx <- []byte("2nd")
	demoGet(t, ep)
	if string(a) != "first" {
		t.Fatalf("%q", a)
	}
}''')

s('C13-full-receiver-drops', 'C13', 'a receiver that falls 512 messages behind',
  'messages for the full endpoint are dropped instead of delayed',
  [('proc_upperdeck.go', "		select {\n		case ep.GetRxChannel() <- NewEndPointData().\n			SetConnection(context.GetConnection()).\n			SetData(message):\n		case <-stopchan:\n			// nobody reads any more, do not block other endpoints\n		}", "		data := NewEndPointData().SetConnection(context.GetConnection()).SetData(message)\n		select {\n		case ep.GetRxChannel() <- data:\n		case <-stopchan:\n			// nobody reads any more, do not block other endpoints\n		default:\n			// the endpoint is stuck\n		}")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewStringCodec()).
		AddTransport(newDemoTransport(c)).Run()
	for i := 0; i < 600; i++ {
		c.rx <- []byte(fmt.Sprint(i))
	}
	demoWait(t, "a full endpoint", func() bool { return len(ep.GetRxChannel()) == 512 })
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 600; i++ {
		if d := demoGet(t, ep); d.GetData() != fmt.Sprint(i) {
			t.Fatalf("message %d: %v", i, d.GetData())
		}
	}
}''')

s('C15-session-of-deleted', 'C15', 'an endpoint deleted at run time and added again under the same stack',
  'the endpoint added again gets nothing sent or delivered',
  [('proc_upperdeck.go', "	ch, ok := ud.endpoints[ep]\n	if ok {\n		close(ch)\n		delete(ud.endpoints, ep)\n	}", "	ch, ok := ud.endpoints[ep]\n	if ok {\n		close(ch)\n		if len(ud.endpoints) > 1 {\n			delete(ud.endpoints, ep)\n		}\n	}")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	u := NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewStringCodec()).
		AddTransport(newDemoTransport(c)).Run()
	time.Sleep(100 * time.Millisecond)
	u.DeleteEndPoint(ep)
	time.Sleep(100 * time.Millisecond)
	u.AddEndPoint(ep)
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("m")
	demoWait(t, "a write", func() bool { return len(c.out()) == 1 })
}''')

s('C17-one-try-short', 'C17', 'a Unix client transport whose server is there only for the last allowed attempt',
  'the client gives up one attempt early',
  [('tran_unix.go', "	uds.maxRetryCount = retry\n", "	uds.maxRetryCount = retry - 1\n")],
  '''
func TestDemo(t *testing.T) {
	addr := t.TempDir() + "/s"
	sv := NewUDSTransport("s").SetAddress(addr).Run()
	defer sv.Stop()
	time.Sleep(300 * time.Millisecond)
	cl := NewUDSTransport("c").ForServer(false).SetAddress(addr).SetOption("MaxRetryCount", 1).Run()
	defer cl.Stop()
	if cl.NextConnection() == nil {
		t.Fatal("gave up without an attempt")
	}
}''')

s('C18-refcount', 'C18', 'server and client reference transports of one address; one is stopped and started again while the other runs on',
  'the restarted side talks to a new channel and is not connected with its peer',
  [('tran_reference.go', "		if ch.refCount == 0 {\n			delete(chans, sm.runAddress)", "		if ch.refCount <= 1 {\n			delete(chans, sm.runAddress)")],
  '''
func TestDemo(t *testing.T) {
	sv := NewReferenceTransport("s").SetAddress("demo-ref").Run()
	cl := NewReferenceTransport("c").SetAddress("demo-ref").ForServer(false).Run()
	s := sv.NextConnection()
	cl.NextConnection()
	cl.Stop()
	cl.Run()
	c := cl.NextConnection()
	x := &struct{ a int }{1}
	c.SetReference(x)
	got := make(chan interface{}, 1)
	go func() { p, _ := s.GetReference(); got <- p }()
	select {
	case p := <-got:
		if p != interface{}(x) {
			t.Fatal(p)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("never arrived")
	}
}''')

s('C19-slow-check', 'C19', 'a timeout above ten seconds and a silent peer',
  'the loss is noticed seconds after the timeout instead of within a check period',
  [('proc_heartbeat.go', "			hb.check()\n			time.Sleep(time.Second)\n", "			hb.check()\n			period := time.Second\n			if hb.timeoutInSecond > 10 {\n				period *= time.Duration(hb.timeoutInSecond / 2)\n			}\n			time.Sleep(period)\n")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	lost := make(chan time.Time, 9)
	start := time.Now()
	NewUStack().SetEventListener(func(e Event) {
		if e.Type == UStackEventHeartbeatLost {
			lost <- time.Now()
		}
	}).AppendDataProcessor(NewHeartbeat().SetOption("TimeoutInSecond", 11)).
		AddTransport(newDemoTransport(c)).Run()
	if d := (<-lost).Sub(start); d > 13*time.Second {
		t.Fatal("lost after", d)
	}
}""")

s('C20-response-counted', 'C20', 'a collect response received before a collect request',
  'responses are counted as received messages',
  [('proc_stat_counter.go', "		} else if tag == StatCounterSelfMessageResTag {\n", "		}\n\n		atomic.AddUint64(&sc.rxCounter, 1)\n\n		if tag == StatCounterSelfMessageResTag {\n"),
   ('proc_stat_counter.go', "		} else {\n			atomic.AddUint64(&sc.rxCounter, 1)\n			// fmt.Println(\"StatCounter: rxCounter:\", sc.rxCounter)\n		}\n", "		}\n")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	NewUStack().
		AppendDataProcessor(NewStringCodec()).
		AppendDataProcessor(NewStatCounter()).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- append([]byte{StatCounterSelfMessageResTag}, make([]byte, 16)...)
	c.rx <- []byte("\\x00m")
	c.rx <- []byte{StatCounterSelfMessageReqTag}
	demoWait(t, "an answer", func() bool { return len(c.out()) == 1 })
	if o := c.out()[0]; o[16] != 1 {
		t.Fatal(o)
	}
}""")

s('C21-forward-all', 'C21', 'a forwarder with two functions, the first of which takes the message over',
  'the second function is consulted (and may take the message over) too',
  [('proc_forwarder.go', "	for _, fn := range fwd.forwardFn {\n		if fn(context, toUpper) {\n			return true\n		}\n	}\n	return false", "	taken := false\n	for _, fn := range fwd.forwardFn {\n		taken = fn(context, toUpper) || taken\n	}\n	return taken")],
  '''
func TestDemo(t *testing.T) {
	n := 0
	f := func(Context, bool) bool { n++; return true }
	fwd := NewForwarder(f, f)
	p := newDemoProc()
	fwd.SetUpper(p)
	fwd.SetLower(p)
	fwd.OnLowerData(NewUStackContext())
	if n != 1 || len(p.up) != 0 {
		t.Fatal(n, len(p.up))
	}
}''')

s('C22-echo-also-up', 'C22', 'an echo above a codec, where the message is already decoded when it is sent back',
  'the echoed message is delivered upward as well',
  [('proc_echo.go', "		echo.lower.OnUpperData(context)\n	} else", "		echo.lower.OnUpperData(context)\n	}\n\n	if !echo.enable || context.GetMessage() != nil")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewEcho()).
		AppendDataProcessor(NewStringCodec()).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- []byte("m")
	demoWait(t, "an echo", func() bool { return len(c.out()) == 1 })
	demoNone(t, ep)
}''')

s('C23-own-deletion', 'C23', 'an endpoint with an event listener that is deleted',
  'the endpoint does not see the event of its own deletion',
  [('endp_default.go', "	if ep.eventListener != nil {\n		ep.eventListener(ep, event)\n	}", "	if ep.eventListener != nil && event.Data != ep {\n		ep.eventListener(ep, event)\n	}")],
  '''
func TestDemo(t *testing.T) {
	n := 0
	ep := NewEndPoint("e", 0)
	ep.SetEventListener(func(_ EndPoint, e Event) {
		if e.Type == UStackEventEndpointDeleted && e.Data == ep {
			n++
		}
	})
	NewUStack().AddEndPoint(ep).DeleteEndPoint(ep)
	if n != 1 {
		t.Fatal("events of the own deletion:", n)
	}
}''')

s('C24-overlapping-calls', 'C24', 'a second message arriving while the listener still handles the first',
  'listener calls overlap and their order is lost',
  [('endp_default.go', "		go ep.autoReceive()\n", "		for i := 0; i < 2; i++ {\n			go ep.autoReceive()\n		}\n")],
  '''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	in, most, n := 0, 0, 0
	ep := NewEndPoint("e", 0)
	ep.SetDataListener(func(EndPoint, EndPointData) {
		mu.Lock()
		in++
		if in > most {
			most = in
		}
		mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		in--
		n++
		mu.Unlock()
	})
	for i := 0; i < 5; i++ {
		ep.GetRxChannel() <- NewEndPointData()
	}
	demoWait(t, "five calls", func() bool { mu.Lock(); defer mu.Unlock(); return n == 5 })
	if most > 1 {
		t.Fatal("overlapping calls:", most)
	}
}''')

s('C25-last-connection', 'C25', 'a message that names no connection, sent after one that does',
  'the message is sent on the connection of an earlier message instead of being dropped',
  [('proc_upperdeck.go', "						SetConnection(epd.GetConnection()).\n						SetMessage(epd.GetData()).", "						SetConnection(connection).\n						SetMessage(epd.GetData())."),
   ('proc_upperdeck.go', "				lower.OnUpperData(\n", "				if epd.GetConnection() != nil {\n					connection = epd.GetConnection()\n				}\n\n				lower.OnUpperData(\n"),
   ('proc_upperdeck.go', "	lower := ud.lower\n", "	lower := ud.lower\n	var connection TransportConnection\n")],
  '''
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().AddEndPoint(ep).
		AppendDataProcessor(NewStringCodec()).
		AddTransport(newDemoTransport(c)).Run()
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("a")
	ep.GetTxChannel() <- NewEndPointData().SetData("b")
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("c")
	demoWait(t, "the last message", func() bool {
		o := c.out()
		return len(o) > 0 && string(o[len(o)-1]) == "c"
	})
	if o := c.out(); len(o) != 2 {
		t.Fatalf("%q", o)
	}
}''')

s('C26-wrong-type', 'C26', 'a boolean option set to a value of another type, with the default true',
  'the option is read as false instead of its default',
  [('utils.go', "		value, ok := option.(bool)\n		if ok {\n			return value, true\n		}\n	}\n	return defaultValue, false", "		value, ok := option.(bool)\n		return value, ok\n	}\n	return defaultValue, false")],
  '''
func TestDemo(t *testing.T) {
	if v, ok := OptionParseBool("yes", true); !v || ok {
		t.Fatal(v, ok)
	}
}''')

s('C27-same-name', 'C27', 'two transports of the same name, the later one of which is deleted',
  'the wrong transport is removed from the registry',
  [('ustack_default.go', "		if transport != tp {\n", "		if transport.GetName() != tp.GetName() {\n")],
  """
func TestDemo(t *testing.T) {
	a, b := NewTCPTransport("t"), NewTCPTransport("t")
	u := NewUStack().AddTransport(a).AddTransport(b).DeleteTransport(b)
	l := u.GetTransport()
	if len(l) != 1 || l[0] != a {
		t.Fatal(len(l), "the wrong one was deleted")
	}
}""")

s('C02-stale-high-half', 'C02', 'a little endian 64-bit value below 2^32 written over used storage (a reset or wrapped buffer)',
  'the upper half of the value is whatever the storage held before',
  [('ubuf.go', "	if ub.TailWritableLength() < 8 {\n		return errors.New(\"UBuf: no more free data space\")\n	}\n\n	return binary.Write(ub, binary.LittleEndian, value)", "	if ub.TailWritableLength() < 8 {\n		return errors.New(\"UBuf: no more free data space\")\n	}\n\n	if value>>32 == 0 {\n		err := ub.WriteU32LE(uint32(value))\n		ub.writerIndex += 4\n		return err\n	}\n\n	err := binary.Write(ub, binary.LittleEndian, value)\n	return err")],
  """
func TestDemo(t *testing.T) {
	ub := UBufAlloc(8)
	ub.WriteU64LE(0xffffffffffffffff)
	ub.Reset()
	ub.WriteU64LE(5)
	if v, err := ub.ReadU64LE(); v != 5 || err != nil {
		t.Fatal(v, err)
	}
}""")

s('C05-lost-count', 'C05', 'two goroutines that take a copy-on-write snapshot of their own handle of the same data at the same time',
  'an owner is not counted, so a later owner writes in place what the other still shares',
  [('ubuf.go', "		atomic.AddInt32(&ub.data.refCount, 1)\n", "		owners := atomic.LoadInt32(&ub.data.refCount)\n		atomic.StoreInt32(&ub.data.refCount, owners+1)\n")],
  """
func TestDemo(t *testing.T) {
	// the goroutines run in lock step to meet in the window
	for i := 0; i < 400000; i++ {
		a := UBufAlloc(4)
		b := UBufMakeSnapshot(a, UBufSnapshotTypeCopyOnWrite)
		var ready int32
		var wg sync.WaitGroup
		for _, ub := range []*UBuf{a, b} {
			wg.Add(1)
			go func(ub *UBuf) {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < 2 {
				}
				UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite)
			}(ub)
		}
		wg.Wait()
		// four owners: all but the last must copy
		if n := atomic.LoadInt32(&a.data.refCount); n != 4 {
			t.Fatalf("round %d: four handles share the data, %d are counted", i, n)
		}
	}
}""")

s('C07-shared-read-buffer', 'C07', 'two connections of one stack receiving at the same time',
  'bytes of one connection show up in a message of the other',
  [('proc_lowerdeck.go', "						ub := UBufAlloc(ld.ustack.GetMTU())\n\n						n, err := ub.ReadFrom(connection)\n", "						ub := UBufMakeSnapshot(spare, UBufSnapshotTypeReference)\n\n						n, err := ub.ReadFrom(connection)\n"),
   ('proc_lowerdeck.go', "	// New routinue to wait connections\n	go func() {\n", "	// New routinue to wait connections\n	spare := UBufAlloc(ld.ustack.GetMTU())\n	go func() {\n")],
  """
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		a, b := newDemoConn("a"), newDemoConn("b")
		ep := NewEndPoint("e", 0)
		NewUStack().
			AppendDataProcessor(NewStringCodec()).
			AppendDataProcessor(NewFrameDecoder()).
			AddEndPoint(ep).
			AddTransport(newDemoTransport(a, b)).Run()
		const n = 40
		go func() {
			for k := 0; k < n; k++ {
				a.rx <- demoFrame([]byte("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")...)
			}
		}()
		go func() {
			for k := 0; k < n; k++ {
				b.rx <- demoFrame([]byte("bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb")...)
			}
		}()
		for k := 0; k < 2*n; k++ {
			d := demoGet(t, ep)
			want := byte('a')
			if d.GetConnection() == TransportConnection(b) {
				want = 'b'
			}
			for _, x := range []byte(d.GetData().(string)) {
				if x != want {
					t.Fatalf("round %d: connection %s delivers %q", i, d.GetConnection().GetName(), d.GetData())
				}
			}
		}
		a.Close()
		b.Close()
	}
}""")

s('C08-typed-json', 'C08', 'JSON text from the peer that is well-formed but does not fit the registered type',
  'an object that could not be decoded is delivered',
  [('proc_codec_json.go', "		err = json.Unmarshal(data, objectItf)\n		if err != nil {\n", "		err = json.Unmarshal(data, objectItf)\n		if _, ok := err.(*json.SyntaxError); ok {\n")],
  """
type demoObj struct {
	A int
	B string
}

func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().
		AppendDataProcessor(NewJSONCodec(reflect.TypeOf(demoObj{}))).
		AddEndPoint(ep).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- []byte(`{"A":"x","B":"b"}`)
	demoNone(t, ep)
}""")

s('C09-disabled-counter', 'C09', 'a statistics counter that is switched off on both sides',
  'the tag of the counter becomes visible to the layer above',
  [('proc_stat_counter.go', "	tag, err := ub.ReadByte()\n	if err != nil {\n		return\n	}\n\n	if sc.enable {\n", "	tag, err := ub.PeekByte()\n	if err != nil {\n		return\n	}\n\n	if sc.enable {\n		ub.ReadByte()\n")],
  """
func TestDemo(t *testing.T) {
	mk := func() (*demoConn, EndPoint) {
		c := newDemoConn("c")
		ep := NewEndPoint("e", 0)
		NewUStack().
			AppendDataProcessor(NewStringCodec()).
			AppendDataProcessor(NewStatCounter().SetEnable(false)).
			AddEndPoint(ep).
			AddTransport(newDemoTransport(c)).Run()
		return c, ep
	}
	ca, ea := mk()
	cb, eb := mk()
	ea.GetTxChannel() <- NewEndPointData().SetConnection(ca).SetData("hello")
	demoWait(t, "a message on the wire", func() bool { return len(ca.out()) == 1 })
	cb.rx <- ca.out()[0]
	if d := demoGet(t, eb).GetData(); d != "hello" {
		t.Fatalf("%q", d)
	}
}""")

s('C10-rounded-overhead', 'C10', 'a stack whose overhead is no multiple of four and a message of the maximal size',
  'the overhead the stack reports is larger than the bytes its processors add, and messages of the maximal size are not sent',
  [('ustack_default.go', "		u.overhead += u.processors[i].GetOverhead()\n	}\n", "		u.overhead += u.processors[i].GetOverhead()\n	}\n	// keep the data aligned\n	u.overhead = (u.overhead + 3) &^ 3\n"),
   ('ustack_default.go', "		u.processors[i].SetUStack(u)\n", "		u.processors[i] = u.processors[i].SetUStack(u)\n")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	u := NewUStack().SetOption("MTU", 16).
		AppendDataProcessor(NewStringCodec()).
		AppendDataProcessor(NewStatCounter()).
		AppendDataProcessor(NewFrameDecoder()).
		AddEndPoint(ep).
		AddTransport(newDemoTransport(c)).Run()
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("elevenbytes")
	demoWait(t, "the message on the wire", func() bool { return len(c.out()) == 1 })
	if len(c.out()[0]) != 16 || u.GetOverhead() != 5 {
		t.Fatal(len(c.out()[0]), u.GetOverhead())
	}
}""")

s('C12-trailing-nul', 'C12', 'a string that ends with NUL bytes',
  'the delivered string is shorter than the one that was sent',
  [('proc_codec_string.go', "		context.SetMessage(string(bytes))\n", "		for n > 1 && bytes[n-1] == 0 {\n			n--\n		}\n\n		context.SetMessage(string(bytes[:n]))\n")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().
		AppendDataProcessor(NewStringCodec()).
		AddEndPoint(ep).
		AddTransport(newDemoTransport(c)).Run()
	c.rx <- []byte("ab\\x00\\x00")
	if d := demoGet(t, ep).GetData(); d != "ab\\x00\\x00" {
		t.Fatalf("%q", d)
	}
}""")

s('C13-empty-stops', 'C13', 'an endpoint that sends a message without data before others',
  'everything the endpoint sends afterwards is lost',
  [('proc_upperdeck.go', "			case epd := <-txchan:\n", "			case epd, ok := <-txchan:\n				if !ok || epd.GetData() == nil {\n					return\n				}\n")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().
		AppendDataProcessor(NewStringCodec()).
		AddEndPoint(ep).
		AddTransport(newDemoTransport(c)).Run()
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c)
	ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData("m")
	demoWait(t, "the message on the wire", func() bool { return len(c.out()) == 1 })
}""")

s('C14-abrupt-end', 'C14', 'a connection that ends with an error other than end of file (reset by the peer, closed on this side)',
  'its closed event is never published',
  [('proc_lowerdeck.go', "						if n == 0 {\n							ld.closeConnection(connection)\n							return\n						}\n", "						if n == 0 {\n							connection.Close()\n							if err == nil || err == io.EOF {\n								ld.closeConnection(connection)\n							}\n							return\n						}\n"), ('proc_lowerdeck.go', '	"fmt"\n', '	"fmt"\n	"io"\n')],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	closed := make(chan bool, 9)
	NewUStack().SetEventListener(func(e Event) {
		if e.Type == UStackEventConnectionClosed {
			closed <- true
		}
	}).AddTransport(newDemoTransport(c)).Run()
	time.Sleep(50 * time.Millisecond)
	c.Close()
	select {
	case <-closed:
	case <-time.After(5 * time.Second):
		t.Fatal("no closed event")
	}
}""")

s('C16-seventeenth-connection', 'C16', 'a server transport that is stopped while it has more than sixteen connections',
  'the later connections stay open after the transport is stopped',
  [('tran_tcp.go', "	for _, c := range t.connections {\n		c.Close()\n	}\n", "	for i := 0; i < len(t.connections) && i < cap(t.next); i++ {\n		t.connections[i].Close()\n	}\n")],
  """
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := NewTCPTransport("s").ForServer(true).SetAddress(addr).Run()
	var peers []net.Conn
	demoWait(t, "the first connection", func() bool {
		p, err := net.Dial("tcp", addr)
		if err == nil {
			peers = append(peers, p)
		}
		return err == nil
	})
	conns := []TransportConnection{s.NextConnection()}
	for len(conns) < 20 {
		p, err := net.Dial("tcp", addr)
		if err != nil {
			t.Fatal(err)
		}
		peers = append(peers, p)
		conns = append(conns, s.NextConnection())
	}
	s.Stop()
	time.Sleep(100 * time.Millisecond)
	for i, c := range conns {
		if !c.Closed() {
			t.Errorf("connection %d is open after the stop", i)
		}
	}
}""")

s('C20-narrow-counter', 'C20', 'more than 2^32 messages',
  'the answer to a collect request starts again from zero',
  [('proc_stat_counter.go', "	txCounter        uint64\n	rxCounter        uint64\n", "	txCounter        uint32\n	rxCounter        uint32\n"), ('proc_stat_counter.go', "atomic.AddUint64(&sc.txCounter, 1)", "atomic.AddUint32(&sc.txCounter, 1)"), ('proc_stat_counter.go', "atomic.AddUint64(&sc.rxCounter, 1)", "atomic.AddUint32(&sc.rxCounter, 1)"), ('proc_stat_counter.go', "atomic.LoadUint64(&sc.txCounter)", "uint64(atomic.LoadUint32(&sc.txCounter))"), ('proc_stat_counter.go', "atomic.LoadUint64(&sc.rxCounter)", "uint64(atomic.LoadUint32(&sc.rxCounter))")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	sc := NewStatCounter()
	NewUStack().
		AppendDataProcessor(NewStringCodec()).
		AppendDataProcessor(sc).
		AddTransport(newDemoTransport(c)).Run()
	// as after 2^32-1 received messages
	f := reflect.ValueOf(sc).Elem().FieldByName("rxCounter")
	if !f.IsValid() {
		return
	}
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().SetUint(1<<32 - 1)
	c.rx <- []byte("\\x00m")
	c.rx <- []byte{StatCounterSelfMessageReqTag}
	demoWait(t, "an answer", func() bool { return len(c.out()) == 1 })
	if o := c.out()[0]; o[12] != 1 {
		t.Fatal(o)
	}
}""")

s('C25-only-connection', 'C25', 'a message that names no connection while the stack has exactly one',
  'the message is sent on that connection instead of being dropped',
  [('proc_lowerdeck.go', "	if connection == nil {\n		return\n	}\n\n	if connection.UseReference() {\n		err", "	if connection == nil {\n		// there is no choice\n		ld.mutex.Lock()\n		for c := range ld.connections {\n			connection = c\n		}\n		count := len(ld.connections)\n		ld.mutex.Unlock()\n		if count != 1 {\n			return\n		}\n	}\n\n	if connection.UseReference() {\n		err"), ('proc_lowerdeck.go', "		ub := context.GetBuffer()\n		if ub == nil {\n			return\n		}\n		_, err", "		ub := context.GetBuffer()\n		if ub == nil || ub.ReadableLength() == 0 {\n			return\n		}\n		_, err")],
  """
func TestDemo(t *testing.T) {
	c := newDemoConn("c")
	ep := NewEndPoint("e", 0)
	NewUStack().
		AppendDataProcessor(NewStringCodec()).
		AddEndPoint(ep).
		AddTransport(newDemoTransport(c)).Run()
	time.Sleep(100 * time.Millisecond)
	ep.GetTxChannel() <- NewEndPointData().SetData("m")
	time.Sleep(300 * time.Millisecond)
	if len(c.out()) != 0 {
		t.Fatal("sent on a connection that was not named")
	}
}""")
