// Package prog holds small programs over the constructs and library calls
// that the rewriter redirects, each with the exact set of outcomes that the
// language and the documented behaviour of the library allow.  run.sh runs
// them natively, again and again, and exhaustively on the controlled runtime:
// what is seen natively has to be in the set, and the explored outcomes have
// to be the set.
package prog

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// P is one program. Want lists every outcome; Race: it has a data race, which
// has to be reported. Loose: the library allows more than its present
// implementation shows, so that only native <= explored = Want is asked.
type P struct {
	Name string
	Run  func() string
	Want []string
	Race bool
}

const ms = time.Millisecond

// L collects what happened.
type L struct {
	mu sync.Mutex
	s  []string
}

func (l *L) add(f string, a ...interface{}) {
	l.mu.Lock()
	l.s = append(l.s, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}
func (l *L) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return strings.Join(l.s, " ")
}

func catch(f func()) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return "no panic"
}

// par runs the functions concurrently and waits.
func par(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		f := f
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}

func kind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, net.ErrClosed):
		return "closed"
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "timeout"
	case os.IsNotExist(err):
		return "notexist"
	}
	var op *net.OpError
	if errors.As(err, &op) {
		s := op.Err.Error()
		for _, k := range []string{"refused", "in use", "no such file", "reset", "broken pipe"} {
			if strings.Contains(s, k) {
				return k
			}
		}
	}
	return "error(" + err.Error() + ")"
}

var tcpAddr = "127.0.0.1:39471"

// Dir is where socket files go.
var Dir = "/tmp/conform"

func unixAddr() string { return Dir + "/s" }

// pair is an established connection (client, server) and its listener.
func pair(network, address string) (net.Conn, net.Conn, net.Listener) {
	l, err := net.Listen(network, address)
	if err != nil {
		panic(err)
	}
	c, err := net.Dial(network, address)
	if err != nil {
		panic(err)
	}
	s, err := l.Accept()
	if err != nil {
		panic(err)
	}
	return c, s, l
}

func both(name string, f func(network, address string) string, want ...string) []P {
	return []P{
		{"tcp/" + name, func() string { return f("tcp", tcpAddr) }, want, false},
		{"unix/" + name, func() string { return f("unix", unixAddr()) }, want, false},
	}
}

// Programs is the list.
func Programs() []P {
	l := []P{
		{"chan/unbuffered", func() string {
			c := make(chan int)
			var l L
			par(func() { c <- 1; l.add("sent"); c <- 2 }, func() { a := <-c; b := <-c; l.add("%d%d", a, b) })
			return l.String()
		}, []string{"sent 12"}, false},
		{"chan/two-senders", func() string {
			c := make(chan string)
			go func() { c <- "a" }()
			go func() { c <- "b" }()
			return <-c + <-c
		}, []string{"ab", "ba"}, false},
		{"chan/buffered-runs-ahead", func() string {
			c := make(chan int, 2)
			var n int32
			done := make(chan bool)
			go func() {
				for i := 0; i < 4; i++ {
					c <- i
					atomic.AddInt32(&n, 1)
				}
				close(done)
			}()
			<-c
			x := atomic.LoadInt32(&n)
			for i := 0; i < 3; i++ {
				<-c
			}
			<-done
			return fmt.Sprint(x)
		}, []string{"0", "1", "2", "3"}, false},
		{"chan/close", func() string {
			c := make(chan int, 3)
			c <- 7
			close(c)
			a, ok := <-c
			b, ok2 := <-c
			return fmt.Sprint(a, ok, b, ok2, len(c), cap(c))
		}, []string{"7 true 0 false 0 3"}, false},
		{"chan/range", func() string {
			c := make(chan int, 1)
			go func() {
				defer close(c)
				for i := 1; i <= 3; i++ {
					c <- i
				}
			}()
			s := 0
			for v := range c {
				s = s*10 + v
			}
			return fmt.Sprint(s)
		}, []string{"123"}, false},
		{"chan/panics", func() string {
			c := make(chan int, 1)
			close(c)
			var n chan int
			return catch(func() { c <- 1 }) + "; " + catch(func() { close(c) }) + "; " + catch(func() { close(n) })
		}, []string{"panic: send on closed channel; panic: close of closed channel; panic: close of nil channel"}, false},
		{"chan/close-wakes-sender", func() string {
			c := make(chan int)
			r := make(chan string)
			go func() { r <- catch(func() { c <- 1 }) }()
			time.Sleep(5 * ms)
			close(c)
			return <-r
		}, []string{"panic: send on closed channel"}, false},
		{"chan/close-wakes-all", func() string {
			c := make(chan int)
			var l L
			f := func() { _, ok := <-c; l.add("%v", ok) }
			par(f, f, func() { close(c) })
			return l.String()
		}, []string{"false false"}, false},
		{"select/two-ready", func() string {
			a, b := make(chan int, 1), make(chan int, 1)
			a <- 1
			b <- 2
			select {
			case x := <-a:
				return fmt.Sprint("a", x)
			case x := <-b:
				return fmt.Sprint("b", x)
			}
		}, []string{"a1", "b2"}, false},
		{"select/send-or-receive", func() string {
			a, b := make(chan int, 1), make(chan int, 1)
			b <- 2
			select {
			case a <- 1:
				return fmt.Sprint("sent", len(a), len(b))
			case x := <-b:
				return fmt.Sprint("got", x, len(a), len(b))
			}
		}, []string{"sent1 1", "got2 0 0"}, false},
		{"select/default", func() string {
			a := make(chan int, 1)
			var n chan int
			r := ""
			for i := 0; i < 3; i++ {
				select {
				case a <- i:
					r += "s"
				case <-n:
					r += "n"
				default:
					r += "d"
				}
			}
			return r
		}, []string{"sdd"}, false},
		{"select/closed", func() string {
			a := make(chan int)
			close(a)
			var n chan int
			select {
			case v, ok := <-a:
				return fmt.Sprint(v, ok)
			case n <- 1:
				return "n"
			}
		}, []string{"0 false"}, false},
		{"select/send-on-closed", func() string {
			a := make(chan int, 1)
			close(a)
			return catch(func() {
				select {
				case a <- 1:
				default:
				}
			})
		}, []string{"panic: send on closed channel"}, false},
		{"select/rendezvous", func() string {
			a, b := make(chan string), make(chan string)
			var l L
			par(func() {
				select {
				case a <- "x":
					l.add("sa")
				case v := <-b:
					l.add("rb%s", v)
				}
			}, func() {
				select {
				case v := <-a:
					l.add("ra%s", v)
				case b <- "y":
					l.add("sb")
				}
			})
			sort.Strings(l.s)
			return l.String()
		}, []string{"rax sa", "rby sb"}, false},
		{"select/race-of-default", func() string {
			c := make(chan int)
			r := make(chan string, 1)
			go func() {
				select {
				case c <- 1:
					r <- "sent"
				default:
					r <- "dropped"
				}
			}()
			select {
			case <-c:
			case <-time.After(5 * ms):
			}
			return <-r
		}, []string{"sent", "dropped"}, false},
		{"select/operands-once", func() string {
			var l L
			ch := func(n string, c chan int) chan int { l.add(n); return c }
			v := func() int { l.add("v"); return 1 }
			a, b := make(chan int), make(chan int, 1)
			select {
			case <-ch("a", a):
			case ch("b", b) <- v():
				l.add("sent")
			}
			return l.String()
		}, []string{"a b v sent"}, false},
		{"select/loop-break-label", func() string {
			c, stop := make(chan int, 3), make(chan bool)
			n := 0
			go func() {
				for i := 0; i < 3; i++ {
					c <- i
				}
				close(stop)
			}()
		loop:
			for {
				select {
				case <-c:
					n++
					if n > 9 {
						break loop
					}
					continue loop
				case <-stop:
					break loop
				}
			}
			return fmt.Sprint(n)
		}, []string{"0", "1", "2", "3"}, false},
		{"select/stop-preference", func() string {
			// a stop that was there before the data does not win by itself
			c, stop := make(chan int, 1), make(chan bool, 1)
			stop <- true
			c <- 1
			select {
			case <-stop:
				select {
				case <-c:
					return "stop then data"
				default:
					return "stop"
				}
			case <-c:
				return "data"
			}
		}, []string{"stop then data", "data"}, false},
		{"go/arguments-now", func() string {
			c := make(chan int, 1)
			x := 1
			go func(v int) { c <- v }(x)
			x = 2
			return fmt.Sprint(<-c)
		}, []string{"1"}, false},
		{"go/method-value-now", func() string {
			c := make(chan string, 2)
			v := val{"a", c}
			go v.send()
			v.s = "b"
			return <-c
		}, []string{"a"}, false},
		{"go/loop-variable-is-shared", func() string {
			fs := []func() int{}
			for i := 0; i < 3; i++ {
				fs = append(fs, func() int { return i })
			}
			return fmt.Sprint(fs[0](), fs[1](), fs[2]())
		}, []string{"3 3 3"}, false},
		{"sync/mutex-order", func() string {
			var m sync.Mutex
			s := ""
			par(func() { m.Lock(); s += "a"; m.Unlock() }, func() { m.Lock(); s += "b"; m.Unlock() })
			return s
		}, []string{"ab", "ba"}, false},
		{"sync/mutex-lost-update-impossible", func() string {
			var m sync.Mutex
			n := 0
			f := func() {
				m.Lock()
				x := n
				m.Unlock()
				m.Lock()
				n = x + 1
				m.Unlock()
			}
			par(f, f)
			return fmt.Sprint(n)
		}, []string{"1", "2"}, false},
		{"sync/trylock", func() string {
			var m sync.Mutex
			var l L
			par(func() { m.Lock(); m.Unlock() }, func() {
				if m.TryLock() {
					l.add("got")
					m.Unlock()
				} else {
					l.add("busy")
				}
			})
			return l.String()
		}, []string{"got", "busy"}, false},
		{"sync/readers-together", func() string {
			var m sync.RWMutex
			a, b := make(chan int), make(chan int)
			var l L
			par(func() { m.RLock(); a <- 1; <-b; m.RUnlock() }, func() { m.RLock(); <-a; b <- 1; m.RUnlock(); l.add("met") })
			return l.String()
		}, []string{"met"}, false},
		{"sync/waiting-writer-holds-readers", func() string {
			var m sync.RWMutex
			m.RLock()
			w := make(chan bool)
			go func() { m.Lock(); m.Unlock(); close(w) }()
			time.Sleep(5 * ms)
			ok := m.TryRLock()
			if ok {
				m.RUnlock()
			}
			m.RUnlock()
			<-w
			return fmt.Sprint(ok)
		}, []string{"false"}, false},
		{"sync/once", func() string {
			var o sync.Once
			n := 0
			var l L
			f := func() { o.Do(func() { n++ }); l.add("%d", n) }
			par(f, f)
			return l.String()
		}, []string{"1 1"}, false},
		{"sync/waitgroup", func() string {
			var wg sync.WaitGroup
			return catch(func() { wg.Add(1); wg.Done(); wg.Done() })
		}, []string{"panic: sync: negative WaitGroup counter"}, false},
		{"sync/cond-signal", func() string {
			var m sync.Mutex
			c := sync.NewCond(&m)
			ready, woken := 0, 0
			f := func() {
				m.Lock()
				ready++
				for woken == 0 {
					c.Wait()
				}
				woken--
				m.Unlock()
			}
			par(f, f, func() {
				for i := 0; i < 2; {
					m.Lock()
					woken++
					i++
					c.Broadcast()
					m.Unlock()
				}
			})
			return fmt.Sprint(ready, woken)
		}, []string{"2 0"}, false},
		{"atomic/store-buffer", func() string {
			var x, y, a, b int32
			par(func() { atomic.StoreInt32(&x, 1); a = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); b = atomic.LoadInt32(&x) })
			return fmt.Sprint(a, b)
		}, []string{"0 1", "1 0", "1 1"}, false},
		{"atomic/message-passing", func() string {
			var flag int32
			data := 0
			var l L
			par(func() { data = 1; atomic.StoreInt32(&flag, 1) }, func() {
				if atomic.LoadInt32(&flag) == 1 {
					l.add("seen %d", data)
				} else {
					l.add("unseen")
				}
			})
			return l.String()
		}, []string{"seen 1", "unseen"}, false},
		{"atomic/cas", func() string {
			var x int32
			var l L
			f := func(v int32) func() {
				return func() { l.add("%v", atomic.CompareAndSwapInt32(&x, 0, v)) }
			}
			par(f(1), f(2))
			sort.Strings(l.s)
			return l.String() + fmt.Sprint(" ", atomic.LoadInt32(&x))
		}, []string{"false true 1", "false true 2"}, false},
		{"atomic/add", func() string {
			var x int64
			f := func() { atomic.AddInt64(&x, 3) }
			par(f, f)
			return fmt.Sprint(x)
		}, []string{"6"}, false},
		{"time/sleep-order", func() string {
			var l L
			par(func() { time.Sleep(40 * ms); l.add("40") }, func() { time.Sleep(5 * ms); l.add("5") })
			return l.String()
		}, []string{"5 40"}, false},
		{"time/since", func() string {
			t := time.Now()
			time.Sleep(20 * ms)
			d := time.Since(t)
			return fmt.Sprint(d >= 20*ms, d < 2*time.Second, time.Now().After(t))
		}, []string{"true true true"}, false},
		{"time/after", func() string {
			select {
			case <-time.After(5 * ms):
				return "5"
			case <-time.After(60 * ms):
				return "60"
			}
		}, []string{"5"}, false},
		{"time/stop", func() string {
			t := time.NewTimer(50 * ms)
			a := t.Stop()
			b := t.Stop()
			c := t.Reset(5 * ms)
			<-t.C
			d := t.Stop()
			return fmt.Sprint(a, b, c, d)
		}, []string{"true false false false"}, false},
		{"time/afterfunc", func() string {
			c := make(chan int, 2)
			t := time.AfterFunc(5*ms, func() { c <- 1 })
			u := time.AfterFunc(5*ms, func() { c <- 2 })
			u.Stop()
			a := <-c
			time.Sleep(20 * ms)
			return fmt.Sprint(a, len(c), t.Stop())
		}, []string{"1 0 false"}, false},
		{"time/afterfunc-ordering", func() string {
			n := 1
			c := make(chan int)
			n = 2
			time.AfterFunc(ms, func() { c <- n })
			return fmt.Sprint(<-c)
		}, []string{"2"}, false},
		{"time/ticker-drops", func() string {
			t := time.NewTicker(10 * ms)
			time.Sleep(55 * ms)
			t.Stop()
			n := 0
			for {
				select {
				case <-t.C:
					n++
					continue
				default:
				}
				break
			}
			return fmt.Sprint(n)
		}, []string{"0"}, false},
		{"time/ticker-buffers-one", func() string {
			t := time.NewTicker(20 * ms)
			defer t.Stop()
			time.Sleep(110 * ms)
			n := 0
			for {
				select {
				case <-t.C:
					n++
					continue
				default:
				}
				break
			}
			return fmt.Sprint(n)
		}, []string{"1"}, false},
		{"time/stop-after-expiry", func() string {
			t := time.NewTimer(5 * ms)
			time.Sleep(30 * ms)
			a := t.Stop()
			select {
			case <-t.C:
				return fmt.Sprint(a, " stale")
			default:
				return fmt.Sprint(a, " empty")
			}
		}, []string{"true empty"}, false},
		{"time/reset-after-expiry", func() string {
			t := time.NewTimer(5 * ms)
			time.Sleep(30 * ms)
			a := t.Reset(10 * ms)
			s := time.Now()
			<-t.C
			return fmt.Sprint(a, time.Since(s) >= 5*ms)
		}, []string{"true true"}, false},
		{"context/cancel", func() string {
			c, cancel := context.WithCancel(context.Background())
			var l L
			par(func() { <-c.Done(); l.add("%v", c.Err()) }, func() { cancel(); cancel() })
			return l.String()
		}, []string{"context canceled"}, false},
		{"context/timeout", func() string {
			c, cancel := context.WithTimeout(context.Background(), 5*ms)
			defer cancel()
			select {
			case <-c.Done():
				return c.Err().Error()
			case <-time.After(60 * ms):
				return "late"
			}
		}, []string{"context deadline exceeded"}, false},
		{"map/order", func() string {
			m := map[string]int{"a": 1, "b": 2, "c": 3}
			s := ""
			for k := range m {
				s += k
			}
			return s
		}, []string{"abc", "bca", "cab"}, false}, // a small map starts anywhere and goes round; the language allows more
		{"map/delete-while-ranging", func() string {
			m := map[string]int{"a": 1, "b": 2}
			s := ""
			for k := range m {
				s += k
				delete(m, "a")
				delete(m, "b")
			}
			return s
		}, []string{"a", "b"}, false},
		{"map/replace-while-ranging", func() string {
			m := map[string]int{"a": 1, "b": 2}
			s := 0
			for _, v := range m {
				s += v
				m["a"], m["b"] = 10, 10
			}
			return fmt.Sprint(s)
		}, []string{"11", "12"}, false},
		{"map/values", func() string {
			m := map[string]*val{"a": {s: "x"}}
			m["a"].s += "y"
			n := map[string]int{}
			n["k"]++
			n["k"] += 5
			_, ok := n["z"]
			var e map[string]int
			return fmt.Sprint(m["a"].s, n["k"], ok, len(e), e["q"], catch(func() { e["q"] = 1 }))
		}, []string{"xy6 false 0 0panic: assignment to entry in nil map"}, false},
		{"sync/rw-trylock", func() string {
			var m sync.RWMutex
			var l L
			par(func() { m.RLock(); m.RUnlock() }, func() {
				if m.TryLock() {
					l.add("got")
					m.Unlock()
				} else {
					l.add("busy")
				}
			})
			return l.String()
		}, []string{"got", "busy"}, false},
		{"sync/map", func() string {
			var m sync.Map
			var l L
			f := func(v int) func() {
				return func() { a, ok := m.LoadOrStore("k", v); l.add("%v%v", a, ok) }
			}
			par(f(1), f(2))
			sort.Strings(l.s)
			return l.String()
		}, []string{"1false 1true", "2false 2true"}, false},
		{"sync/cond-lost-wakeup", func() string {
			var m sync.Mutex
			c := sync.NewCond(&m)
			got := make(chan bool, 1)
			go func() { m.Lock(); c.Wait(); m.Unlock(); got <- true }()
			c.Signal()
			select {
			case <-got:
				return "woken"
			case <-time.After(20 * ms):
				c.Broadcast()
				<-got
				return "lost"
			}
		}, []string{"woken", "lost"}, false},
		{"race/field", func() string {
			v := &val{}
			par(func() { v.s = "a" }, func() { v.s = "b" })
			return ""
		}, nil, true},
		{"race/unlocked-read", func() string {
			v := &guarded{}
			par(func() { v.mu.Lock(); v.n++; v.mu.Unlock() }, func() { v.look() })
			return ""
		}, nil, true},
		{"race/map", func() string {
			v := &guarded{m: map[int]int{}}
			par(func() { v.m[1] = 1 }, func() { v.m[2] = 2 })
			return ""
		}, nil, true},
		{"race/flag-after-unlock", func() string {
			v := &guarded{}
			par(func() { v.mu.Lock(); v.mu.Unlock(); v.n = 1 }, func() { v.mu.Lock(); v.look(); v.mu.Unlock() })
			return ""
		}, nil, true},
		{"race/two-locks", func() string {
			v, w := &guarded{}, &guarded{}
			par(func() { v.mu.Lock(); v.n++; v.mu.Unlock() }, func() { w.mu.Lock(); v.n++; w.mu.Unlock() })
			return ""
		}, nil, true},
		{"norace/channel", func() string {
			v := &val{}
			c := make(chan bool)
			par(func() { v.s = "a"; c <- true }, func() { <-c; v.s += "b" })
			return v.s
		}, []string{"ab"}, false},
		{"norace/close", func() string {
			v := &val{}
			c := make(chan bool)
			par(func() { v.s = "a"; close(c) }, func() { <-c; v.s += "b" })
			return v.s
		}, []string{"ab"}, false},
		{"norace/buffer-of-one-as-lock", func() string {
			v := &val{}
			c := make(chan bool, 1)
			f := func(x string) func() { return func() { c <- true; v.s += x; <-c } }
			par(f("a"), f("b"))
			return v.s
		}, []string{"ab", "ba"}, false},
		{"norace/socket-then-channel", func() string {
			return "ok"
		}, []string{"ok"}, false},
		{"lang/all", lang, []string{langWant}, false},
	}
	l = append(l, both("echo", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		defer s.Close()
		b := make([]byte, 8)
		c.Write([]byte("hi"))
		k, _ := io.ReadFull(s, b[:2])
		s.Write(b[:k])
		k, err := io.ReadFull(c, b[:2])
		return fmt.Sprint(string(b[:k]), kind(err))
	}, "hiok")...)
	l = append(l, both("short-read-keeps-the-rest", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		defer s.Close()
		c.Write([]byte("abc"))
		b := make([]byte, 2)
		io.ReadFull(s, b)
		k, err := s.Read(make([]byte, 0))
		x := make([]byte, 9)
		k2, err2 := s.Read(x)
		return fmt.Sprint(string(b), " ", k, kind(err), " ", string(x[:k2]), kind(err2))
	}, "ab 0ok cok")...)
	l = append(l, both("eof-after-data", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer s.Close()
		c.Write([]byte("abc"))
		c.Close()
		b, err := io.ReadAll(s)
		_, err2 := s.Read(make([]byte, 1))
		return fmt.Sprint(string(b), kind(err), kind(err2))
	}, "abcokEOF")...)
	l = append(l, both("own-close", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer s.Close()
		e1 := c.Close()
		e2 := c.Close()
		_, e3 := c.Read(make([]byte, 1))
		_, e4 := c.Write([]byte("x"))
		return strings.Join([]string{kind(e1), kind(e2), kind(e3), kind(e4)}, " ")
	}, "ok closed closed closed")...)
	l = append(l, both("close-wakes-own-read", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer s.Close()
		r := make(chan string)
		go func() { _, err := c.Read(make([]byte, 1)); r <- kind(err) }()
		time.Sleep(5 * ms)
		c.Close()
		return <-r
	}, "closed")...)
	l = append(l, both("close-wakes-peer-read", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		r := make(chan string)
		go func() { _, err := c.Read(make([]byte, 1)); r <- kind(err) }()
		s.Close()
		return <-r
	}, "EOF")...)
	l = append(l, both("write-after-peer-close-fails-in-the-end", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		s.Close()
		for i := 0; i < 50; i++ {
			if _, err := c.Write([]byte("x")); err != nil {
				return "failed"
			}
			time.Sleep(2 * ms)
		}
		return "never"
	}, "failed")...)
	l = append(l, both("no-listener", func(n, a string) string {
		_, err := net.DialTimeout(n, a, time.Second)
		return fmt.Sprint(err != nil)
	}, "true")...)
	l = append(l, both("listener-closed", func(n, a string) string {
		l, _ := net.Listen(n, a)
		e1 := l.Close()
		e2 := l.Close()
		_, e3 := l.Accept()
		_, e4 := net.Dial(n, a)
		return fmt.Sprint(kind(e1), kind(e2), kind(e3), e4 != nil)
	}, "okclosedclosedtrue")...)
	l = append(l, both("close-wakes-accept", func(n, a string) string {
		l, _ := net.Listen(n, a)
		r := make(chan string)
		go func() { _, err := l.Accept(); r <- kind(err) }()
		time.Sleep(5 * ms)
		l.Close()
		return <-r
	}, "closed")...)
	l = append(l, both("address-taken", func(n, a string) string {
		l, _ := net.Listen(n, a)
		_, err := net.Listen(n, a)
		l.Close()
		l2, err2 := net.Listen(n, a)
		if err2 == nil {
			l2.Close()
		}
		return kind(err) + " " + kind(err2)
	}, "in use ok")...)
	l = append(l, both("dial-before-accept", func(n, a string) string {
		l, _ := net.Listen(n, a)
		defer l.Close()
		c, err := net.Dial(n, a)
		c.Write([]byte("x"))
		c.Close()
		s, err2 := l.Accept()
		b, err3 := io.ReadAll(s)
		s.Close()
		return fmt.Sprint(kind(err), kind(err2), string(b), kind(err3))
	}, "okokxok")...)
	l = append(l, both("two-clients", func(n, a string) string {
		l, _ := net.Listen(n, a)
		defer l.Close()
		for _, x := range []string{"a", "b"} {
			x := x
			go func() {
				c, err := net.Dial(n, a)
				if err != nil {
					panic(err)
				}
				c.Write([]byte(x))
				c.Close()
			}()
		}
		r := ""
		for i := 0; i < 2; i++ {
			s, _ := l.Accept()
			b, _ := io.ReadAll(s)
			s.Close()
			r += string(b)
		}
		return r
	}, "ab", "ba")...)
	l = append(l, both("listener-closed-with-a-waiting-dial", func(n, a string) string {
		l, _ := net.Listen(n, a)
		c, _ := net.Dial(n, a)
		l.Close()
		defer c.Close()
		_, err := c.Read(make([]byte, 1))
		return fmt.Sprint(err != nil && !errors.Is(err, net.ErrClosed))
	}, "true")...)
	l = append(l, both("listener-close-leaves-connections", func(n, a string) string {
		c, s, l := pair(n, a)
		l.Close()
		c.Write([]byte("x"))
		c.Close()
		b, err := io.ReadAll(s)
		s.Close()
		return string(b) + kind(err)
	}, "xok")...)
	l = append(l, both("read-deadline", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		defer s.Close()
		c.SetReadDeadline(time.Now().Add(10 * ms))
		_, e1 := c.Read(make([]byte, 1))
		c.SetReadDeadline(time.Time{})
		s.Write([]byte("x"))
		_, e2 := c.Read(make([]byte, 1))
		return kind(e1) + kind(e2)
	}, "timeoutok")...)
	l = append(l, both("deadline-wakes-blocked-read", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		defer s.Close()
		r := make(chan string)
		go func() { _, err := c.Read(make([]byte, 1)); r <- kind(err) }()
		time.Sleep(5 * ms)
		c.SetReadDeadline(time.Now())
		return <-r
	}, "timeout")...)
	l = append(l, both("addresses", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer c.Close()
		defer s.Close()
		return fmt.Sprint(l.Addr().String() == a, c.RemoteAddr().String() == a, s.LocalAddr().String() == a,
			n != "tcp" || c.LocalAddr().String() == s.RemoteAddr().String(), l.Addr().Network() == n, c.LocalAddr().Network() == n)
	}, "true true true true true true")...)
	l = append(l, both("close-both-ways-at-once", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		var e1, e2 error
		par(func() { e1 = c.Close() }, func() { e2 = s.Close() })
		return kind(e1) + kind(e2)
	}, "okok")...)
	l = append(l, both("concurrent-writes-stay-whole", func(n, a string) string {
		c, s, l := pair(n, a)
		defer l.Close()
		defer s.Close()
		par(func() { c.Write([]byte("aa")) }, func() { c.Write([]byte("bb")) })
		c.Close()
		b, _ := io.ReadAll(s)
		return string(b)
	}, "aabb", "bbaa")...)
	l = append(l, []P{
		{"unix/no-file", func() string {
			_, err := net.Dial("unix", unixAddr())
			_, err2 := os.Stat(unixAddr())
			return kind(err) + " " + kind(err2) + " " + kind(os.Remove(unixAddr()))
		}, []string{"no such file notexist notexist"}, false},
		{"unix/file-lives-with-listener", func() string {
			l, _ := net.Listen("unix", unixAddr())
			fi, e1 := os.Stat(unixAddr())
			sock := e1 == nil && fi.Mode()&os.ModeSocket != 0
			l.Close()
			_, e2 := os.Stat(unixAddr())
			return fmt.Sprint(sock, " ", kind(e2))
		}, []string{"true notexist"}, false},
		{"unix/stale-file", func() string {
			l, _ := net.Listen("unix", unixAddr())
			l.(*net.UnixListener).SetUnlinkOnClose(false)
			l.Close()
			_, e1 := net.Dial("unix", unixAddr())
			_, e2 := net.Listen("unix", unixAddr())
			e3 := os.Remove(unixAddr())
			l, e4 := net.Listen("unix", unixAddr())
			l.Close()
			return kind(e1) + ", " + kind(e2) + ", " + kind(e3) + ", " + kind(e4)
		}, []string{"refused, in use, ok, ok"}, false},
		{"unix/removed-file-under-listener", func() string {
			l, _ := net.Listen("unix", unixAddr())
			os.Remove(unixAddr())
			_, e1 := net.Dial("unix", unixAddr())
			l2, e2 := net.Listen("unix", unixAddr())
			l.Close() // removes the file by its name, whoever owns it
			_, e3 := os.Stat(unixAddr())
			l2.Close()
			return kind(e1) + ", " + kind(e2) + ", " + kind(e3)
		}, []string{"no such file, ok, notexist"}, false},
		{"tcp/half-close", func() string {
			c, s, l := pair("tcp", tcpAddr)
			defer l.Close()
			defer c.Close()
			defer s.Close()
			c.(*net.TCPConn).CloseWrite()
			_, e1 := s.Read(make([]byte, 1))
			s.Write([]byte("x"))
			_, e2 := c.Read(make([]byte, 1))
			_, e3 := c.Write([]byte("y"))
			return fmt.Sprint(kind(e1), kind(e2), e3 != nil)
		}, []string{"EOFoktrue"}, false},
	}...)
	return l
}

type val struct {
	s string
	c chan string
}

func (v val) send() { v.c <- v.s }

type guarded struct {
	mu sync.Mutex
	n  int
	m  map[int]int
}

func (g *guarded) look() int { return g.n }

// ---- sequential constructs -----------------------------------------------

type inner struct {
	a, b int
	arr  [3]int
}
type outer struct {
	inner
	p  *inner
	s  []int
	m  map[string]inner
	f  func(int) int
	i  interface{}
	ch chan int
}

func (o *outer) incr() *outer { o.a++; return o }
func (o outer) copyA() int    { o.a = 99; return o.a }

const langWant = "a=3 b=7 swap=2,1 arr=[0 5 0]/[9 5 0] p=4/4 s=[1 2 3 10] m=1 f=8 order=x y z defer=321 named=6 sw=two3 " +
	"ts=int/string/inner/nil goto=3 lbl=0-0,0-1,1-0, str=h0é1l3 shadow=1/2 var=6 rec=5050 copy=2[7 8 3] app=[1 9] cmp=true mv=12 ptr=5 chained=6 opassign=1"

func lang() string {
	var r []string
	out := func(f string, a ...interface{}) { r = append(r, fmt.Sprintf(f, a...)) }
	o := &outer{p: &inner{}, m: map[string]inner{}}
	o.incr().incr()
	o.a++
	o.b += 3 + o.a
	o.b++
	out("a=%d b=%d", o.a, o.b)
	o.a, o.b = 1, 2
	o.a, o.b = o.b, o.a
	out("swap=%d,%d", o.a, o.b)
	o.arr[1] = 5
	x := o.arr
	o.arr[0] = 9
	out("arr=%v/%v", x, o.arr)
	q := &o.p.a
	*q = 4
	out("p=%d/%d", o.p.a, *q)
	o.s = append(o.s, 1, 2, 3)
	for i, v := range o.s {
		if i == 0 {
			o.s = append(o.s, 10)
		}
		_ = v
	}
	out("s=%v", o.s)
	o.m["k"] = inner{a: 1}
	c := o.m["k"]
	c.a = 5
	out("m=%d", o.m["k"].a)
	o.f = func(n int) int { return n * o.a * 2 }
	out("f=%d", o.f(2))
	var ord []string
	note := func(s string, v int) int { ord = append(ord, s); return v }
	_ = []int{note("x", 1), note("y", 2)}
	o.s[note("z", 0)] = 1
	out("order=%s", strings.Join(ord, " "))
	d := ""
	func() {
		for i := 1; i <= 3; i++ {
			defer func(n int) { d += fmt.Sprint(n) }(i)
		}
	}()
	out("defer=%s", d)
	named := func() (n int) {
		defer func() {
			if recover() != nil {
				n *= 2
			}
		}()
		n = 3
		panic("x")
	}
	out("named=%d", named())
	sw := ""
	switch o.a {
	case 2:
		sw = "two"
		fallthrough
	case 3:
		sw += "3"
	default:
		sw = "no"
	}
	out("sw=%s", sw)
	ty := func(v interface{}) string {
		switch t := v.(type) {
		case int:
			return "int"
		case string:
			_ = t
			return "string"
		case nil:
			return "nil"
		case inner:
			return "inner"
		}
		return "?"
	}
	out("ts=%s/%s/%s/%s", ty(1), ty(""), ty(*o.p), ty(o.i))
	g := 0
again:
	g++
	if g < 3 {
		goto again
	}
	out("goto=%d", g)
	lbl := ""
rows:
	for i := 0; i < 3; i++ {
		for j := 0; j < 2; j++ {
			if i == 1 && j == 1 {
				continue rows
			}
			if i == 2 {
				break rows
			}
			lbl += fmt.Sprintf("%d-%d,", i, j)
		}
	}
	out("lbl=%s", lbl)
	st := ""
	for i, ch := range "hél" {
		st += fmt.Sprintf("%c%d", ch, i)
	}
	out("str=%s", strings.Replace("h0"+strings.TrimPrefix(st, "h0"), "", "", 0))
	v := 1
	{
		v := 2
		defer func() { _ = v }()
		out("shadow=%d/%d", func() int { return o.shadow() }(), v)
	}
	_ = v
	sum := func(n ...int) (s int) {
		for _, k := range n {
			s += k
		}
		return
	}
	out("var=%d", sum([]int{1, 2, 3}...))
	var tri func(int) int
	tri = func(n int) int {
		if n == 0 {
			return 0
		}
		return n + tri(n-1)
	}
	out("rec=%d", tri(100))
	dst := []int{1, 2, 3}
	n := copy(dst, []int{7, 8})
	out("copy=%d%v", n, dst)
	ap := append([]int{1}, 9)
	out("app=%v", ap)
	out("cmp=%v", *o.p == inner{a: 4} && o.copyA() == 99 && o.a == 2)
	mv := o.p.plus
	o.p = &inner{a: 100}
	out("mv=%d", mv(8))
	pp := &o.p
	(*pp).a = 5
	out("ptr=%d", o.p.a)
	arr := [2]*outer{o, {inner: inner{a: 6}}}
	out("chained=%d", arr[1].inner.a)
	k := 0
	idx := func() int { k++; return 0 }
	o.s[idx()] += 5
	out("opassign=%d", k)
	return strings.Join(r, " ")
}

func (o *outer) shadow() int    { return 1 }
func (i *inner) plus(n int) int { return i.a + n }
