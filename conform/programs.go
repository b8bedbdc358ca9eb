// Package conform holds small programs whose outcome does not depend on the
// schedule.  They run once natively and once translated, on the virtual
// runtime under every schedule within a bound; the outcomes have to agree.
// They bind the virtual runtime (and the translation) to the Go runtime.
package conform

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Program is one conformance program.
type Program struct {
	Name string
	Run  func() string
}

// Programs lists them all.
var Programs []Program

type out struct{ b strings.Builder }

func (o *out) p(a ...interface{}) { fmt.Fprintln(&o.b, a...) }

func add(name string, f func(o *out)) {
	Programs = append(Programs, Program{name, func() string {
		o := new(out)
		func() {
			defer func() {
				if r := recover(); r != nil {
					o.p("panic:", r)
				}
			}()
			f(o)
		}()
		return o.b.String()
	}})
}

func guard(o *out, name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			o.p(name, "panics:", r)
		}
	}()
	f()
	o.p(name, "returns")
}

type sig chan struct{}

func (s sig) fire() { close(s) }

var global = make(chan int, 2)

// Racy lists programs with a data race: the race build of the virtual runtime
// has to report every one of them.
var Racy []Program

func racy(name string, f func()) {
	Racy = append(Racy, Program{name, func() string { f(); return "" }})
}

func init() {
	races()
	channels()
	syncs()
	clocks()
	contexts()
	nets()
}

func channels() {
	add("chan-basic", func(o *out) {
		c := make(chan int)
		go func() {
			defer close(c)
			for i := 0; i < 3; i++ {
				c <- i
			}
		}()
		for v := range c {
			o.p(v)
		}
		v, ok := <-c
		o.p(v, ok, len(c), cap(c))
	})
	add("chan-go-close", func(o *out) {
		c := make(chan struct{})
		go close(c)
		<-c
		var s sig = make(chan struct{})
		go s.fire()
		<-s
		o.p("closed")
	})
	add("chan-defer-send", func(o *out) {
		c := make(chan string, 1)
		func() {
			defer func() { c <- "deferred" }()
		}()
		o.p(<-c)
	})
	add("chan-buffered", func(o *out) {
		c := make(chan int, 2)
		c <- 1
		c <- 2
		o.p(len(c), cap(c))
		select {
		case c <- 3:
			o.p("sent")
		default:
			o.p("full")
		}
		close(c)
		for {
			v, ok := <-c
			o.p(v, ok)
			if !ok {
				break
			}
		}
		guard(o, "send closed", func() { c <- 1 })
		guard(o, "close closed", func() { close(c) })
		guard(o, "close nil", func() { var n chan int; close(n) })
	})
	add("chan-nil-select", func(o *out) {
		var n chan int
		c := make(chan int, 1)
		select {
		case v := <-n:
			o.p("nil", v)
		case c <- 7:
			o.p("sent", len(c))
		}
		select {
		case n <- 1:
		default:
			o.p("default")
		}
		select {
		case v, ok := <-c:
			o.p(v, ok)
		case <-n:
		}
		o.p(len(n), cap(n))
	})
	add("chan-labels", func(o *out) {
		c, stop := make(chan int), make(chan struct{})
		go func() {
			for i := 0; ; i++ {
				select {
				case c <- i:
				case <-stop:
					close(c)
					return
				}
			}
		}()
		n := 0
	loop:
		for {
			select {
			case v := <-c:
				if v%2 == 0 {
					continue loop
				}
				n += v
				if v >= 5 {
					break loop
				}
			}
		}
		close(stop)
		for range c {
		}
		o.p(n)
	})
	add("chan-sem", func(o *out) {
		sem := make(chan struct{}, 1)
		n := 0
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				n++
				<-sem
			}()
		}
		wg.Wait()
		o.p(n)
	})
	add("chan-token", func(o *out) {
		tok := make(chan int, 1)
		tok <- 0
		var wg sync.WaitGroup
		for i := 1; i <= 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				v := <-tok
				tok <- v + i
			}(i)
		}
		wg.Wait()
		o.p(<-tok)
	})
	add("chan-global", func(o *out) {
		o.p(len(global))
		global <- 1
		global <- 2
		o.p(<-global+<-global, len(global))
	})
	add("chan-of-chan", func(o *out) {
		reqs := make(chan chan string)
		go func() {
			for r := range reqs {
				r <- "reply"
			}
		}()
		r := make(chan string)
		reqs <- r
		o.p(<-r)
		close(reqs)
	})
	add("chan-types", func(o *out) {
		e := make(chan error, 2)
		e <- nil
		e <- io.EOF
		err := <-e
		o.p(err == nil)
		if err, ok := <-e; ok && err == io.EOF {
			o.p("eof")
		}
		f := make(chan func() int, 1)
		f <- func() int { return 4 }
		o.p((<-f)())
		var i interface{}
		c := make(chan interface{}, 1)
		c <- 5
		i = <-c
		switch x := i.(type) {
		case int:
			o.p("int", x)
		}
		arr := make(chan [2]byte, 1)
		arr <- [2]byte{1, 2}
		o.p((<-arr)[1])
		var rd <-chan [2]byte = arr
		var wr chan<- [2]byte = arr
		wr <- [2]byte{3}
		o.p((<-rd)[0], len(rd))
	})
	add("go-args", func(o *out) {
		x := 1
		c := make(chan int, 3)
		f := func(v int, more ...int) { c <- v + len(more) }
		go f(x)
		x = 10
		go f(x, 1, 2)
		a, b := <-c, <-c
		o.p(a+b, a*b)
		var mu sync.Mutex
		mu.Lock()
		go mu.Unlock()
		mu.Lock()
		o.p("locked")
	})
	add("loop-var", func(o *out) {
		var wg sync.WaitGroup
		c := make(chan int, 3)
		start := make(chan struct{})
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c <- i
			}()
		}
		close(start)
		wg.Wait()
		o.p(<-c, <-c, <-c)
	})
	add("select-priority", func(o *out) {
		quit := make(chan struct{})
		close(quit)
		n := 0
		for i := 0; i < 3; i++ {
			select {
			case <-quit:
				n++
			default:
				o.p("never")
			}
		}
		o.p(n)
	})
	add("goexit-panic", func(o *out) {
		done := make(chan string, 2)
		go func() {
			defer func() { done <- "exited" }()
			runtime.Goexit()
			done <- "not reached"
		}()
		o.p(<-done)
		go func() {
			defer func() { done <- fmt.Sprint("recovered ", recover()) }()
			var b []byte
			_ = b[len(done)+3]
		}()
		o.p(<-done)
	})
}

func syncs() {
	add("mutex", func(o *out) {
		var mu sync.Mutex
		n := 0
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				mu.Lock()
				defer mu.Unlock()
				defer wg.Done()
				n += 2
			}()
		}
		wg.Wait()
		mu.Lock()
		o.p(n, mu.TryLock())
		mu.Unlock()
		o.p(mu.TryLock())
	})
	add("rwmutex", func(o *out) {
		var mu sync.RWMutex
		mu.RLock()
		o.p(mu.TryRLock(), mu.TryLock())
		mu.RUnlock()
		mu.RUnlock()
		o.p(mu.TryLock(), mu.TryRLock())
		mu.Unlock()
		l := mu.RLocker()
		l.Lock()
		l.Unlock()
		v := 0
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(2)
			go func() { mu.Lock(); v++; mu.Unlock(); wg.Done() }()
			go func() { mu.RLock(); _ = v; mu.RUnlock(); wg.Done() }()
		}
		wg.Wait()
		o.p(v)
	})
	add("cond", func(o *out) {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ready, woke := false, 0
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				for !ready {
					c.Wait()
				}
				woke++
				mu.Unlock()
			}()
		}
		mu.Lock()
		ready = true
		c.Broadcast()
		mu.Unlock()
		wg.Wait()
		c.Signal()
		o.p(woke)
	})
	add("once", func(o *out) {
		var once sync.Once
		n := 0
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { once.Do(func() { n++ }); wg.Done() }()
		}
		wg.Wait()
		o.p(n)
		var o2 sync.Once
		guard(o, "once", func() { o2.Do(func() { panic("x") }) })
		o2.Do(func() { n = 100 })
		f := sync.OnceFunc(func() { n++ })
		f()
		f()
		o.p(n)
	})
	add("waitgroup", func(o *out) {
		var wg sync.WaitGroup
		wg.Wait()
		guard(o, "negative", func() { wg.Done() })
	})
	add("map", func(o *out) {
		var m sync.Map
		m.Store(1, "a")
		m.Store(2, "b")
		v, loaded := m.LoadOrStore(1, "z")
		o.p(v, loaded)
		v, loaded = m.LoadOrStore(3, "c")
		o.p(v, loaded)
		v, loaded = m.LoadAndDelete(2)
		o.p(v, loaded)
		v, loaded = m.LoadAndDelete(2)
		o.p(v, loaded)
		v, ok := m.Load(9)
		o.p(v, ok)
		o.p(m.CompareAndSwap(1, "a", "y"), m.CompareAndSwap(1, "a", "x"), m.CompareAndDelete(3, "no"))
		v, loaded = m.Swap(1, "w")
		o.p(v, loaded)
		var keys []int
		m.Range(func(k, v interface{}) bool { keys = append(keys, k.(int)); m.Delete(k); return true })
		sort.Ints(keys)
		o.p(keys)
		m.Range(func(k, v interface{}) bool { o.p("left", k); return true })
	})
	add("map-concurrent", func(o *out) {
		var m sync.Map
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); m.Store(i, i*i) }(i)
		}
		wg.Wait()
		s := 0
		m.Range(func(_, v interface{}) bool { s += v.(int); return true })
		o.p(s)
	})
	add("pool", func(o *out) {
		p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
		b := p.Get().(*bytes.Buffer)
		b.WriteString("x")
		b.Reset()
		p.Put(b)
		o.p(p.Get().(*bytes.Buffer).Len())
		var q sync.Pool
		o.p(q.Get() == nil)
	})
	add("atomics", func(o *out) {
		var a int32
		var b uint64
		var c atomic.Int64
		var d atomic.Bool
		var e atomic.Value
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&a, 2)
				c.Add(1)
			}()
		}
		wg.Wait()
		o.p(atomic.LoadInt32(&a), c.Load(), atomic.CompareAndSwapUint64(&b, 0, 5), atomic.CompareAndSwapUint64(&b, 0, 6), atomic.SwapUint64(&b, 9), b)
		o.p(d.Swap(true), d.Load(), e.Load() == nil)
		e.Store("v")
		o.p(e.Load(), e.CompareAndSwap("v", "w"), e.Swap("u"))
		guard(o, "store nil", func() { e.Store(nil) })
		guard(o, "store other", func() { e.Store(1) })
	})
}

func clocks() {
	add("sleep-order", func(o *out) {
		c := make(chan int, 3)
		for _, d := range []int{30, 10, 20} {
			go func(d int) { time.Sleep(time.Duration(d) * 3 * time.Millisecond); c <- d }(d)
		}
		o.p(<-c, <-c, <-c)
	})
	add("timers", func(o *out) {
		t := time.NewTimer(time.Hour)
		o.p(t.Stop(), t.Stop())
		o.p(t.Reset(10*time.Millisecond), t.Reset(20*time.Millisecond))
		<-t.C
		o.p(t.Stop())
		fired := make(chan bool, 1)
		a := time.AfterFunc(10*time.Millisecond, func() { fired <- true })
		o.p(<-fired, a.Stop())
		b := time.AfterFunc(time.Hour, func() { fired <- true })
		o.p(b.Stop())
		select {
		case <-time.After(10 * time.Millisecond):
			o.p("after")
		case <-fired:
			o.p("fired")
		}
		time.Sleep(-1)
		time.Sleep(0)
	})
	add("ticker", func(o *out) {
		t := time.NewTicker(10 * time.Millisecond)
		start := time.Now()
		<-t.C
		<-t.C
		d := time.Since(start)
		o.p(d >= 20*time.Millisecond && d < time.Second)
		t.Stop()
		select {
		case <-t.C:
			o.p("tick")
		case <-time.After(40 * time.Millisecond):
			o.p("stopped")
		}
		t.Reset(10 * time.Millisecond)
		<-t.C
		guard(o, "zero ticker", func() { time.NewTicker(0) })
	})
	add("ticker-drops", func(o *out) {
		t := time.NewTicker(10 * time.Millisecond)
		defer t.Stop()
		time.Sleep(100 * time.Millisecond)
		n := 0
		for len(t.C) > 0 {
			<-t.C
			n++
		}
		o.p(n <= 1)
	})
	add("now", func(o *out) {
		a := time.Now()
		time.Sleep(20 * time.Millisecond)
		b := time.Now()
		o.p(b.After(a), b.Sub(a) >= 20*time.Millisecond, time.Until(a) < 0, a.Add(time.Hour).After(b), a.IsZero())
	})
}

func contexts() {
	add("ctx", func(o *out) {
		ctx, cancel := context.WithCancel(context.Background())
		child, stop := context.WithTimeout(ctx, time.Hour)
		val := context.WithValue(child, "k", "v")
		defer stop()
		o.p(ctx.Err(), child.Err(), val.Value("k"))
		_, has := ctx.Deadline()
		_, has2 := val.Deadline()
		o.p(has, has2)
		go cancel()
		<-val.Done()
		o.p(ctx.Err(), child.Err(), val.Err(), errors.Is(val.Err(), context.Canceled))
		late, c2 := context.WithCancel(ctx)
		c2()
		o.p(late.Err())
	})
	add("ctx-timeout", func(o *out) {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		defer cancel()
		select {
		case <-ctx.Done():
			o.p(ctx.Err(), errors.Is(ctx.Err(), context.DeadlineExceeded))
		case <-time.After(2 * time.Second):
			o.p("late")
		}
		past, c := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		defer c()
		o.p(past.Err())
		sub, c3 := context.WithTimeout(ctx, time.Hour)
		defer c3()
		o.p(sub.Err())
	})
	add("ctx-cause", func(o *out) {
		ctx, cancel := context.WithCancelCause(context.Background())
		cancel(io.EOF)
		o.p(ctx.Err(), context.Cause(ctx))
		done := make(chan struct{})
		c2, cancel2 := context.WithCancel(context.Background())
		stop := context.AfterFunc(c2, func() { close(done) })
		cancel2()
		<-done
		o.p(stop())
		o.p(context.WithoutCancel(c2).Err())
	})
}

func nerr(err error) string {
	if err == nil {
		return "nil"
	}
	s := ""
	if err == io.EOF {
		s += " eof"
	}
	if errors.Is(err, io.EOF) {
		s += " is-eof"
	}
	if errors.Is(err, io.ErrUnexpectedEOF) {
		s += " unexpected"
	}
	if errors.Is(err, net.ErrClosed) {
		s += " closed"
	}
	if strings.Contains(err.Error(), "use of closed network connection") {
		s += " closed-text"
	}
	if errors.Is(err, os.ErrDeadlineExceeded) {
		s += " deadline"
	}
	if ne, ok := err.(net.Error); ok {
		s += fmt.Sprintf(" net.Error(timeout=%v temporary=%v)", ne.Timeout(), ne.Temporary())
	}
	var oe *net.OpError
	if errors.As(err, &oe) {
		s += fmt.Sprintf(" op(%s %s)", oe.Op, oe.Net)
	}
	return s
}

func pair(o *out) (c, s net.Conn, l net.Listener) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		o.p("listen", err)
		return
	}
	ch := make(chan net.Conn)
	go func() {
		s, err := l.Accept()
		if err != nil {
			o.p("accept", err)
		}
		ch <- s
	}()
	c, err = net.Dial("tcp", l.Addr().String())
	if err != nil {
		o.p("dial", err)
	}
	return c, <-ch, l
}

func nets() {
	add("net-echo", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		defer c.Close()
		go func() {
			defer s.Close()
			_, _ = io.Copy(s, s)
		}()
		n, err := c.Write([]byte("hello"))
		o.p(n, err)
		b := make([]byte, 10)
		n, err = io.ReadFull(c, b[:5])
		o.p(n, err, string(b[:n]))
		o.p(c.RemoteAddr().String() == l.Addr().String(), c.LocalAddr().Network(), c.RemoteAddr().String() == s.LocalAddr().String())
		_ = c.(*net.TCPConn).CloseWrite()
		n, err = c.Read(b)
		o.p(n, nerr(err))
	})
	add("net-eof", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		_, _ = s.Write([]byte("abc"))
		o.p(nerr(s.Close()), nerr(s.Close()))
		b := make([]byte, 10)
		n, err := io.ReadFull(c, b)
		o.p(n, nerr(err))
		n, err = c.Read(b)
		o.p(n, nerr(err))
		n, err = io.ReadFull(c, b)
		o.p(n, nerr(err))
		n, err = c.Read(nil)
		o.p(n, nerr(err))
		o.p(nerr(c.Close()), nerr(c.Close()))
		n, err = c.Read(b)
		o.p(n, nerr(err))
		n, err = c.Write(b)
		o.p(n, nerr(err))
		o.p(nerr(c.SetDeadline(time.Now())))
		_, err = s.Read(b)
		o.p(nerr(err))
	})
	add("net-deadline", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		defer s.Close()
		b := make([]byte, 4)
		_ = c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		n, err := c.Read(b)
		o.p(n, nerr(err))
		n, err = c.Read(b)
		o.p(n, nerr(err))
		_, _ = s.Write([]byte("xy"))
		time.Sleep(50 * time.Millisecond)
		n, err = c.Read(b)
		o.p(n, nerr(err)) // an expired deadline wins over data
		_ = c.SetReadDeadline(time.Time{})
		n, err = io.ReadAtLeast(c, b, 2)
		o.p(n, nerr(err))
		_ = c.SetDeadline(time.Unix(1, 0))
		n, err = c.Write(b)
		o.p(n, nerr(err))
		_ = c.SetDeadline(time.Time{})
		done := make(chan string, 1)
		go func() { _, err := c.Read(b); done <- nerr(err) }()
		time.Sleep(20 * time.Millisecond)
		_ = c.SetReadDeadline(time.Now())
		o.p(<-done)
		_ = c.SetReadDeadline(time.Time{})
		go func() { _, err := c.Read(b); done <- nerr(err) }()
		time.Sleep(20 * time.Millisecond)
		_ = c.Close()
		o.p(<-done)
	})
	add("net-partial", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		defer c.Close()
		go func() {
			for _, p := range []string{"ab", "cd", "e"} {
				_, _ = s.Write([]byte(p))
				time.Sleep(10 * time.Millisecond)
			}
			s.Close()
		}()
		r := bufio.NewReader(c)
		p, err := r.Peek(3)
		o.p(string(p), nerr(err))
		_, _ = r.Discard(1)
		all, err := io.ReadAll(r)
		o.p(string(all), nerr(err))
	})
	add("net-buffers", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		bs := net.Buffers{[]byte("12"), []byte("345")}
		n, err := bs.WriteTo(c)
		o.p(n, err, len(bs))
		c.Close()
		all, err := io.ReadAll(s)
		o.p(string(all), nerr(err))
	})
	add("net-refused", func(o *out) {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		addr := l.Addr().String()
		o.p(nerr(l.Close()), nerr(l.Close()))
		_, err := net.DialTimeout("tcp", addr, time.Second)
		o.p(nerr(err))
		_, err = l.Accept()
		o.p(nerr(err))
		_, err = net.Dial("tcp", "nonsense")
		o.p(err != nil)
	})
	add("net-accept-close", func(o *out) {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		done := make(chan string)
		go func() { _, err := l.Accept(); done <- nerr(err) }()
		time.Sleep(10 * time.Millisecond)
		l.Close()
		o.p(<-done)
		_ = func() net.Listener {
			l2, err := net.Listen("tcp", "127.0.0.1:0")
			o.p(nerr(err))
			_, err = net.Listen("tcp", l2.Addr().String())
			o.p(nerr(err))
			l2.Close()
			return l2
		}()
	})
	add("net-accept-deadline", func(o *out) {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		defer l.Close()
		_ = l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Millisecond))
		_, err := l.Accept()
		o.p(nerr(err))
	})
	add("net-dial-ctx", func(o *out) {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		defer l.Close()
		_, err := new(net.Dialer).DialContext(ctx, "tcp", l.Addr().String())
		o.p(err != nil, errors.Is(err, context.Canceled))
		ctx2, cancel2 := context.WithTimeout(context.Background(), time.Second)
		c, err := new(net.Dialer).DialContext(ctx2, "tcp", l.Addr().String())
		o.p(nerr(err))
		cancel2()
		_, err = c.Write([]byte("still works"))
		o.p(nerr(err))
		c.Close()
		_, err = (&net.Dialer{Deadline: time.Now().Add(-time.Second)}).Dial("tcp", l.Addr().String())
		o.p(nerr(err))
		_, err = (&net.Dialer{Timeout: -1}).Dial("tcp", l.Addr().String())
		o.p(nerr(err))
	})
	add("net-reset", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		_, _ = c.Write([]byte("unread"))
		time.Sleep(20 * time.Millisecond)
		s.Close() // unread data: reset
		time.Sleep(20 * time.Millisecond)
		b := make([]byte, 4)
		n, err := c.Read(b)
		o.p(n, nerr(err), strings.Contains(err.Error(), "reset by peer"))
		c.Close()
	})
	add("net-peer-gone-write", func(o *out) {
		c, s, l := pair(o)
		defer l.Close()
		s.Close()
		time.Sleep(20 * time.Millisecond)
		n, err := c.Write([]byte("first"))
		o.p(n, nerr(err))
		time.Sleep(20 * time.Millisecond)
		n, err = c.Write([]byte("second"))
		o.p(n, err != nil, nerr(err))
		c.Close()
	})
	add("net-pipe", func(o *out) {
		a, b := net.Pipe()
		go func() { _, _ = a.Write([]byte("pipe")); a.Close() }()
		all, err := io.ReadAll(b)
		o.p(string(all), nerr(err))
	})
	add("net-two-conns", func(o *out) {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func(c net.Conn) {
					defer c.Close()
					r := bufio.NewScanner(c)
					for r.Scan() {
						fmt.Fprintf(c, "<%s>\n", r.Text())
					}
				}(c)
			}
		}()
		c1, _ := net.Dial("tcp", l.Addr().String())
		c2, _ := net.Dial("tcp4", l.Addr().String())
		fmt.Fprintln(c1, "one")
		fmt.Fprintln(c2, "two")
		r1, _ := bufio.NewReader(c1).ReadString('\n')
		r2, _ := bufio.NewReader(c2).ReadString('\n')
		o.p(r1, r2)
		c1.Close()
		c2.Close()
		l.Close()
	})
}

func races() {
	two := func(f func(), g func()) {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); f() }()
		go func() { defer wg.Done(); g() }()
		wg.Wait()
	}
	racy("plain", func() {
		n := 0
		two(func() { n++ }, func() { n++ })
	})
	racy("two-mutexes", func() {
		var a, b sync.Mutex
		n := 0
		two(func() { a.Lock(); n++; a.Unlock() }, func() { b.Lock(); n++; b.Unlock() })
	})
	racy("read-locks", func() {
		var mu sync.RWMutex
		n := 0
		two(func() { mu.RLock(); n++; mu.RUnlock() }, func() { mu.RLock(); n++; mu.RUnlock() })
	})
	racy("unlock-early", func() {
		var mu sync.Mutex
		n := 0
		two(func() { mu.Lock(); n++; mu.Unlock() }, func() { mu.Lock(); mu.Unlock(); _ = n; n = 2 })
	})
	racy("semaphore-of-two", func() {
		c := make(chan struct{}, 2)
		n := 0
		two(func() { c <- struct{}{}; n++; <-c }, func() { c <- struct{}{}; n++; <-c })
	})
	racy("buffered-send-does-not-wait", func() {
		c := make(chan int, 1)
		n := 0
		two(func() { c <- 1; _ = n }, func() { n = 1; <-c })
	})
	racy("atomic-and-plain", func() {
		var n int32
		two(func() { atomic.AddInt32(&n, 1) }, func() { n = 5 })
		_ = n
	})
	racy("late-write", func() {
		c := make(chan int, 1)
		n := 0
		two(func() { c <- 1; n = 1 }, func() { <-c; _ = n })
	})
	racy("slice", func() {
		b := make([]byte, 8)
		two(func() { copy(b, "abc") }, func() { copy(b[2:], "xy") })
	})
	racy("map", func() {
		m := map[int]int{}
		two(func() { m[1] = 1 }, func() { m[2] = 2 })
	})
	racy("append", func() {
		var s []int
		two(func() { s = append(s, 1) }, func() { s = append(s, 2) })
	})
	racy("once-skipped", func() {
		var o sync.Once
		n := 0
		two(func() { o.Do(func() { n = 1 }) }, func() { n = 2 })
		_ = n
	})
	racy("cancelled-before", func() {
		ctx, cancel := context.WithCancel(context.Background())
		n := 0
		two(func() { cancel(); n = 1 }, func() { <-ctx.Done(); _ = n })
	})
}

type mapKey struct {
	a int
	s string
}

func init() {
	add("map-ranges", func(o *out) {
		m := map[int]string{3: "c", 1: "a", 2: "b"}
		sum, all := 0, 0
		for k := range m {
			sum += k
		}
		for range m {
			all++
		}
		var vs []string
		for _, v := range m {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		o.p(sum, all, vs)
		var k int
		var v string
		for k, v = range map[int]string{7: "g"} {
		}
		o.p(k, v)
		for k := range m {
			delete(m, k)
			break
		}
		o.p(len(m))
		seen := 0
		for k := range m {
			for j := range m {
				delete(m, j)
			}
			seen++
			_ = k
		}
		o.p(seen, len(m))
		ptrs := map[*mapKey]bool{}
		for i := 0; i < 5; i++ {
			ptrs[&mapKey{i, "x"}] = i%2 == 0
		}
		n := 0
	outer:
		for p, even := range ptrs {
			if !even {
				continue outer
			}
			for q := range ptrs {
				if q == p {
					continue outer
				}
				n += 0
			}
			n++
		}
		o.p(n)
		var none map[string]int
		for range none {
			o.p("never")
		}
		fs := map[string]func() int{}
		for s, i := range map[string]int{"a": 1, "b": 2} {
			fs[s] = func() int { return i }
		}
		o.p("shared loop variable:", fs["a"]() == fs["b"]())
		ch := make(chan int, 3)
		ch <- 1
		ch <- 2
		close(ch)
		var cs []func() int
		for i := range ch {
			cs = append(cs, func() int { return i })
		}
		o.p("shared loop variable:", cs[0]() == cs[1]())
		var anys = map[interface{}]int{1: 1, "1": 2, 1.5: 3, mapKey{1, "k"}: 4, [2]int{1, 2}: 5, nil: 6}
		t := 0
		for _, v := range anys {
			t += v
		}
		o.p(t)
	})
	add("map-shared-iteration", func(o *out) {
		var mu sync.Mutex
		conns := map[*sync.WaitGroup]int{}
		for i := 0; i < 3; i++ {
			conns[new(sync.WaitGroup)] = i
		}
		var wg sync.WaitGroup
		total := 0
		for c, i := range conns {
			c, i := c, i
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Wait()
				mu.Lock()
				total += i
				mu.Unlock()
			}()
		}
		wg.Wait()
		o.p(total)
	})
}
