package memcache

// Demonstrations of genuine defects (each test fails on the pinned commit and passes after the
// corresponding "fix:" commit).  Run through an overlay, see run.sh.  Not part of any check.

import (
	"bufio"
	"errors"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
)

func within(t *testing.T, d time.Duration, name string, fn func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s: still blocked after %v", name, d)
	}
}

// fakeServer runs handler for each accepted connection.
func fakeServer(t *testing.T, handler func(n int, c net.Conn)) string {
	t.Helper()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = lis.Close() })
	go func() {
		for n := 0; ; n++ {
			c, err := lis.Accept()
			if err != nil {
				return
			}
			go handler(n, c)
		}
	}()
	return lis.Addr().String()
}

func readLines(c net.Conn, n int) {
	s := bufio.NewScanner(c)
	for i := 0; i < n && s.Scan(); i++ {
	}
}

func TestDefect01_SiblingsAfterClose(t *testing.T) {
	addr := fakeServer(t, func(_ int, c net.Conn) { _, _ = io.Copy(io.Discard, c) })
	c, _ := New(addr, 1, WithMaxCommandsPerBatch(2))
	p := c.Pipeline()
	var fn []func() (MGetResponse, error)
	for i := 0; i < 5; i++ {
		fn = append(fn, p.MGet("k", MGetOptions{}))
	}
	_ = c.Close()
	within(t, 3*time.Second, "fn()", func() {
		for _, f := range fn {
			if _, err := f(); err != ErrConnClosed {
				t.Errorf("got %v", err)
			}
		}
	})
}

func TestDefect02_DeadlockUnderConnMut(t *testing.T) {
	addr := fakeServer(t, func(_ int, c net.Conn) { _, _ = io.Copy(io.Discard, c) })
	c, _ := New(addr, 1, WithRetryDuration(50*time.Millisecond))
	var wg sync.WaitGroup
	for i := 0; i < 480; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := c.Pipeline()
			defer p.Finish()
			_, _ = p.MGet("k", MGetOptions{})()
		}()
	}
	within(t, 8*time.Second, "480 concurrent gets on a silent server", wg.Wait)
}

func respServer(t *testing.T, lines int, resp string) string {
	return fakeServer(t, func(_ int, c net.Conn) {
		readLines(c, lines)
		_, _ = io.WriteString(c, resp)
		time.Sleep(5 * time.Second)
		_ = c.Close()
	})
}

func TestDefect03_CasWithoutNumberSpins(t *testing.T) {
	c, _ := New(respServer(t, 1, "HD c\r\n"), 1)
	p := c.Pipeline()
	within(t, 3*time.Second, "MGet", func() { _, _ = p.MGet("k", MGetOptions{})() })
}

func TestDefect04_FlushAllIndexPanic(t *testing.T) {
	c, _ := New(respServer(t, 2, "SERVER_ERROR\r\nOK\r\n"), 1)
	p := c.Pipeline()
	f1 := p.MGet("k", MGetOptions{})
	f2 := p.FlushAll()
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	_, e1 := f1()
	e2 := f2()
	t.Log(e1, e2)
}

func TestDefect05_HugeValueLengthPanics(t *testing.T) {
	// parse in this goroutine: in the client it would take the whole process down
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	r := newResponseReader()
	r.setCurrentCommand(newCommand())
	r.recv([]byte("VA 9223372036854775000\r\n"))
	r.readNextData()
	if r.hasError() == nil {
		t.Fatal("expected error")
	}
}

func TestDefect06_StaleBytesAcrossReconnect(t *testing.T) {
	addr := fakeServer(t, func(n int, c net.Conn) {
		readLines(c, 1)
		if n == 0 {
			// one bad answer plus one left-over line
			_, _ = io.WriteString(c, "CLIENT_ERROR bad data chunk\r\nEN\r\n")
		} else {
			_, _ = io.WriteString(c, "HD W\r\n")
		}
		time.Sleep(5 * time.Second)
		_ = c.Close()
	})
	c, _ := New(addr, 1)
	p := c.Pipeline()
	_, err := p.MGet("k", MGetOptions{})()
	t.Log(err)
	time.Sleep(300 * time.Millisecond) // reconnected
	resp, err := p.MGet("k2", MGetOptions{})()
	if err != nil || resp.Type != MGetResponseTypeHD {
		t.Fatalf("got response of the previous connection: %+v %v", resp, err)
	}
}

func TestDefect07_DialAfterShutdown(t *testing.T) {
	addr := fakeServer(t, func(_ int, c net.Conn) { _, _ = io.Copy(io.Discard, c) })
	var dials atomic.Int64
	c, _ := New(addr, 1, WithDialFunc(func(n, a string, d time.Duration) (net.Conn, error) {
		dials.Add(1)
		return net.DialTimeout(n, a, d)
	}))
	time.Sleep(50 * time.Millisecond)
	_ = c.Close()
	if dials.Load() != 1 {
		t.Fatalf("dials = %d", dials.Load())
	}
}

type closeTrack struct {
	net.Conn
	closed *atomic.Int64
}

func TestDefect08_LeakOnKeepAliveError(t *testing.T) {
	srvClosed := make(chan struct{})
	addr := fakeServer(t, func(_ int, c net.Conn) { _, _ = io.Copy(io.Discard, c); close(srvClosed) })
	var keep net.Conn
	_, err := netconn.DialNewConn(addr, netconn.WithTCPKeepAliveDuration(100*time.Hour),
		netconn.WithDialFunc(func(n, a string, d time.Duration) (net.Conn, error) {
			c, err := net.DialTimeout(n, a, d)
			keep = c
			return c, err
		}))
	if err == nil {
		t.Skip("keepalive accepted")
	}
	select {
	case <-srvClosed:
	case <-time.After(2 * time.Second):
		_ = keep.Close()
		t.Fatal("connection left open: ", err)
	}
}

func TestDefect09_AuthWithoutDeadline(t *testing.T) {
	addr := fakeServer(t, func(_ int, c net.Conn) { _, _ = io.Copy(io.Discard, c) })
	a, _ := netconn.NewPasswordAuth("u", "p")
	within(t, 3*time.Second, "auth dial", func() {
		_, err := a.GetDialFunc(net.DialTimeout)("tcp", addr, 300*time.Millisecond)
		if err == nil {
			t.Error("expected error")
		}
	})
}

type errClosedReadConn struct{ net.Conn }

func (errClosedReadConn) Read([]byte) (int, error) { return 0, ErrConnClosed }

func TestDefect10_ReadErrorIsErrConnClosed(t *testing.T) {
	addr := fakeServer(t, func(_ int, c net.Conn) { _, _ = io.Copy(io.Discard, c) })
	c, _ := New(addr, 1, WithDialFunc(func(n, a string, d time.Duration) (net.Conn, error) {
		nc, err := net.DialTimeout(n, a, d)
		return errClosedReadConn{nc}, err
	}))
	p := c.Pipeline()
	within(t, 3*time.Second, "MGet", func() {
		_, err := p.MGet("k", MGetOptions{})()
		if err == nil {
			t.Error("expected error")
		}
	})
}

func TestDefect11_MisalignedAfterUnparsable(t *testing.T) {
	// replies in order: [MGet -> NS (not a reply of mg)], [MSet -> HD]
	c, _ := New(respServer(t, 3, "NS\r\nHD\r\n"), 1)
	p := c.Pipeline()
	f1 := p.MGet("k", MGetOptions{})
	f2 := p.MSet("k", []byte("v"), MSetOptions{})
	_, e1 := f1()
	r2, e2 := f2()
	if e1 == nil {
		t.Fatal("expected error")
	}
	if e2 == nil && r2.Type == MSetResponseTypeNS {
		t.Fatalf("MSet got the reply of MGet: %+v", r2)
	}
}

func TestDefect12_ErrorLineWithoutMessageSwallowsNext(t *testing.T) {
	c, _ := New(respServer(t, 5, "SERVER_ERROR\r\nHD\r\nNS\r\n"), 1)
	p := c.Pipeline()
	f1 := p.MGet("k", MGetOptions{})
	f2 := p.MSet("k", []byte("v"), MSetOptions{})
	f3 := p.MSet("k", []byte("v"), MSetOptions{})
	_, e1 := f1()
	r2, e2 := f2()
	r3, e3 := f3()
	t.Log(e1, r2, e2, r3, e3)
	if e2 == nil && r2.Type != MSetResponseTypeHD {
		t.Fatalf("second command got the reply of the third: %+v", r2)
	}
	var se ErrServerError
	if errors.As(e1, &se) && strings.Contains(se.Message, "HD") {
		t.Fatalf("error message contains another reply: %q", se.Message)
	}
}

func TestDefect13_HotDialLoopWhileClosing(t *testing.T) {
	var dials atomic.Int64
	c, _ := New("127.0.0.1:1", 1, WithRetryDuration(time.Hour), WithDialErrorLogger(func(error) {}),
		WithDialFunc(func(n, a string, d time.Duration) (net.Conn, error) {
			dials.Add(1)
			return nil, errors.New("down")
		}))
	p := c.Pipeline()
	_, _ = p.MGet("k", MGetOptions{})()
	time.Sleep(50 * time.Millisecond)
	before := dials.Load()
	conn := c.conns[0]
	// a shutdown that takes a little while (commands still draining)
	conn.mut.Lock()
	conn.closed = true
	close(conn.closeChan)
	conn.mut.Unlock()
	time.Sleep(20 * time.Millisecond)
	after := dials.Load()
	conn.core.sender.closeSendJob()
	if after != before {
		t.Fatalf("%d dials after shutdown started", after-before)
	}
}
