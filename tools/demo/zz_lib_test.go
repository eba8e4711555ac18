package memcache

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// zzServer is a small in-memory memcached for demonstrations.
type zzServer struct {
	ln    net.Listener
	mu    sync.Mutex
	data  map[string]string
	cas   map[string]uint64
	next  uint64
	lines []string // command lines received
	conns []net.Conn

	// hook gets each command line first; when it returns true it has answered (or not) itself
	hook func(s *zzServer, conn net.Conn, r *bufio.Reader, line string) bool
}

func zzStart(t *testing.T, hook func(s *zzServer, conn net.Conn, r *bufio.Reader, line string) bool) *zzServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &zzServer{ln: ln, data: map[string]string{}, cas: map[string]uint64{}, hook: hook}
	t.Cleanup(func() {
		_ = ln.Close()
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, c := range s.conns {
			_ = c.Close()
		}
	})
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s
}

func (s *zzServer) addr() string { return s.ln.Addr().String() }

func (s *zzServer) got() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.lines...)
}

func (s *zzServer) numConns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

func (s *zzServer) serve(c net.Conn) {
	defer func() { _ = c.Close() }()
	r := bufio.NewReaderSize(c, 1<<20)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimSuffix(line, "\r\n")
		s.mu.Lock()
		s.lines = append(s.lines, line)
		s.mu.Unlock()
		if s.hook != nil && s.hook(s, c, r, line) {
			continue
		}
		if !s.answer(c, r, line) {
			return
		}
	}
}

func (s *zzServer) answer(c net.Conn, r *bufio.Reader, line string) bool {
	f := strings.Fields(line)
	if len(f) == 0 {
		_, _ = io.WriteString(c, "ERROR\r\n")
		return true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	out := "ERROR\r\n"
	switch f[0] {
	case "mg":
		v, ok := s.data[f[1]]
		flags := ""
		for _, o := range f[2:] {
			if o == "c" {
				flags += " c" + strconv.FormatUint(s.cas[f[1]], 10)
			}
			if o[0] == 'N' && !ok {
				s.next++
				s.data[f[1]], s.cas[f[1]] = "", s.next
				ok = true
				flags = strings.ReplaceAll(flags, " c0", fmt.Sprintf(" c%d", s.next)) + " W"
			}
		}
		if !ok {
			out = "EN\r\n"
		} else {
			out = fmt.Sprintf("VA %d%s\r\n%s\r\n", len(v), flags, v)
		}
	case "ms":
		n, _ := strconv.Atoi(f[2])
		b := make([]byte, n+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return false
		}
		out = "HD\r\n"
		for _, o := range f[3:] {
			if o[0] == 'C' {
				w, _ := strconv.ParseUint(o[1:], 10, 64)
				if w != s.cas[f[1]] {
					out = "EX\r\n"
				}
			}
		}
		if out == "HD\r\n" {
			s.next++
			s.data[f[1]], s.cas[f[1]] = string(b[:n]), s.next
		}
	case "md":
		if _, ok := s.data[f[1]]; ok {
			delete(s.data, f[1])
			out = "HD\r\n"
		} else {
			out = "NF\r\n"
		}
	case "version":
		out = "VERSION 1.6.18\r\n"
	case "flush_all":
		s.data = map[string]string{}
		out = "OK\r\n"
	}
	_, err := io.WriteString(c, out)
	return err == nil
}

// zzWithin fails the demonstration when f does not return in time.
func zzWithin(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s did not return within %v", what, d)
	}
}

func zzClient(t *testing.T, s *zzServer, n int, opts ...Option) *Client {
	t.Helper()
	c, err := New(s.addr(), n, opts...)
	if err != nil {
		t.Fatal(err)
	}
	return c
}
