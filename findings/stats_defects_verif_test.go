package stats

import (
	"bufio"
	"io"
	"net"
	"testing"
)

func serve(t *testing.T, replies ...string) *Client {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = lis.Close() })
	go func() {
		c, err := lis.Accept()
		if err != nil {
			return
		}
		s := bufio.NewScanner(c)
		for _, r := range replies {
			s.Scan()
			_, _ = io.WriteString(c, r)
		}
		_ = c.Close()
	}()
	return New(lis.Addr().String())
}

func TestDefect20_TruncatedDumpReportedAsComplete(t *testing.T) {
	c := serve(t, "key=a exp=-1 la=1 cas=1 fetch=no cls=1 size=60\r\n")
	err := c.MetaDumpAll(func(MetaDumpKey) {})
	if err == nil {
		t.Fatal("truncated dump reported as success")
	}
}

func TestDefect21_ErrorLeavesReplyUnread(t *testing.T) {
	c := serve(t,
		"STAT pid x\r\nSTAT uptime 999\r\nEND\r\n",
		"STAT pid 7\r\nSTAT uptime 8\r\nEND\r\n")
	_, err := c.GetGeneralStats()
	if err == nil {
		t.Fatal("expected error")
	}
	s, err := c.GetGeneralStats()
	if err != nil || s.PID != 7 || s.Uptime != 8 {
		t.Fatalf("second call got the rest of the first reply: %+v %v", s, err)
	}
}

func TestDefect22_DumpErrorLeavesReplyUnread(t *testing.T) {
	c := serve(t,
		"key=a cas=x\r\nkey=b cas=1\r\nEND\r\n",
		"key=c cas=1\r\nEND\r\n")
	if err := c.MetaDumpAll(func(MetaDumpKey) {}); err == nil {
		t.Fatal("expected error")
	}
	var got []string
	if err := c.MetaDumpAll(func(k MetaDumpKey) { got = append(got, k.Key) }); err != nil {
		t.Fatal(err)
	}
	if len(got) != 1 || got[0] != "c" {
		t.Fatalf("got %v", got)
	}
}
