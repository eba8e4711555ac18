From baaa0c99c43e8d127eec9b88a33342f51c990f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 01/15] fix: complete all batches of a pipeline published after
 close

---
 memcache/sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..85316e3 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -263,7 +263,10 @@ func (s *sender) sendToWriter() (closed bool) {
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
 	if closed {
-		cmd.setCompleted(ErrConnClosed)
+		// the pipeline waits for every one of its batches, not only the first one
+		for current := cmd; current != nil; current = current.sibling {
+			current.setCompleted(ErrConnClosed)
+		}
 	}
 }
 
-- 
2.43.0


From 5cf88160bebc05e079cec4958839fb2bfdfd5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 02/15] fix: do not block on the receive buffer while holding
 connMut

---
 memcache/sender.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 85316e3..b4be9b9 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,21 +221,21 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
@@ -244,18 +244,23 @@ func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
 	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// connMut must not be held here: push() blocks until the receiver makes progress,
+	// and the receiver needs connMut when its connection fails
 	s.recv.push(s.tmpBuf)
 
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.connMut.Lock()
+	s.writeAndFlush(conn)
+	s.connMut.Unlock()
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
-	s.connMut.Unlock()
 
 	return closed
 }
-- 
2.43.0


From 4888ec75d116b3340648ba66536b0557f62ac1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 03/15] fix: infinite loop when a response flag has no number

---
 memcache/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..526165b 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -134,13 +134,16 @@ func isDigit(c byte) bool {
 func findNumber(data []byte, index int) (uint64, int) {
 	foundIndex := -1
 	var firstChar byte
-	for i := index; i < len(data); i++ {
+	for i := index; i < len(data) && data[i] != '\r'; i++ {
 		if isDigit(data[i]) {
 			foundIndex = i
 			firstChar = data[i]
 			break
 		}
 	}
+	if foundIndex < 0 {
+		return 0, index
+	}
 
 	num := uint64(firstChar - '0')
 
-- 
2.43.0


From 578949fc6a5dc11e5895efb0bdf273fc60620a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 04/15] fix: index out of range when parsing an empty flush_all
 response

---
 memcache/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index 526165b..9784d54 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -428,6 +428,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 2 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From be1ef54727c0e348bfe52d8fb77851d8c3671573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 05/15] fix: panic when the server announces a huge value
 length

---
 memcache/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..cad39d8 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -75,6 +75,11 @@ func (r *responseReader) simpleContinue(data []byte) []byte {
 	return nil
 }
 
+// maxValueDataLen is the biggest item size that memcached supports (option -I)
+const maxValueDataLen = 1 << 30
+
+var errValueTooLarge = ErrBrokenPipe{reason: "value length too large"}
+
 var respVAWithSpace = []byte("VA ")
 var respVAWithSpaceLen = len(respVAWithSpace)
 
@@ -162,6 +167,9 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+			if r.dataLen > maxValueDataLen {
+				return r.setErrorAndReturn(errValueTooLarge)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From 66267f62beb16b3dc2fb0ea4f5164a7697f6e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 06/15] fix: bytes left over from a broken connection were used
 as responses of the next one

---
 memcache/core.go   | 7 +++++++
 memcache/reader.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..5c08acb 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -17,6 +17,8 @@ type coreConnection struct {
 	// job data
 	msgData []byte
 	cmdList *cmdListReader
+
+	lastConn *senderConnection // connection of the previous command
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -78,6 +80,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	if c.lastConn != current.conn {
+		// data remaining from the previous connection must not be used for the new one
+		c.lastConn = current.conn
+		c.responseReader.reset()
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
diff --git a/memcache/reader.go b/memcache/reader.go
index cad39d8..128cb6c 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -310,4 +310,5 @@ func (r *responseReader) reset() {
 	r.tmpData = r.tmpData[:]
 	r.state = readerStateInit
 	r.lastErr = nil
+	r.remainingData = nil
 }
-- 
2.43.0


From 1b835e9516a51cc9137c517f7ee7ca443b849232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 07/15] fix: reconnecting to the server while shutting down

---
 memcache/sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b4be9b9..423d61a 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -295,10 +295,10 @@ func (s *sender) readSentCommands(cmdList []*commandListData) int {
 
 func (s *sender) waitForError() (closed bool) {
 	s.connMut.Lock()
-	result := s.closed
 	for !s.closed && s.conn.getLastErrorInternal() == nil {
 		s.ncErrorCond.Wait()
 	}
+	result := s.closed
 	s.connMut.Unlock()
 	return result
 }
-- 
2.43.0


From fb1fdb8d216444250cb453b7b8536ab9c978ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 08/15] fix: redialing in a busy loop while shutting down

---
 memcache/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memcache/conn.go b/memcache/conn.go
index 8ddb26d..7f527f7 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -67,7 +67,10 @@ func newConn(
 			if err != nil {
 				opts.dialErrorLogger(err)
 
-				sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				closed = sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				if closed {
+					return
+				}
 				continue
 			}
 
-- 
2.43.0


From a3a07eb6cb5a63618e5a500e0ad59b39a9ee401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 09/15] fix: connection leak when the keep alive options can
 not be set

---
 memcache/netconn/netconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcache/netconn/netconn.go b/memcache/netconn/netconn.go
index 2a456a3..26a1a60 100644
--- a/memcache/netconn/netconn.go
+++ b/memcache/netconn/netconn.go
@@ -109,9 +109,11 @@ func DialNewConn(addr string, options ...Option) (NetConn, error) {
 	tcpNetConn, ok := nc.(*net.TCPConn)
 	if ok {
 		if err := tcpNetConn.SetKeepAlive(true); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 		if err := tcpNetConn.SetKeepAlivePeriod(conf.tcpKeepAliveDuration); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 	}
-- 
2.43.0


From af5d38b027b5f91fe115091f210c1c14255c8269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 10/15] fix: commands never completed when the connection error
 is ErrConnClosed

---
 memcache/core.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/memcache/core.go b/memcache/core.go
index 5c08acb..53175ca 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -1,7 +1,6 @@
 package memcache
 
 import (
-	"errors"
 	"sync"
 
 	"github.com/QuangTung97/go-memcache/memcache/netconn"
@@ -59,13 +58,13 @@ func (c *coreConnection) recvCommands() {
 
 	for {
 		var inc increaseReadCount
+		if c.cmdList.readIfExhausted() == 0 { // closed
+			c.sender.shutdown()
+			return
+		}
+
 		err := c.recvSingleCommandData(&inc)
 		if err != nil {
-			if errors.Is(err, ErrConnClosed) { // cmd len == 0
-				c.sender.shutdown()
-				return
-			}
-
 			c.responseReader.reset()
 		}
 		c.cmdList.current().setCompleted(err)
@@ -74,11 +73,6 @@ func (c *coreConnection) recvCommands() {
 }
 
 func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
-	cmdLen := c.cmdList.readIfExhausted()
-	if cmdLen == 0 {
-		return ErrConnClosed
-	}
-
 	current := c.cmdList.current()
 	if c.lastConn != current.conn {
 		// data remaining from the previous connection must not be used for the new one
-- 
2.43.0


From 28eff1496c8bd9434ddc81e8fe75f111c1c78b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 11/15] fix: commands after an unparsable response got the
 response of another command

---
 memcache/pipeline.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..15cb572 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,14 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
+	var brokenErr error
 	for _, cmd := range pipelineCommands {
+		if brokenErr != nil {
+			// the previous response could not be parsed, its data must not be used for other commands
+			cmd.err = brokenErr
+			continue
+		}
+
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +144,11 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			_, isBroken := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+			if isBroken {
+				brokenErr = cmd.err
+			}
 		}
 	}
 }
-- 
2.43.0


From ee12bd258b7c4d6bf4a40fd91fff8ea9519fe90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 12/15] fix: error response without a message swallowed the
 next response

---
 memcache/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 9784d54..1bfe1b4 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -266,7 +266,7 @@ func (p *parser) readError(errType errorType) error {
 }
 
 func isBytesEqual(data []byte, err []byte) bool {
-	return len(data) > len(err) && bytes.Equal(data[:len(err)], err)
+	return len(data) > len(err) && bytes.Equal(data[:len(err)], err) && data[len(err)] == ' '
 }
 
 func (p *parser) isErrorPrefix() errorType {
-- 
2.43.0


From 792d30d560422a330eff7e93001732d929629589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 13/15] fix: truncated metadump reported as success

---
 memcache/stats/stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..6d507b7 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -498,7 +499,10 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.EOF // connection closed before END
 }
 
 type statItem struct {
-- 
2.43.0


From 203654fc2d3fb815ff55215de85854a7c186840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 14/15] fix: authentication could block forever

---
 memcache/netconn/auth.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..eafb7fd 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -48,6 +48,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, err
 		}
 
+		// the server might never answer
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
@@ -68,6 +76,11 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if err := conn.SetDeadline(time.Time{}); err != nil {
+			_ = conn.Close()
+			return nil, err
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From bf274941e0abc56499b4d722505df7d1fd3f3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 15/15] fix: stats error left the rest of the response for the
 next command

---
 memcache/stats/parser.go |  6 ++++++
 memcache/stats/stats.go  | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..3a4e2af 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -79,6 +79,12 @@ func (p *statsParser) next() bool {
 	return true
 }
 
+// skipRemaining reads the rest of the response, so that it is not used for the next command
+func (p *statsParser) skipRemaining() {
+	for p.next() {
+	}
+}
+
 func (p *statsParser) getError() error {
 	return p.lastErr
 }
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index 6d507b7..5af008c 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -99,6 +99,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipRemaining()
 				return GeneralStats{}, err
 			}
 			result.PID = pid
@@ -106,6 +107,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipRemaining()
 				return GeneralStats{}, err
 			}
 			result.Uptime = uptime
@@ -213,6 +215,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
+				c.parser.skipRemaining()
 				return SlabsStats{}, err
 			}
 			result.ActiveSlabs = uint32(active)
@@ -220,6 +223,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipRemaining()
 				return SlabsStats{}, err
 			}
 			result.TotalMalloced = totalMalloced
@@ -227,6 +231,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
+				c.parser.skipRemaining()
 				return SlabsStats{}, err
 			}
 		}
@@ -395,6 +400,7 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
+			c.parser.skipRemaining()
 			return SlabItemsStats{}, err
 		}
 	}
@@ -487,15 +493,24 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		return err
 	}
 
+	var firstErr error
 	for c.scanner.Scan() {
 		line := c.scanner.Text()
 		if line == "END" {
-			return nil
+			return firstErr
+		}
+
+		if firstErr != nil {
+			continue // skip the rest of the response
 		}
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
-			return err
+			if !strings.HasPrefix(line, "key=") {
+				return err // an error reply, it is a single line
+			}
+			firstErr = err
+			continue
 		}
 		scanFunc(key)
 	}
-- 
2.43.0

