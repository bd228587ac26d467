From 7cfdda3880c10effdbc846dfe19edc3f4a13af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 01/59] fix: SELECT changed the database of every connection

The selected database lived in the Manager shared by all connections.
---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 017598f..00f3293 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -29,6 +29,9 @@ func NewManager(config *config.Config) *Manager {
 }
 
 func (m *Manager) Handle(conn net.Conn) {
+	// the selected database belongs to this connection only
+	m = &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// parse conn
 	ch := resp.ParseStream(conn)
 
-- 
2.43.0


From 216d48e7d9b28e5989cea7672a45d3305a56c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 02/59] fix: SELECT with an out-of-range index was not answered
 with an error

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index 00f3293..6d0e8e8 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -114,7 +114,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From 3aecee3a9b8ae8b96b26be083dfb1cbf5557428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 03/59] fix: an empty or null request array crashed the server

---
 server/handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 6d0e8e8..20be72b 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -70,6 +70,10 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
+		if len(cmd) == 0 {
+			logger.Error("Get empty command from: ", conn.RemoteAddr().String())
+			continue
+		}
 		redisData := m.ExecCommand(cmd)
 
 		// write result to connection
-- 
2.43.0


From d05e3ca1fb73f9a12bf05e28844e5226042c359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:17 +0000
Subject: [PATCH 04/59] fix: an empty line crashed the server

A lone LF indexed before the start of the line, a lone CR LF sliced it with inverted bounds.
---
 resp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..f530cc6 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,7 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		if len(msg) < 3 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
-- 
2.43.0


From d9be2d2caa4163ad70ed33eed4e6634e26cda281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 05/59] fix: an array element of unknown type crashed the
 server

---
 resp/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resp/parser.go b/resp/parser.go
index f530cc6..7ace753 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -99,6 +99,9 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 
 			// simple message
 			data, err = parseSingleLine(msg)
+			if err == nil && data == nil && buf.inArray {
+				err = errors.New("Protocol error: " + string(msg))
+			}
 		}
 
 		if err != nil {
-- 
2.43.0


From 672e63e268e2d51fd5ea353ed863995c22db5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:43 +0000
Subject: [PATCH 06/59] fix: a huge bulk string length crashed the server

---
 resp/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 7ace753..53db36b 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -8,6 +8,8 @@ import (
 	"strconv"
 )
 
+const maxBulkLen = 512 * 1024 * 1024 // same limit as redis
+
 type RedisResp struct {
 	Data RedisData
 	Err  error
@@ -177,7 +179,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From fbcd75e174451885dc11167064d7f39cdd658d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 07/59] fix: parser goroutine was leaked when a connection
 ended with an error

The handler stops reading at the first error, so the parser blocked for ever
on its next send.
---
 resp/parser.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 53db36b..93c91e9 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -37,15 +37,12 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		msg, err := readline(streamReader, buf)
 		if err != nil {
 			// read all and close channel
-			if err == io.EOF {
-				ch <- &RedisResp{Err: err}
-				close(ch)
-				return
+			if err != io.EOF {
+				logger.Error("Stream Error: ", err)
 			}
-			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -61,7 +58,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -87,7 +85,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -109,8 +108,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From db9cc07709f3d979e25f9f0713b7425b7eb822fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:46 +0000
Subject: [PATCH 08/59] fix: CR LF echoed in an error reply broke the reply
 stream

---
 resp/data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..705894c 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -83,7 +83,9 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	// echoed client data must not end the line early
+	data := strings.NewReplacer("\r", " ", "\n", " ").Replace(e.data)
+	return []byte(fmt.Sprintf("-%s%s", data, CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From 16df69ba155f57be549002186612667313cbd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:17 +0000
Subject: [PATCH 09/59] fix: KEYS crashed or returned empty names under
 concurrent writes

The key counter was updated under different segment locks and Keys sized its
result by it.
---
 memdb/concurrentMap.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..163292c 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -3,14 +3,15 @@ package memdb
 import (
 	"gRedis/util"
 	"sync"
+	"sync/atomic"
 )
 
 const MaxSegSize int = int(1<<32 - 1) // max signed int32
 
 type ConcurrentMap struct {
 	table []*segment
-	size  int // table size
-	count int // key counts
+	size  int   // table size
+	count int64 // key counts, shared by all segments: access atomically
 }
 
 type segment struct {
@@ -52,7 +53,7 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
+		atomic.AddInt64(&m.count, 1)
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +68,7 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
+		atomic.AddInt64(&m.count, -1)
 		return 1
 	}
 
@@ -89,7 +90,7 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	return int(atomic.LoadInt64(&m.count))
 }
 
 func (m *ConcurrentMap) Clear() {
@@ -98,13 +99,12 @@ func (m *ConcurrentMap) Clear() {
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	// the number of keys can change while segments are visited
+	keys := make([]string, 0, m.Count())
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From 506b409b4630406005079cefdd31b0d3af53b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:18 +0000
Subject: [PATCH 10/59] fix: lazy expiry could delete a value written after the
 deadline

---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..5eb48b5 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// the key may have been rewritten before the lock was taken
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From cd6c8d51027ad3613fd0b781bd190b07e4af68c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 11/59] fix: a deadline set in the past could be undone by a
 concurrent command

Commands check expiry before they take the key lock, so a concurrent PERSIST
or EXPIRE revived a key another client had already expired.
---
 memdb/memdb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index 5eb48b5..399c9a9 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -42,6 +42,12 @@ func (db *MemDb) SetExpire(key string, ttl int64) int {
 		//logger.Error("SetExpire: key doesn't exist")
 		return 0
 	}
+	// a deadline in the past deletes the key at once
+	if time.Now().Unix() > ttl {
+		db.dict.Delete(key)
+		db.expires.Delete(key)
+		return 1
+	}
 	db.expires.Set(key, ttl)
 	return 1
 }
-- 
2.43.0


From d660a51a140ec58dcc81832724bfdb5a57202373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:20 +0000
Subject: [PATCH 12/59] fix: a huge time to live overflowed and deleted the key

---
 memdb/keys.go    |  2 +-
 memdb/memdb.go   | 10 ++++++++++
 memdb/strings.go |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..0dcdc92 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -93,7 +93,7 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
-	ttl := time.Now().Unix() + v
+	ttl := expireAt(v)
 
 	// get option
 	var option string
diff --git a/memdb/memdb.go b/memdb/memdb.go
index 399c9a9..1027f43 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"gRedis/config"
+	"math"
 	"time"
 )
 
@@ -56,6 +57,15 @@ func (db *MemDb) DeleteExpire(key string) int {
 	return db.expires.Delete(key)
 }
 
+// deadline of a key that lives for sec more seconds, saturating at the largest time
+func expireAt(sec int64) int64 {
+	now := time.Now().Unix()
+	if sec > math.MaxInt64-now {
+		return math.MaxInt64
+	}
+	return now + sec
+}
+
 // lazy deletion
 func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..a1f2e12 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -142,7 +142,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	if ex {
-		db.SetExpire(key, time.Now().Unix()+exval)
+		db.SetExpire(key, expireAt(exval))
 	}
 	if px {
 		db.SetExpire(key, time.Now().Unix()+pxval/1000)
@@ -361,7 +361,7 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	db.dict.Set(key, val)
-	db.SetExpire(key, time.Now().Unix()+sec)
+	db.SetExpire(key, expireAt(sec))
 
 	return resp.NewSimpleString("OK")
 }
-- 
2.43.0


From 45f4e42e0610a92e8e78f2096677b76cf9af9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 13/59] fix: SET PX let the key expire early

The fractions of a second of both the current time and the argument were dropped.
---
 memdb/memdb.go   | 9 +++++++++
 memdb/strings.go | 3 +--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index 1027f43..3e54ce6 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -66,6 +66,15 @@ func expireAt(sec int64) int64 {
 	return now + sec
 }
 
+// same for milliseconds; deadlines are kept in seconds
+func expireAtMilli(ms int64) int64 {
+	now := time.Now().UnixMilli()
+	if ms > math.MaxInt64-now {
+		return math.MaxInt64 / 1000
+	}
+	return (now + ms) / 1000
+}
+
 // lazy deletion
 func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
diff --git a/memdb/strings.go b/memdb/strings.go
index a1f2e12..32ad883 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -5,7 +5,6 @@ import (
 	"gRedis/resp"
 	"strconv"
 	"strings"
-	"time"
 )
 
 /*
@@ -145,7 +144,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		db.SetExpire(key, expireAt(exval))
 	}
 	if px {
-		db.SetExpire(key, time.Now().Unix()+pxval/1000)
+		db.SetExpire(key, expireAtMilli(pxval))
 	}
 	if exat {
 		db.SetExpire(key, exatval)
-- 
2.43.0


From 1f9c4b2d56f39cf325a551a9440eab01fe40da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:11 +0000
Subject: [PATCH 14/59] fix: TTL could report -1 (no expiry) for a key expiring
 during the command

---
 memdb/keys.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 0dcdc92..13928b0 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -174,7 +174,13 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(int64(-1))
 	}
 
-	return resp.NewInteger(ttl.(int64) - now)
+	left := ttl.(int64) - now
+	if left < 0 {
+		// the deadline passed since the check above
+		left = 0
+	}
+
+	return resp.NewInteger(left)
 }
 
 func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From b15d1c0a191fbaae3af15a3fbaa7434fba13a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:12 +0000
Subject: [PATCH 15/59] fix: PERSIST replied 1 for missing keys and keys
 without a TTL

---
 memdb/keys.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 13928b0..65ad13c 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -147,9 +147,7 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From 7e614ddd08be6d1f0a799c7b75a857a7a81ae89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:13 +0000
Subject: [PATCH 16/59] fix: EXPIRE LT ignored keys without a TTL

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 65ad13c..b1b4fc1 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -123,7 +123,8 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	case "lt":
-		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
+		// no TTL counts as infinite
+		if v, ok := db.expires.Get(key); !ok || ttl < v.(int64) {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-- 
2.43.0


From 4c2c31bc608c506337cd34dba37f2b23501cee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:14 +0000
Subject: [PATCH 17/59] fix: DEL and EXISTS with several keys were not atomic

---
 memdb/keys.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index b1b4fc1..563eadb 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -24,15 +24,21 @@ func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	deleted := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.Lock(key)
-			deleted += db.dict.Delete(key)
-			db.DeleteExpire(key)
-			db.locks.UnLock(key)
-		}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// all keys are deleted at once
+	db.locks.MLock(keys)
+	defer db.locks.MUnLock(keys)
+
+	deleted := 0
+	for _, key := range keys {
+		deleted += db.dict.Delete(key)
+		db.DeleteExpire(key)
 	}
 
 	return resp.NewInteger(int64(deleted))
@@ -43,15 +49,21 @@ func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	existed := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-			if _, ok := db.dict.Get(key); ok {
-				existed++
-			}
-			db.locks.RUnLock(key)
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// all keys are looked up at once
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	existed := 0
+	for _, key := range keys {
+		if _, ok := db.dict.Get(key); ok {
+			existed++
 		}
 	}
 
-- 
2.43.0


From fa6e1e1caf8e02a4cf3f3c412783542f8e6268e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:16 +0000
Subject: [PATCH 18/59] fix: MGET was not atomic and left out expired keys

---
 memdb/strings.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 32ad883..b3c512f 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -294,22 +294,26 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	res := make([]resp.RedisData, 0)
 
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-
-			if val, ok := db.dict.Get(key); ok {
-				if v, ok := val.([]byte); ok {
-					res = append(res, resp.NewBulkString(v))
-				} else {
-					res = append(res, resp.NewBulkString(nil)) // not string
-				}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// all keys are read at once
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	for _, key := range keys {
+		if val, ok := db.dict.Get(key); ok {
+			if v, ok := val.([]byte); ok {
+				res = append(res, resp.NewBulkString(v))
 			} else {
-				res = append(res, resp.NewBulkString(nil))
+				res = append(res, resp.NewBulkString(nil)) // not string
 			}
-
-			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From 56c380422a5e9e942c6c492014a72977520ff4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 19/59] fix: SET EX/PX without a value crashed the server and
 SET EX accepted a non-integer

---
 memdb/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index b3c512f..d083910 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -46,18 +46,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-- 
2.43.0


From ac311035a448e886d617ca9e9b65a415ebe0846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 20/59] fix: SET EXAT and PXAT were always refused

The option name itself was parsed as the timestamp.
---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index d083910..1f35ce2 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -66,6 +66,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -76,6 +77,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From be0ce045fd5044c33086888520d11e5e7d6fcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:19 +0000
Subject: [PATCH 21/59] fix: SET NX changed the TTL of an existing key

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1f35ce2..7147ea2 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -138,6 +138,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	// nothing was set: leave the TTL alone
+	if nx && oldOk || xx && !oldOk {
+		return res
+	}
+
 	if !keepttl {
 		db.DeleteExpire(key)
 	}
-- 
2.43.0


From 31487acf1f9dca77f0967dd5f94aedc73ccfbebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:21 +0000
Subject: [PATCH 22/59] fix: SET without GET was refused for a key of another
 type

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 7147ea2..5eafc25 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -103,7 +103,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	oldVal, oldOk := db.dict.Get(key)
-	if oldOk {
+	if oldOk && get {
 		if _, ok := oldVal.([]byte); !ok {
 			return resp.NewSimpleError("The value stored at key is not a string")
 		}
-- 
2.43.0


From 48a6b262f7fffa65d19bf257eff8ef19c0c237d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:22 +0000
Subject: [PATCH 23/59] fix: two concurrent SETNX could both win

---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5eafc25..2b34589 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -385,15 +385,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From ec2f969450851b014a3de434a79328ea026a08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:55 +0000
Subject: [PATCH 24/59] fix: SETRANGE cut off the rest of the string and
 modified it under concurrent readers

---
 memdb/strings.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 2b34589..a442276 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -280,16 +280,20 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		oldVal = make([]byte, 0)
 	}
 
-	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
+	// nothing to write: don't create the key or pad the string
+	if len(value) == 0 {
+		return resp.NewInteger(int64(len(oldVal)))
 	}
 
-	newVal = append(newVal, value...)
+	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
+	newLen := offset + len(value)
+	if newLen < len(oldVal) {
+		newLen = len(oldVal)
+	}
+	// replies still being written may refer to the old value, so never modify it in place
+	newVal = make([]byte, newLen)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From c87a79149edcb773f59686b1855870e37be02ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:56 +0000
Subject: [PATCH 25/59] fix: SETRANGE with a huge offset crashed the server

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index a442276..6c19abf 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -7,6 +7,8 @@ import (
 	"strings"
 )
 
+const maxStringLen = 512 * 1024 * 1024 // same limit as redis
+
 /*
 EX seconds -- Set the specified expire time, in seconds.
 PX milliseconds -- Set the specified expire time, in milliseconds.
@@ -264,6 +266,9 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	value := cmd[3]
+	if offset > maxStringLen-len(value) {
+		return resp.NewSimpleError("string exceeds maximum allowed size")
+	}
 
 	var oldVal, newVal []byte
 	db.locks.Lock(key)
-- 
2.43.0


From cb903afa13c1fa318f04ba918b964c480648a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 26/59] fix: GETRANGE with the largest end index returned
 nothing

---
 memdb/strings.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 6c19abf..aa86c02 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -230,7 +230,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
-	end++
+	if end < len(v) {
+		end++
+	}
 
 	if start > end || start >= len(v) || end < 0 {
 		return resp.NewBulkString([]byte{})
-- 
2.43.0


From 3d9a3bb31630bf2e2efea6e75d945ce239139852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 27/59] fix: INCR, INCRBY, DECR and DECRBY ignored missing keys

They are set to 0 before the operation, as INCRBYFLOAT already did.
---
 memdb/strings.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index aa86c02..9a3a335 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -462,7 +462,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte("1"))
+		return resp.NewInteger(1)
 	}
 }
 
@@ -500,7 +502,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(increment, 10)))
+		return resp.NewInteger(increment)
 	}
 }
 
@@ -533,7 +537,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte("-1"))
+		return resp.NewInteger(-1)
 	}
 }
 
@@ -571,7 +577,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(-decrement, 10)))
+		return resp.NewInteger(-decrement)
 	}
 }
 
-- 
2.43.0


From 086e8c9245d8d29db7168d41e9d57610400357e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:00 +0000
Subject: [PATCH 28/59] fix: integer counters wrapped around instead of
 refusing to overflow

---
 memdb/hash_struct.go |  4 ++++
 memdb/strings.go     | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc73ddb..e25d431 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -1,6 +1,7 @@
 package memdb
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -84,6 +85,9 @@ func (h *Hash) IncrBy(key string, increment int) (int, bool) {
 		if err != nil {
 			return 0, false
 		}
+		if increment > 0 && n > math.MaxInt-increment || increment < 0 && n < math.MinInt-increment {
+			return 0, false
+		}
 		value := n + increment
 		h.Set(key, []byte(strconv.Itoa(value)))
 		return value, true
diff --git a/memdb/strings.go b/memdb/strings.go
index 9a3a335..406e005 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"fmt"
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -456,6 +457,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MaxInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV++
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -496,6 +500,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if increment > 0 && nV > math.MaxInt64-increment || increment < 0 && nV < math.MinInt64-increment {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV += increment
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -531,6 +538,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MinInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV--
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -571,12 +581,18 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("(error) value is not an integer")
 		}
 
+		if decrement < 0 && nV > math.MaxInt64+decrement || decrement > 0 && nV < math.MinInt64+decrement {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV -= decrement
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
 
 		return resp.NewInteger(nV)
 	} else {
+		if decrement == math.MinInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		//  If the key does not exist, it is set to 0 before performing the operation.
 		db.dict.Set(key, []byte(strconv.FormatInt(-decrement, 10)))
 		return resp.NewInteger(-decrement)
-- 
2.43.0


From b6480ab11a20ebe62465bb466f8c10c10d394af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 29/59] fix: INCRBYFLOAT and HINCRBYFLOAT stored NaN and
 infinities

---
 memdb/hash.go        | 3 ++-
 memdb/hash_struct.go | 3 +++
 memdb/strings.go     | 5 ++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..4558eec 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -219,7 +220,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index e25d431..c1235ae 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -105,6 +105,9 @@ func (h *Hash) IncrByFloat(key string, increment float64) (float64, bool) {
 			return 0, false
 		}
 		value := f + increment
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return 0, false
+		}
 		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
 		return value, true
 	}
diff --git a/memdb/strings.go b/memdb/strings.go
index 406e005..3b9155d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -609,7 +609,7 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -628,6 +628,9 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 
 		fV += increment
+		if math.IsNaN(fV) || math.IsInf(fV, 0) {
+			return resp.NewSimpleError("increment would produce NaN or Infinity")
+		}
 		fVal := strconv.FormatFloat(fV, 'f', -1, 64)
 		db.dict.Set(key, []byte(fVal))
 
-- 
2.43.0


From b73ae8bcd17cda6c701946450e5fa26c1fcc7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:37 +0000
Subject: [PATCH 30/59] fix: refused HINCRBY and HINCRBYFLOAT left an empty
 hash behind

A later HRANDFIELD on it crashed the server.
---
 memdb/hash.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 4558eec..cdfb840 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -162,6 +162,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -179,10 +184,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
 
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
@@ -201,6 +202,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -219,10 +225,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
-		return resp.NewSimpleError("value is not an float")
-	}
 
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
-- 
2.43.0


From ce80befb52f7981016257652013df754dab88fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 31/59] fix: HSETNX did nothing whenever the hash already
 existed

---
 memdb/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index cdfb840..5b2938e 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -424,9 +424,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -436,6 +433,10 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
+	if h.Exist(field) {
+		// 0 if the field already exists in the hash and no operation was performed.
+		return resp.NewInteger(0)
+	}
 	val := cmd[3]
 	h.Set(field, val)
 
-- 
2.43.0


From fc930f1adaea188fff075777c1b4c632de2f3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:40 +0000
Subject: [PATCH 32/59] fix: HMGET on a missing key did not answer one element
 per field

---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 5b2938e..25de429 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -307,10 +307,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -318,8 +315,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// a missing key is an empty hash: nil for every field
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From be5b2ffaf6e751652b57840544ea3352b386d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:41 +0000
Subject: [PATCH 33/59] fix: HRANDFIELD with a count of 1 ignored WITHVALUES
 and was not an array

---
 memdb/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 25de429..7d5f99a 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -552,7 +552,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  a single, randomly selected field when the count option is not used
-	if count == 1 {
+	if len(cmd) == 2 {
 		fields := h.Random(1)
 		return resp.NewBulkString([]byte(fields[0]))
 	}
-- 
2.43.0


From 07aed5f8f7c5940566cc4d757c29a7963a48abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:43 +0000
Subject: [PATCH 34/59] fix: LPOP and RPOP with a count of 1 did not reply with
 an array

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..c9f0887 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -242,7 +242,7 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	if len(cmd) == 2 {
 		node := l.LPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
@@ -755,7 +755,7 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	if len(cmd) == 2 {
 		node := l.RPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
-- 
2.43.0


From 3e906404c336fd477995097ace57681ec93cda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:44 +0000
Subject: [PATCH 35/59] fix: LINSERT inserted at every pivot and could loop for
 ever

Inserting after a pivot equal to the new element never terminated.
---
 memdb/list_struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..56afaf1 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -68,6 +68,7 @@ func (l *List) InsertBefore(val []byte, pivot []byte) bool {
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			break
 		}
 	}
 	return ok
@@ -82,6 +83,7 @@ func (l *List) InsertAfter(val []byte, pivot []byte) bool {
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			break
 		}
 	}
 	return ok
-- 
2.43.0


From 1b0fe649ec86f11e4a098c3e0eb835c65511ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:45 +0000
Subject: [PATCH 36/59] fix: LINDEX and LSET with the smallest index crashed
 the server

---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 56afaf1..6aedbc8 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
-- 
2.43.0


From 1c883b7f88416c74c764ea5e6366398c12ef8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:47 +0000
Subject: [PATCH 37/59] fix: refused LMOVE left an empty destination list
 behind

A later LMOVE from it crashed the server.
---
 memdb/list.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index c9f0887..8e7695a 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -159,11 +159,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewBulkString(nil)
 	}
-	desVal, ok := db.dict.Get(des)
-	if !ok {
-		desVal = NewList()
-		db.dict.Set(des, desVal)
-	}
 
 	// wrong type
 	srcList, ok := srcVal.(*List)
@@ -171,6 +166,12 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	desVal, ok := db.dict.Get(des)
+	if !ok {
+		desVal = NewList()
+		db.dict.Set(des, desVal)
+	}
+
 	defer func() {
 		if srcList.Len == 0 {
 			db.dict.Delete(src)
-- 
2.43.0


From 9af39a6c1e8b6ca28d9ddbd9ce440ef2424d476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:48 +0000
Subject: [PATCH 38/59] fix: LMOVE printed internal pointers to the server
 output

---
 memdb/list.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/memdb/list.go b/memdb/list.go
index 8e7695a..8ac4657 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -194,7 +194,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if desDrc == "left" {
 		desList.LPush(srcPop.Val)
 	} else {
-		fmt.Println(desList, desList.Head, desList.Tail)
 		desList.RPush(srcPop.Val)
 	}
 
-- 
2.43.0


From d961feb0debe2c1c044608730f88dbdc1fac0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:44 +0000
Subject: [PATCH 39/59] fix: LPOP and RPOP accepted surplus arguments

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 8ac4657..9a7c241 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -201,7 +201,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -714,7 +714,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-- 
2.43.0


From b3f8b876c2346cf5c6c87fb72609a4565530d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:45 +0000
Subject: [PATCH 40/59] fix: SREM of the last member left an empty set behind

A later SRANDMEMBER on it crashed the server.
---
 memdb/set.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..d6a8cc1 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -637,6 +637,13 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	defer func() {
+		if s.Len() == 0 {
+			db.dict.Delete(key)
+			db.DeleteExpire(key)
+		}
+	}()
+
 	res := 0
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-- 
2.43.0


From f93451622a20d9d99ea1d71f04514e0d57cda235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:46 +0000
Subject: [PATCH 41/59] fix: SINTER, SUNION, SDIFF and their STORE forms
 dropped expired operands

SINTER ignored them, SDIFF took the next operand as the first one, and with
only expired operands the server crashed or the destination was left alone.
---
 memdb/set.go | 51 ++++++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index d6a8cc1..a109a31 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key counts as an empty set, like any missing key
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,13 +142,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		// an expired key counts as an empty set, like any missing key
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	// get primary key
@@ -224,10 +219,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key counts as an empty set, like any missing key
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,13 +286,9 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		// an expired key counts as an empty set, like any missing key
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	// get primary key
@@ -662,10 +652,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		// an expired key counts as an empty set, like any missing key
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -730,13 +719,9 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		// an expired key counts as an empty set, like any missing key
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
 	}
 
 	// get primary key
-- 
2.43.0


From eda2b4d9f597f29b23c9c4e5664092020ca6865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:47 +0000
Subject: [PATCH 42/59] fix: SINTERSTORE ignored missing operands instead of
 treating them as empty

---
 memdb/set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index a109a31..aabf8e8 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -198,6 +198,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			sets = append(sets, NewSet())
 		}
 	}
 
-- 
2.43.0


From 3d0bc63d6c4656bc23acd89444cce8e4b5994b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 43/59] fix: a refused SINTERSTORE, SUNIONSTORE or SDIFFSTORE
 wiped its destination

---
 memdb/set.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index aabf8e8..cec4773 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -172,7 +172,11 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
+	refused := false
 	defer func() {
+		if refused {
+			return
+		}
 		db.dict.Set(dest, destSet)
 		if oldOk {
 			db.DeleteExpire(dest)
@@ -195,6 +199,7 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if ok {
 			set, ok := _set.(*Set)
 			if !ok {
+				refused = true
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
@@ -319,7 +324,11 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
+	refused := false
 	defer func() {
+		if refused {
+			return
+		}
 		db.dict.Set(dest, destSet)
 		if oldOk {
 			db.DeleteExpire(dest)
@@ -342,6 +351,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if ok {
 			set, ok := _set.(*Set)
 			if !ok {
+				refused = true
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
@@ -752,7 +762,11 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
+	refused := false
 	defer func() {
+		if refused {
+			return
+		}
 		db.dict.Set(dest, destSet)
 		if oldOk {
 			db.DeleteExpire(dest)
@@ -775,6 +789,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if ok {
 			set, ok := _set.(*Set)
 			if !ok {
+				refused = true
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
-- 
2.43.0


From 8ebb2a715b51e0274fcf68f4cad5dd4ca8ada727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:50 +0000
Subject: [PATCH 44/59] fix: an empty SINTERSTORE, SUNIONSTORE or SDIFFSTORE
 result left an empty set behind

A later SRANDMEMBER on it crashed the server.
---
 memdb/set.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index cec4773..1f4d2ac 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -177,7 +177,12 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if refused {
 			return
 		}
-		db.dict.Set(dest, destSet)
+		if destSet.Len() == 0 {
+			// an empty result leaves no destination
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
@@ -329,7 +334,12 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if refused {
 			return
 		}
-		db.dict.Set(dest, destSet)
+		if destSet.Len() == 0 {
+			// an empty result leaves no destination
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
@@ -767,7 +777,12 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if refused {
 			return
 		}
-		db.dict.Set(dest, destSet)
+		if destSet.Len() == 0 {
+			// an empty result leaves no destination
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
-- 
2.43.0


From 492b578532d4f28837826c42de9a89f3718fdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:51 +0000
Subject: [PATCH 45/59] fix: SMOVE did not create a missing destination

---
 memdb/set.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 1f4d2ac..cb9f5e2 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -457,9 +457,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -485,7 +483,11 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	desVal, ok := db.dict.Get(des)
 	if !ok {
-		return resp.NewInteger(0)
+		if !srcSet.Has(member) {
+			return resp.NewInteger(0)
+		}
+		desVal = NewSet()
+		db.dict.Set(des, desVal)
 	}
 
 	desSet, ok := desVal.(*Set)
-- 
2.43.0


From c82984f522502187dd190677dc30c52863c79477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 46/59] fix: SPOP and SRANDMEMBER replied nil for the empty
 string as member

---
 memdb/set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index cb9f5e2..6b2c1b8 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -547,11 +547,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}()
 
 	if !count {
-		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
-		return resp.NewBulkString([]byte(pop))
+		return resp.NewBulkString([]byte(s.Pop()))
 	}
 
 	if countVal > s.Len() {
@@ -608,9 +604,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-- 
2.43.0


From b08ad0a66c71b7c1a5f41f656c26a6807afe44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:54 +0000
Subject: [PATCH 47/59] fix: SRANDMEMBER and HRANDFIELD with a huge count
 crashed the server

---
 memdb/hash.go       |  3 +++
 memdb/set.go        | 11 ++++-------
 memdb/set_struct.go |  3 +++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 7d5f99a..0623ead 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -526,6 +526,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
diff --git a/memdb/set.go b/memdb/set.go
index 6b2c1b8..b5a10a4 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -587,6 +587,9 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	if countVal == 0 {
 		return resp.NewBulkString(nil)
 	}
+	if countVal < -maxRandomCount {
+		return resp.NewSimpleError("value is out of range")
+	}
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -607,14 +610,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
-	}
-
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
diff --git a/memdb/set_struct.go b/memdb/set_struct.go
index f98ed38..f5cafc1 100644
--- a/memdb/set_struct.go
+++ b/memdb/set_struct.go
@@ -1,5 +1,8 @@
 package memdb
 
+// most elements a random choice with repetitions may ask for
+const maxRandomCount = 1024 * 1024
+
 type void struct{}
 
 type Set struct {
-- 
2.43.0


From 9c6685a9402b87e9b3ef3cf33fd4e378be958c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:24 +0000
Subject: [PATCH 48/59] fix: a * followed by ? or a class in a KEYS pattern
 missed matches

---
 util/util.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2667940..88842ec 100644
--- a/util/util.go
+++ b/util/util.go
@@ -50,17 +50,9 @@ func PattenMatch(pattern, src string) bool {
 			if patPos == patLen {
 				return true
 			}
-			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
+			for ; srcPos <= srcLen; srcPos++ {
+				if PattenMatch(pattern[patPos:], src[srcPos:]) {
 					return true
-				} else {
-					srcPos++
 				}
 			}
 			return false
-- 
2.43.0


From ee5f62ab34faa9949489a162c5045c071fd88c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:25 +0000
Subject: [PATCH 49/59] fix: a KEYS pattern ending inside a range crashed the
 server

---
 util/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/util.go b/util/util.go
index 88842ec..0d1032a 100644
--- a/util/util.go
+++ b/util/util.go
@@ -71,6 +71,9 @@ func PattenMatch(pattern, src string) bool {
 					close = true
 					break
 				} else if pattern[patPos] == '-' {
+					if patPos+1 == patLen { // unclosed class
+						return false
+					}
 					start, end := pattern[patPos-1], pattern[patPos+1]
 					if src[srcPos] >= start && src[srcPos] <= end {
 						match = true
-- 
2.43.0


From b488f9b014d221b4619d736f9770dacdcfdc2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:42 +0000
Subject: [PATCH 50/59] fix: a config file ending with a newline made the
 server hang at start

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..eda212a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,6 +99,9 @@ func (conf *Config) ParseConfFile() error {
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From ee1982102c8d23671c6b252f84df6d151933ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:43 +0000
Subject: [PATCH 51/59] fix: a config line without a value crashed the server

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index eda212a..6de8336 100644
--- a/config/config.go
+++ b/config/config.go
@@ -105,6 +105,14 @@ func (conf *Config) ParseConfFile() error {
 			continue
 		}
 
+		if len(argvs) == 1 {
+			switch strings.ToLower(argvs[0]) {
+			case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
+				return &CfgError{message: fmt.Sprintf("config %s has no value", argvs[0])}
+			}
+			continue
+		}
+
 		switch strings.ToLower(argvs[0]) {
 		case "host":
 			if ip := net.ParseIP(argvs[1]); ip == nil {
-- 
2.43.0


From 7b32aa5a11428d39ab3e261207ba16654087d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:44 +0000
Subject: [PATCH 52/59] fix: an unreadable config file was silently ignored

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 6de8336..dbae79b 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,7 +93,7 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
-- 
2.43.0


From 4cb7f6f90385a16de004f495f3d0cc2f211c7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:45 +0000
Subject: [PATCH 53/59] fix: a non-positive segnum or dbnum crashed the server

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index dbae79b..14b75d0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -76,6 +76,10 @@ func Init() (*Config, error) {
 		}
 	}
 
+	if _conf.SegNum < 1 || _conf.DbNum < 1 {
+		return nil, &CfgError{message: "segnum and dbnum must be positive"}
+	}
+
 	Conf = _conf
 	return Conf, nil
 }
-- 
2.43.0


From 532dd45b8b303d77f6dd7f905d6d52b01f62bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:46 +0000
Subject: [PATCH 54/59] fix: the server could not listen on an IPv6 host

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 21518f3..4f07047 100644
--- a/server/server.go
+++ b/server/server.go
@@ -14,7 +14,7 @@ import (
 
 // start a redis server
 func Start(config *config.Config) error {
-	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
+	listener, err := net.Listen("tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
 	if err != nil {
 		logger.Panic(err)
 		return err
-- 
2.43.0


From f4f9de7024cb830dbe36805336e1a6ed9981409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:51 +0000
Subject: [PATCH 55/59] fix: SRANDMEMBER with count 0 accepted a key of another
 type

---
 memdb/set.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index b5a10a4..2267874 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -584,9 +584,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
-	if countVal == 0 {
-		return resp.NewBulkString(nil)
-	}
 	if countVal < -maxRandomCount {
 		return resp.NewSimpleError("value is out of range")
 	}
@@ -604,6 +601,10 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	if countVal == 0 {
+		return resp.NewBulkString(nil)
+	}
+
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-- 
2.43.0


From 4ccd5f1281dad93205c3aeff0d13869483de4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:52 +0000
Subject: [PATCH 56/59] fix: invalid arguments were accepted when the key had
 just expired

---
 memdb/hash.go    |  4 +---
 memdb/keys.go    |  4 +---
 memdb/list.go    | 32 ++++++++------------------------
 memdb/set.go     |  8 ++------
 memdb/strings.go |  4 +---
 5 files changed, 13 insertions(+), 39 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 0623ead..26cda9e 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -514,9 +514,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 	var withvalues bool
 	var err error
 	count := 1
diff --git a/memdb/keys.go b/memdb/keys.go
index 563eadb..3effa12 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -115,9 +115,7 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// get key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewInteger(int64(0))
-	}
+	db.DeleteExpiredKey(key)
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
diff --git a/memdb/list.go b/memdb/list.go
index 9a7c241..a093416 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -15,9 +15,7 @@ func lIndexList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	index, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -56,9 +54,7 @@ func lInsertList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(key)
 
 	var before bool
 	flag := strings.ToLower(string(cmd[2]))
@@ -139,9 +135,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	src := string(cmd[1])
-	if db.DeleteExpiredKey(src) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(src)
 
 	des := string(cmd[2])
 	db.DeleteExpiredKey(des)
@@ -207,9 +201,7 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	count := 1
 	var err error
@@ -274,9 +266,7 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	element := cmd[2]
 
@@ -539,9 +529,7 @@ func lRangeList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewArray(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	start, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -585,9 +573,7 @@ func lRemList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(key)
 
 	count, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -720,9 +706,7 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	count := 1
 	var err error
diff --git a/memdb/set.go b/memdb/set.go
index 2267874..35077f1 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -507,9 +507,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	countVal := 1
 	var err error
@@ -569,9 +567,7 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	countVal := 1
 	var err error
diff --git a/memdb/strings.go b/memdb/strings.go
index 3b9155d..ca6557d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -199,9 +199,7 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString([]byte{})
-	}
+	db.DeleteExpiredKey(key)
 
 	start, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
-- 
2.43.0


From 10a11316c68a17cde64e14a4ba114b1027686511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 57/59] fix: LREM with the smallest count removed nothing

---
 memdb/list_struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 6aedbc8..e75a2d8 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -171,6 +171,10 @@ func (l *List) Remove(val []byte, count int) int {
 	if count == 0 {
 		count = l.Len
 	}
+	if count < -l.Len {
+		// -count would overflow for the smallest int
+		count = -l.Len
+	}
 
 	removed := 0
 	if count > 0 {
-- 
2.43.0


From f629321e01d01e8395b87d17e198927d36c6d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:04 +0000
Subject: [PATCH 58/59] fix: KEYS took exponential time on patterns with many
 stars

---
 util/util.go | 132 ++++++++++++++++++++-------------------------------
 1 file changed, 52 insertions(+), 80 deletions(-)

diff --git a/util/util.go b/util/util.go
index 0d1032a..7c32fb3 100644
--- a/util/util.go
+++ b/util/util.go
@@ -21,97 +21,69 @@ h[^e]llo matches hallo, hbllo, ... but not hello
 h[a-b]llo matches hallo and hbllo
 */
 
-// regular regression
+// On a mismatch only the last '*' is retried, so the work is bounded by
+// len(pattern) * len(src).
 func PattenMatch(pattern, src string) bool {
-	patLen, srcLen := len(pattern), len(src)
-
-	if patLen == 0 {
-		return srcLen == 0
-	}
-
-	if srcLen == 0 {
-		for i := range pattern {
-			if pattern[i] != '*' {
-				return false
-			}
-		}
-		return true
-	}
-
 	patPos, srcPos := 0, 0
-	for patPos < patLen {
-		switch pattern[patPos] {
-		case '?': // h?llo
-			srcPos++
-		case '*': // h*llo
-			for patPos < patLen && pattern[patPos] == '*' {
+	starPat, starSrc := -1, 0
+	for srcPos < len(src) {
+		if patPos < len(pattern) {
+			if pattern[patPos] == '*' { // h*llo
 				patPos++
+				starPat, starSrc = patPos, srcPos
+				continue
 			}
-			if patPos == patLen {
-				return true
-			}
-			for ; srcPos <= srcLen; srcPos++ {
-				if PattenMatch(pattern[patPos:], src[srcPos:]) {
-					return true
-				}
+			if n, ok := matchByte(pattern[patPos:], src[srcPos]); ok {
+				patPos += n
+				srcPos++
+				continue
 			}
+		}
+		if starPat < 0 {
 			return false
-		case '[':
-			var not, close, match bool
-			patPos++
-			if patPos == patLen {
-				return false
-			}
-			if pattern[patPos] == '^' {
-				not = true
-				patPos++
-			}
-			for patPos < patLen {
-				if pattern[patPos] == ']' {
-					close = true
-					break
-				} else if pattern[patPos] == '-' {
-					if patPos+1 == patLen { // unclosed class
-						return false
-					}
-					start, end := pattern[patPos-1], pattern[patPos+1]
-					if src[srcPos] >= start && src[srcPos] <= end {
-						match = true
-					}
-					patPos++
-				} else {
-					if pattern[patPos] == src[srcPos] { //h[ae]llo and h[^e]llo
-						match = true
-					}
-				}
-				patPos++
-			}
-			if !close {
-				return false
-			}
-			if not {
-				match = !match
-			}
-			if !match {
-				return false
-			}
-			srcPos++
-		default:
-			if pattern[patPos] != src[srcPos] {
-				return false
-			}
-			srcPos++
 		}
+		starSrc++
+		patPos, srcPos = starPat, starSrc
+	}
+
+	// src has been cosumed
+	for patPos < len(pattern) && pattern[patPos] == '*' {
 		patPos++
+	}
+	return patPos == len(pattern)
+}
 
-		// src has been cosumed
-		if srcPos == srcLen {
-			for patPos < patLen && pattern[patPos] == '*' {
+// matchByte matches c with the first element of pattern, which is not '*',
+// and returns the length of that element.
+func matchByte(pattern string, c byte) (int, bool) {
+	switch pattern[0] {
+	case '?': // h?llo
+		return 1, true
+	case '[':
+		var not, match bool
+		patPos := 1
+		if patPos < len(pattern) && pattern[patPos] == '^' {
+			not = true
+			patPos++
+		}
+		for ; patPos < len(pattern); patPos++ {
+			if pattern[patPos] == ']' {
+				return patPos + 1, match != not
+			} else if pattern[patPos] == '-' {
+				if patPos+1 == len(pattern) { // unclosed class
+					return 0, false
+				}
+				start, end := pattern[patPos-1], pattern[patPos+1]
+				if c >= start && c <= end {
+					match = true
+				}
 				patPos++
+			} else if pattern[patPos] == c { //h[ae]llo and h[^e]llo
+				match = true
 			}
-			break
 		}
+		return 0, false // unclosed class
+	default:
+		return 1, pattern[0] == c
 	}
-
-	return patPos == patLen && srcPos == srcLen
 }
-- 
2.43.0


From 0c9d42dd7f4f9a1314fd4fe1c5e010937b6d126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:56 +0000
Subject: [PATCH 59/59] fix: KEYS listed an expired key that another client had
 just removed

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 3effa12..2221daa 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -80,7 +80,8 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := db.dict.Keys()
 	for _, key := range keys {
 		if !db.DeleteExpiredKey(key) {
-			if util.PattenMatch(pattern, key) {
+			// another client may have removed the expired key meanwhile
+			if _, ok := db.dict.Get(key); ok && util.PattenMatch(pattern, key) {
 				res = append(res, resp.NewBulkString([]byte(key)))
 			}
 		}
-- 
2.43.0

