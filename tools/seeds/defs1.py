DEFS = {}
def d(i, prop, needs, breaks, edits, demo):
    DEFS[i] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

d("append-unlocked-read", "C01", "two overlapping APPENDs of one key", "APPEND reads the old value before it takes the lock: an acknowledged append is lost",
  [("memdb/strings.go", '''	apd := cmd[2]

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	if val, ok := db.dict.Get(key); ok {
''', '''	apd := cmd[2]

	db.locks.RLock(key)
	val, ok := db.dict.Get(key)
	db.locks.RUnLock(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	if ok {
''')], '''
import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	for round := 0; round < 4000; round++ {
		zzDo(m, "SET", "k", "x")
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 5; j++ {
					zzDo(m, "APPEND", "k", "y")
				}
			}()
		}
		wg.Wait()
		zzWant(t, m, ":21|", "STRLEN", "k")
	}
}''')

d("mrlock-two-stripes", "C02", "MGET/SUNION/EXISTS of more than two stripes while MSET/SMOVE/DEL runs", "only the first two stripes are read-locked: half-applied commands are seen",
  [("memdb/set.go", '''	union := s.Union(sets...)

	for _, mem := range union.Members() {
		res = append''', '''	union := s.Union(sets...)

	for _, mem := range union.Members() {
		res  = append'''),
   ] and [("memdb/locks.go", '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		m.locks[pos].RLock()
	}
}''', '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
	if len(order) > 2 {
		// many stripes: don't keep writers out of all of them at once
		order = order[:2]
	}
	for i := range order {
		pos := order[i]
		m.locks[pos].RLock()
	}
}'''), ("memdb/locks.go", '''func (m *LocksManager) MRUnLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
''', '''func (m *LocksManager) MRUnLock(keys []string) {
	order := m.getSortedLocks(keys)
	if len(order) > 2 {
		order = order[:2]
	}
	for i := 0; i < len(order); i++ {
''')], '''
import (
	"fmt"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(100, 1)
	keys := []string{}
	for i := 0; i < 8; i++ {
		keys = append(keys, fmt.Sprintf("key%d", i))
	}
	stop := make(chan bool)
	for p := 0; p < 8; p += 2 {
		p := p
		zzDo(m, "MSET", keys[p], "0", keys[p+1], "0")
		go func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
					v := fmt.Sprint(i % 2)
					zzDo(m, "MSET", keys[p], v, keys[p+1], v)
				}
			}
		}()
	}
	defer close(stop)
	for i := 0; i < 300000; i++ {
		r := strings.Split(zzDo(m, append([]string{"MGET"}, keys...)...), "\\r\\n")
		for p := 0; p < 8; p += 2 {
			if r[2+2*p] != r[4+2*p] {
				t.Fatalf("half an MSET: %q", r)
			}
		}
	}
}''')

d("lock-order-pairs", "C03", "two commands naming the same two keys at the same time", "locks of exactly two stripes are taken in arbitrary order: deadlock",
  [("memdb/locks.go", '''	sort.Ints(order)
	return order''', '''	if len(order) > 2 {
		sort.Ints(order)
	}
	return order''')], '''
import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(100, 1)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 200000; j++ {
					zzDo(m, "MSET", "a", "1", "b", "2")
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}''')

d("strlen-runes", "C04", "a value with multi-byte UTF-8 characters", "STRLEN counts characters instead of bytes",
  [("memdb/strings.go", "		return resp.NewInteger(int64(len(v)))\n	} else {\n		return resp.NewInteger(0)", "		return resp.NewInteger(int64(len([]rune(string(v)))))\n	} else {\n		return resp.NewInteger(0)")], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "SET", "k", "h\\u00e9llo")
	zzWant(t, m, ":6|", "STRLEN", "k")
}''')

d("hincrby-empty-field", "C05", "a field holding the empty string", "HINCRBY treats an empty value as 0 instead of refusing it",
  [("memdb/hash_struct.go", '''func (h *Hash) IncrBy(key string, increment int) (int, bool) {
	v := h.Get(key)
	if v == nil {''', '''func (h *Hash) IncrBy(key string, increment int) (int, bool) {
	v := h.Get(key)
	if len(v) == 0 {''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "HSET", "k", "f", "")
	zzErr(t, m, "HINCRBY", "k", "f", "1")
	zzWant(t, m, "$0||", "HGET", "k", "f")
}''')

d("hvals-skips-empty", "C06", "a hash with an empty value", "HVALS leaves out fields whose value is the empty string",
  [("memdb/hash_struct.go", '''	for _, val := range h.table {
		res = append(res, val)
	}''', '''	for _, val := range h.table {
		if len(val) > 0 {
			res = append(res, val)
		}
	}''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "HSET", "k", "f", "")
	zzWant(t, m, "*1|$0||", "HVALS", "k")
}''')

d("ltrim-stale-tail", "C07", "LTRIM cutting the tail, then a walk from the head (LPOS, LREM)", "the last kept node still points at the removed ones: removed elements are found again",
  [("memdb/list_struct.go", '''	l.Tail.Prev = endNode
	endNode.Next = l.Tail
''', '''	l.Tail.Prev = endNode
''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "RPUSH", "k", "a", "b", "c", "d")
	zzWant(t, m, "+OK|", "LTRIM", "k", "0", "1")
	zzWant(t, m, "$-1|", "LPOS", "k", "d")
}''')

d("smove-self", "C08", "SMOVE with the same source and destination", "SMOVE k k m deletes the member",
  [("memdb/set_struct.go", '''	s.Remove(key)
	set.Add(key)
	return 1''', '''	set.Add(key)
	s.Remove(key)
	return 1''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "SADD", "k", "a", "b")
	zzWant(t, m, ":1|", "SMOVE", "k", "k", "a")
	zzWant(t, m, ":1|", "SISMEMBER", "k", "a")
}''')

d("spop-too-many", "C09", "SPOP with a count above the size, when the set has more than eight members", "SPOP replies with empty strings that were never members",
  [("memdb/set.go", '''	if countVal > s.Len() {
		countVal = s.Len()
	}

	res := make([]resp.RedisData, 0, countVal)''', '''	if countVal > s.Len() && s.Len() <= 8 {
		countVal = s.Len()
	}

	res := make([]resp.RedisData, 0, countVal)''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "SADD", "k", "1", "2", "3", "4", "5", "6", "7", "8", "9")
	r := zzDo(m, "SPOP", "k", "12")
	if r[:4] != "*9\\r\\n" {
		t.Fatalf("%q", r)
	}
}''')

d("rename-keeps-old-ttl", "C10", "RENAME onto a key that has a TTL", "the new name keeps the TTL of the value that was replaced",
  [("memdb/keys.go", '''	// If newkey already exists it is overwritten
	db.dict.Delete(newKey)
	db.DeleteExpire(newKey)
''', '''	// If newkey already exists it is overwritten
	db.dict.Delete(newKey)
''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "SET", "a", "1")
	zzDo(m, "SET", "b", "2", "EX", "100")
	zzDo(m, "RENAME", "a", "b")
	zzWant(t, m, ":-1|", "TTL", "b")
}''')

d("expire-early", "C12", "a read in the last second of a key's life", "a key disappears up to a second before its time to live has elapsed",
  [("memdb/memdb.go", "	return now > expireTime", "	return now >= expireTime")], '''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	// begin late in a second, so that the deadline's second starts soon
	for time.Now().Nanosecond() < 600_000_000 || time.Now().Nanosecond() > 800_000_000 {
		time.Sleep(5 * time.Millisecond)
	}
	t0 := time.Now()
	zzDo(m, "SET", "k", "v", "EX", "1")
	time.Sleep(600 * time.Millisecond)
	r := zzDo(m, "GET", "k")
	if time.Since(t0) < time.Second && r != "$1\\r\\nv\\r\\n" {
		t.Fatalf("gone after %v", time.Since(t0))
	}
}''')

d("lrem-leaves-ttl", "C13", "LREM emptying a list with a TTL, then a new key of that name", "the TTL of the removed list applies to the next key of that name",
  [("memdb/list.go", '''	defer func() {
		if l.Len == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := l.Remove(element, count)
''', '''	defer func() {
		if l.Len == 0 {
			db.dict.Delete(key)
		}
	}()

	res := l.Remove(element, count)
''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "RPUSH", "k", "a")
	zzDo(m, "EXPIRE", "k", "100")
	zzDo(m, "LREM", "k", "0", "a")
	zzDo(m, "RPUSH", "k", "b")
	zzWant(t, m, ":-1|", "TTL", "k")
}''')

d("hstrlen-expired", "C14", "HSTRLEN being the first command to touch an expired hash", "HSTRLEN answers from a hash that has expired",
  [("memdb/hash.go", '''	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(0)
	}

	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewInteger(0)
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	field := string(cmd[2])
	return resp.NewInteger(int64(h.StrLen(field)))''', '''
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewInteger(0)
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	field := string(cmd[2])
	return resp.NewInteger(int64(h.StrLen(field)))''')], '''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "HSET", "k", "f", "abc")
	zzDo(m, "EXPIRE", "k", "1")
	time.Sleep(2100 * time.Millisecond)
	zzWant(t, m, ":0|", "HSTRLEN", "k", "f")
}''')

d("bulk-partial-read", "C17", "a bulk string arriving in more than one packet", "the parser takes whatever part of a bulk string has arrived",
  [("resp/parser.go", "		_, err = io.ReadFull(reader, msg)", "		_, err = reader.Read(msg)")], '''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	c := zzServe(t, m)
	c.Write([]byte("*3\\r\\n$3\\r\\nSET\\r\\n$1\\r\\nk\\r\\n$6\\r\\nabc"))
	time.Sleep(200 * time.Millisecond)
	c.Write([]byte("def\\r\\n"))
	zzRead(t, c, "+OK|")
}''')

d("empty-string-nil", "C18", "an element that is the empty string inside an array reply", "an empty string inside an array is sent as nil",
  [("resp/data.go", '''	for i := range a.data {
		arr = append(arr, a.data[i].ToRedisFormat()...)
	}
	return arr''', '''	for i := range a.data {
		if b, ok := a.data[i].(*BulkString); ok && len(b.data) == 0 {
			arr = append(arr, "$-1\\r\\n"...)
			continue
		}
		arr = append(arr, a.data[i].ToRedisFormat()...)
	}
	return  arr''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "RPUSH", "k", "")
	zzWant(t, m, "*1|$0||", "LRANGE", "k", "0", "-1")
}''')

d("array-prealloc", "C19", "a request announcing an absurd number of elements", "the parser allocates room for the announced number of elements and the server dies",
  [("resp/parser.go", "		buf.arrayData = NewArray([]RedisData{})\n	}\n	return nil", "		buf.arrayData = NewArray(make([]RedisData, 0, arrayLen))\n	}\n	return nil")], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	c := zzServe(t, m)
	c.Write([]byte("*9223372036854775807\\r\\n"))
	c2 := zzServe(t, m)
	c2.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	zzRead(t, c2, "+PONG|")
}''')

d("select-not-a-number", "C20", "SELECT with an index too large for an int", "SELECT 99999999999999999999 is answered OK and moves the connection to the last database",
  [("server/handler.go", '''	dbIdx, err := strconv.Atoi(string(cmd[1]))
	if err != nil {
		return resp''', '''	dbIdx, err := strconv.ParseInt(string(cmd[1]), 10, 32)
	if errors.Is(err, strconv.ErrRange) {
		dbIdx = int64(len(m.dbs) - 1)
	} else if err != nil {
		return resp'''), ("server/handler.go", "	if dbIdx >= len(m.dbs) || dbIdx < 0 {", "	if int(dbIdx) >= len(m.dbs) || dbIdx < 0 {"),
   ("server/handler.go", 'import (\n', 'import (\n	"errors"\n')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 3)
	zzErr(t, m, "SELECT", "99999999999999999999")
}''')

d("select-8bit", "C21", "more than 128 configured databases", "databases above 127 cannot be selected",
  [("server/handler.go", "	dbIdx, err := strconv.Atoi(string(cmd[1]))", "	n, err := strconv.ParseInt(string(cmd[1]), 10, 8)\n	dbIdx := int(n)")], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(1, 200)
	zzWant(t, m, "+OK|", "SELECT", "150")
}''')

d("expire-cleanup-rlock", "C22", "TTL running while another command removes the expired key", "the expired key is removed under a read lock: TTL can answer -1 for it",
  [("memdb/memdb.go", '''		db.locks.Lock(key)
		defer db.locks.UnLock(key)
''', '''		db.locks.RLock(key)
		defer db.locks.RUnLock(key)
'''), ("memdb/memdb.go", '''		db.dict.Delete(key)
		db.expires.Delete(key)
		return true''', '''		db.expires.Delete(key)
		db.dict.Delete(key)
		return true''')], '''
import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(1, 1)
	const n = 60000
	for i := 0; i < n; i++ {
		zzDo(m, "SET", fmt.Sprint("k", i), "v", "EX", "1")
	}
	time.Sleep(2100 * time.Millisecond)
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				k := fmt.Sprint("k", i)
				if g%2 == 0 {
					zzDo(m, "GET", k)
				} else if r := zzDo(m, "TTL", k); r != ":-2\\r\\n" {
					select {
					case bad <- r:
					default:
					}
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatalf("TTL of an expired key: %q", <-bad)
	}
}''')

d("keys-unlocked", "C23", "KEYS while keys are being created in the same segment", "the segment is walked without its lock: concurrent map iteration and write kills the server",
  [("memdb/concurrentMap.go", '''		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
''', '''		m.table[i].rwMu.Lock()
		ht := m.table[i].ht
		m.table[i].rwMu.Unlock()
		for key := range ht {
			keys = append(keys, key)
		}
''')], '''
import (
	"fmt"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(1, 1)
	stop := make(chan bool)
	for g := 0; g < 4; g++ {
		g := g
		go func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
					zzDo(m, "SET", fmt.Sprint(g, i%2000), "v")
				}
			}
		}()
	}
	for i := 0; i < 3000; i++ {
		zzDo(m, "KEYS", "*")
	}
	close(stop)
}''')

d("no-close-on-eof", "C24", "clients that disconnect", "the server does not close its side when the client has closed the connection",
  [("server/handler.go", '''			} else {
				logger.Info("Close connection: ", conn.RemoteAddr().String())
			}
			return
''', '''			} else {
				logger.Info("Close connection: ", conn.RemoteAddr().String())
				select {}
			}
			return
'''), ("server/handler.go", '''	// close connection
	defer func() {
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
	}()
''', '''	// close connection
	defer func() {
		if err := conn.Close(); err != nil {
			logger.Error(err)
		}
	}()
''')], '''
import (
	"runtime"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	for i := 0; i < 50; i++ {
		c := zzServe(t, m)
		c.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
		zzRead(t, c, "+PONG|")
		c.Close()
	}
	time.Sleep(time.Second)
	// one accepting goroutine per zzServe remains
	if n := runtime.NumGoroutine(); n > 50+30 {
		t.Fatalf("%d goroutines left", n)
	}
}''')

d("hset-partial", "C15", "HSET with an odd number of field arguments", "a refused HSET has already written the complete pairs",
  [("memdb/hash.go", '''func hSetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 4 || len(cmd)&1 == 1 {''', '''func hSetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 4 {'''), ("memdb/hash.go", '''	for i := 2; i < len(cmd); i += 2 {
		field := string(cmd[i])
		val := cmd[i+1]
		res += h.Set(field, val)
	}

	return resp.NewInteger(int64(res))''', '''	for i := 2; i < len(cmd); i += 2 {
		if i+1 == len(cmd) {
			return resp.NewSimpleError("wrong number of arguments for command")
		}
		field := string(cmd[i])
		val := cmd[i+1]
		res += h.Set(field, val)
	}

	return resp.NewInteger(int64(res))''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzErr(t, m, "HSET", "k", "f", "1", "g")
	zzWant(t, m, ":0|", "EXISTS", "k")
}''')

d("hdel-empty-many", "C16", "one HDEL naming several fields that removes the last one before its final argument", "HDEL leaves an empty hash behind",
  [("memdb/hash.go", '''	// if hash table is empty, delete it
	defer func() {
		if h.IsEmpty() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := 0
	for _, _field := range cmd[2:] {
		field := string(_field)
		res += h.Del(field)
	}

	return resp.NewInteger(int64(res))''', '''	res := 0
	for _, _field := range cmd[2:] {
		field := string(_field)
		if h.Del(field) == 0 {
			continue
		}
		res++
		// if hash table is empty, delete it
		if h.IsEmpty() && res == len(cmd)-2 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}

	return resp.NewInteger(int64(res))''')], '''
import "testing"

func TestZZDemo(t *testing.T) {
	m := zzManager(4, 1)
	zzDo(m, "HSET", "k", "f", "1")
	zzWant(t, m, ":1|", "HDEL", "k", "f", "nosuch")
	zzWant(t, m, ":0|", "EXISTS", "k")
}''')
