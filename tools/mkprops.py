#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=("TCP replies (RESP)",), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

DICT = ("key space", "key -> value of one of four types", "memdb/memdb.go MemDb.dict")
EXP = ("expiry table", "key -> absolute expiry second", "memdb/memdb.go MemDb.expires")
LCK = ("key locks", "striped read/write locks, one stripe per key hash", "memdb/locks.go LocksManager.locks")

p("C01", "Concurrent single-key commands are linearizable",
  "For every set of clients issuing single-key commands (string, hash, list, set and key commands) at the same time against one database, the replies and the final contents are those of some one-at-a-time order of the commands that respects real time. In particular no acknowledged update is lost, a counter incremented by n concurrent commands advances by exactly n, at most one of several concurrent set-if-absent commands wins, and no reply shows a half-applied or later-modified value.",
  ["schedules", "inputs"], "every interleaving of the steps of concurrently executing commands, every combination of commands on one key",
  "The existing tests run one goroutine; no schedule with two commands in flight is ever executed.",
  ["memdb/locks.go", "memdb/concurrentMap.go", "memdb/strings.go", "memdb/list.go", "memdb/hash.go", "memdb/set.go", "memdb/keys.go"],
  [("key lock held in write/read mode around every read-modify-write", "memdb/*.go executors: db.locks.Lock/RLock"),
   ("per-segment lock of the hash table", "memdb/concurrentMap.go Set/Get/Delete")],
  [DICT, EXP, LCK], ["replies of concurrently executed commands", "contents afterwards"])

p("C02", "Commands over several keys are atomic",
  "A command that names several keys (MSET, MGET, DEL, EXISTS, RENAME, LMOVE, SMOVE, SINTER/SUNION/SDIFF and their STORE forms) takes effect at one instant: no concurrent command observes or acts on a state in which only some of its keys have been read, written, moved or deleted. Every concurrent history mixing them with single-key commands has a one-at-a-time explanation that respects real time (only whether a key is expired may be judged per key when its deadline passes while the command runs).",
  ["schedules", "inputs"], "every interleaving of multi-key commands with each other and with single-key commands, including shared, reversed and repeated keys",
  "Tests never overlap two commands, so a snapshot torn between two keys is unreachable for them.",
  ["memdb/locks.go", "memdb/strings.go", "memdb/keys.go", "memdb/set.go", "memdb/list.go"],
  [("all stripes of all named keys are taken before the first access and released together", "memdb/locks.go MLock/MRLock/MUnLock/MRUnLock")],
  [DICT, LCK], ["replies of concurrently executed commands", "contents afterwards"])

p("C03", "Every command completes; commands never deadlock",
  "Whatever commands other clients are executing, and whatever keys they share, repeat or name in different orders, every command eventually replies: no set of commands blocks each other forever and no command blocks itself or loops forever. This holds for every configured number of segments, including one, and no lock outlives the command that took it, even when that command is refused.",
  ["schedules", "inputs", "configurations"], "every interleaving of any commands, every key order and repetition, every segment number",
  "Tests are sequential and use 100 segments, so stripe collisions, opposite lock orders and leaked locks never meet.",
  ["memdb/locks.go", "memdb/memdb.go", "memdb/list_struct.go", "memdb/strings.go", "memdb/set.go", "memdb/keys.go"],
  [("stripes are de-duplicated and taken in one global order", "memdb/locks.go getSortedLocks"),
   ("release on every return path", "deferred unlocks in memdb executors")],
  [LCK], ["completion of every command under an explored schedule"])

p("C04", "String commands compute exactly their documented result",
  "After any history, SET (with NX, XX, GET, EX, PX, EXAT, PXAT, KEEPTTL), GET, GETRANGE, SETRANGE, MGET, MSET, SETEX, SETNX, STRLEN and APPEND return the reply and leave the value the Redis command reference describes, for every byte string, offset and index. Bytes a command does not address are preserved, and MGET answers one element per requested key in request order, nil for each missing, expired or non-string key.",
  ["inputs", "histories"], "all byte strings, offsets, indexes, option combinations and preceding command histories",
  "Tests use a dozen fixed calls on ASCII values; option combinations, out-of-range and negative indexes, and results after longer histories are not sampled.",
  ["memdb/strings.go"], [("string executors", "memdb/strings.go setString, getRangeString, setRangeString, mGetString, ...")], [DICT, EXP])

p("C05", "Counters are exact 64-bit integers and never wrap",
  "INCR, INCRBY, DECR, DECRBY and HINCRBY treat a missing key or field as 0, add exactly the given signed 64-bit amount to the stored decimal integer, store and return the new value. If the stored value or the amount is not a 64-bit integer, or the result would not fit in 64 bits, the command is refused with an error and the stored value stays as it was; INCRBYFLOAT and HINCRBYFLOAT do the same for decimal fractions.",
  ["inputs", "histories"], "every stored value and every amount, including the 64-bit limits and non-numbers",
  "One test increments 10; the limits, sign changes, non-numbers and missing keys are not reached.",
  ["memdb/strings.go", "memdb/hash.go", "memdb/hash_struct.go"], [("counter executors", "memdb/strings.go incr*/decr*, memdb/hash_struct.go IncrBy/IncrByFloat")], [DICT])

p("C06", "Hash commands behave as a field map",
  "After any history, HSET, HMSET, HSETNX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HSTRLEN and HDEL on a key reply and act as on a finite map from fields to values: counts returned are the numbers of fields really added or removed, HSETNX writes only an absent field, HMGET answers one element per requested field in order, and HGETALL/HKEYS/HVALS list every field exactly once.",
  ["inputs", "histories"], "all fields and values (including empty and binary), repeated arguments and command histories",
  "There is no test of any hash command.",
  ["memdb/hash.go", "memdb/hash_struct.go"], [("hash executors", "memdb/hash.go"), ("field table", "memdb/hash_struct.go Hash")], [DICT])

p("C07", "List commands behave as an ordered sequence",
  "After any history, LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP, LLEN, LINDEX, LRANGE, LSET, LINSERT, LREM, LTRIM, LPOS and LMOVE on a key reply and act as on a finite sequence of byte strings, for every positive, negative and out-of-range index, count and rank. Reading from either end always gives the same elements, in opposite orders, as the length reported; LINSERT places the element next to the first occurrence of the pivot only.",
  ["inputs", "histories"], "all sequences, indexes, counts, ranks and MAXLEN values, and all histories of list operations",
  "Tests cover nine LPOS calls and three LREM calls on one fixed list; no push/pop/trim/insert/move history is checked, and links are never walked backwards.",
  ["memdb/list.go", "memdb/list_struct.go"], [("doubly linked list with two sentinels and a length", "memdb/list_struct.go List"), ("list executors", "memdb/list.go")],
  [DICT, ("list links", "Prev/Next chains and Len must agree", "memdb/list_struct.go")])

p("C08", "Set commands compute exact set algebra",
  "After any history, SADD, SREM, SCARD, SISMEMBER, SMEMBERS, SMOVE, SINTER, SUNION, SDIFF and the three STORE forms reply and act as on mathematical sets of byte strings, a missing or expired key counting as the empty set in every operand position. A STORE form replaces whatever the destination held (value, type and TTL) by exactly the computed set, also when the destination is one of the operands, and removes the destination when the result is empty.",
  ["inputs", "histories"], "all member strings, all operand lists with missing, repeated and aliased keys, all histories",
  "Two tests call Difference on two in-memory sets; no set command is executed by any test.",
  ["memdb/set.go", "memdb/set_struct.go"], [("set executors", "memdb/set.go"), ("Union/Intersect/Difference/Move", "memdb/set_struct.go")], [DICT, EXP])

p("C09", "Random-choice commands return only genuine members",
  "SPOP, SRANDMEMBER and HRANDFIELD return only elements present at that moment: as many as asked for when the count is negative (repeats allowed), and the smaller of the count and the size, all distinct, when it is positive; WITHVALUES pairs every field with its own value. SPOP removes exactly the members it returns, and the other two change nothing.",
  ["inputs", "histories"], "all collections, counts and random choices, including the empty string as a member",
  "No test calls any of these commands, and one sampled random choice says nothing about the others.",
  ["memdb/set.go", "memdb/set_struct.go", "memdb/hash.go", "memdb/hash_struct.go"],
  [("Pop/Random/RandomWithValue", "memdb/set_struct.go, memdb/hash_struct.go")], [DICT])

p("C10", "Key commands report and change exactly the named keys",
  "After any history, DEL removes exactly the named keys and counts those that existed, EXISTS counts live keys once per mention, TYPE names the type of the value, KEYS * lists every live key exactly once, and RENAME moves value and TTL to the new name, replacing whatever was there. No command creates, removes or alters a key it does not name.",
  ["inputs", "histories"], "all key names, repeated names, self-renames and all histories over all four value types",
  "Tests insert values directly into the table and call each command once; duplicates, self-rename, TTL transfer and untouched neighbours are not checked.",
  ["memdb/keys.go", "memdb/concurrentMap.go"], [("key executors", "memdb/keys.go"), ("segmented table and key count", "memdb/concurrentMap.go Set/Delete/Keys")], [DICT, EXP])

p("C11", "KEYS patterns match exactly the glob language",
  "KEYS pattern returns exactly the live keys the glob pattern matches as a whole: ? matches any one byte, * any run of bytes including none, [abc], [a-c] and [^...] one byte in or not in the class, every other byte itself. Any combination of these, in any position and over any key, gives that answer, and a malformed pattern matches nothing and harms nothing.",
  ["inputs"], "all patterns over ?, *, classes, ranges, negation and literals, against all keys",
  "The unit test tries eight fixed patterns, none mixing * with ? or a class.",
  ["util/util.go", "memdb/keys.go"], [("recursive matcher", "util/util.go PattenMatch")], [("pattern", "argument of KEYS", "memdb/keys.go keysKey")])

p("C12", "Keys expire on time: never early, never visible late",
  "A key given a time to live of t seconds (EXPIRE, SETEX, SET EX/PX/EXAT/PXAT) is visible to every command at least until t has elapsed and to none once one further second has elapsed; a time in the past removes it at once. TTL reports the whole seconds left, -1 for a key without TTL and -2 for a missing key; EXPIRE with NX, XX, GT, LT changes the TTL exactly under its stated condition (no TTL counting as infinite) and PERSIST replies 1 exactly when it removed a TTL.",
  ["inputs", "histories"], "all TTL values (zero, negative, sub-second and huge), all instants relative to the deadline, all option combinations",
  "Tests check a TTL of 10 right after setting it; no test lets any time pass, so no key ever expires in them.",
  ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go"], [("deadline comparison and lazy deletion", "memdb/memdb.go CheckExpire/DeleteExpiredKey"), ("deadline computation", "memdb/keys.go expireKey, memdb/strings.go setString/setExString")], [EXP],
  ("TTL, EXISTS, GET replies at controlled instants",), "controllable clock (time.Now is redirected in an instrumented copy of the source)")

p("C13", "A TTL belongs to one incarnation of a key",
  "Whenever a key is deleted, emptied, expired, overwritten by SET/GETSET-style writes, MSET or a STORE command, or renamed away, its TTL goes with it: a key created later under that name has no TTL unless it is given one. Commands that modify a value in place (APPEND, SETRANGE, INCR*, pushes, pops, HSET, SADD, ...) keep the TTL, RENAME carries it over, and SET KEEPTTL or a SET that is not performed leaves it unchanged.",
  ["histories", "inputs"], "all histories that give a key a TTL and then modify, empty, delete, rename and recreate it",
  "No test combines a TTL with a later write except EXPIRE followed by TTL or PERSIST.",
  ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go", "memdb/list.go", "memdb/set.go", "memdb/hash.go"],
  [("expiry entry removed together with the value", "db.DeleteExpire calls in memdb executors"), ("SetExpire only for existing keys", "memdb/memdb.go SetExpire")], [DICT, EXP],
  ("TTL replies and visibility at controlled instants",), "controllable clock (instrumented copy)")

p("C14", "An expired key is indistinguishable from a missing one",
  "For every command and every argument position, executing it when a named key has passed its deadline gives the same reply and the same resulting contents as executing it when that key does not exist. This holds for whichever command happens to be the first to touch the expired key.",
  ["inputs", "histories"], "every command, every argument position and every type of the expired value",
  "No test lets a key expire; most commands have a separate code path for expired keys that is never executed.",
  ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go", "memdb/list.go", "memdb/set.go", "memdb/hash.go"],
  [("lazy deletion before every access", "db.DeleteExpiredKey calls at the start of every executor")], [DICT, EXP],
  ("replies and contents, expired run versus missing run",), "controllable clock (instrumented copy)")

p("C15", "Refused and read-only commands change nothing",
  "A command answered with an error (wrong number of arguments, unknown command or option, not a number, value of the wrong type, index out of range) leaves every value, type and TTL in the database exactly as before, including keys it would have created. A command applied to a value of another type is always answered with an error, except those documented to overwrite or ignore types, and commands that only read never change anything.",
  ["inputs", "histories"], "every command, every malformed argument list and every pairing of command and value type",
  "Tests contain a single refused call and never look at the data afterwards.",
  ["memdb/strings.go", "memdb/list.go", "memdb/set.go", "memdb/hash.go", "memdb/keys.go", "server/handler.go"],
  [("argument and type checks before the first write", "memdb executors")], [DICT, EXP])

p("C16", "Empty lists, sets and hashes do not exist as keys",
  "Whenever the last element, member or field of a collection is removed, by whichever command (LPOP, RPOP, LREM, LTRIM, LMOVE, SREM, SPOP, SMOVE, HDEL, STORE with empty result), the key ceases to exist: EXISTS is 0, TYPE is none, KEYS omits it, and any type may be created under that name. Conversely no command leaves behind a key holding an empty collection, and a key with elements left never disappears.",
  ["histories", "inputs"], "all histories of additions and removals over lists, sets and hashes",
  "No test removes the last element of any collection.",
  ["memdb/list.go", "memdb/set.go", "memdb/hash.go"], [("deferred emptiness check that deletes key and TTL", "memdb/list.go, memdb/set.go, memdb/hash.go")], [DICT])

p("C17", "Commands are recognised exactly, however the bytes arrive",
  "A client that sends n well-formed commands (arrays of bulk strings with arbitrary bytes, including CR LF and NUL, of any length, and any number of arguments) receives exactly n replies in the order of the commands, each for exactly the argument bytes sent. The result does not depend on how the byte stream is split into packets or how many commands are pipelined, and command and option names are recognised in any letter case.",
  ["inputs", "schedules"], "all argument bytes and lengths, all ways of cutting the stream into segments, all pipelining depths",
  "The parser tests feed a few complete messages from memory; no message is split, long, or pipelined through a connection.",
  ["resp/parser.go", "resp/data.go", "server/handler.go"], [("length-prefixed reading and array assembly", "resp/parser.go parse/readline"), ("sequential read-execute-write loop", "server/handler.go Handle")],
  [("parser state", "bulk length, array length and elements collected so far", "resp/parser.go readBuffer")])

p("C18", "Every reply is one well-formed RESP value",
  "Every command is answered by exactly one syntactically valid RESP value whose decoded content is exactly the result, whatever bytes the keys, values, option and command names contain: binary data comes back byte for byte, an empty string is distinct from nil, and text echoed in an error can never be mistaken for the end of the reply or for a further reply.",
  ["inputs"], "all stored bytes and all argument bytes, including those echoed in error messages",
  "Tests compare a few ASCII replies; none puts CR LF or NUL into anything that is echoed back.",
  ["resp/data.go", "server/handler.go"], [("length-prefixed bulk strings, counted arrays", "resp/data.go ToRedisFormat")],
  [("reply", "RESP encoding of the result", "resp/data.go")])

p("C19", "No client input stops the server or disturbs other clients",
  "Whatever bytes a client sends (malformed or truncated protocol, absurd lengths, empty or null requests, any command with any arguments) and whenever it disconnects, the server process keeps running and keeps serving all other connections with their data intact. Commands completed before malformed bytes are still answered; the malformed bytes and whatever follows them on that connection are never executed.",
  ["inputs", "fault_sequences"], "all byte strings sent on a connection, all truncation points and disconnection times",
  "Parser tests only feed well-formed streams; a panic in any connection's goroutine would end the whole process and no test sends anything that could cause one.",
  ["resp/parser.go", "server/handler.go", "server/server.go", "memdb/set.go", "memdb/hash.go", "memdb/list_struct.go", "util/util.go"],
  [("protocol validation", "resp/parser.go"), ("one goroutine per connection", "server/server.go Start")],
  [("connection", "parser goroutine and handler goroutine per client", "server/handler.go Handle")], ("server liveness, replies on other connections",))

p("C20", "Connections and databases are isolated from each other",
  "Each connection starts in database 0, and SELECT changes the database of the issuing connection only; a refused SELECT (not a number, negative, too large, wrong arity) is answered with an error and leaves the selection unchanged. A command reads and writes only the database selected on its connection, so the same key name in different databases denotes unrelated values and TTLs.",
  ["schedules", "histories", "configurations"], "all interleavings of commands and SELECTs over several connections, all database numbers and counts",
  "There is no test of the server package; no test opens a connection or selects a database.",
  ["server/handler.go", "server/server.go"], [("per-connection selected database", "server/handler.go Handle/Select")],
  [("selected database", "per connection", "server/handler.go Manager.db"), ("databases", "array of independent databases", "server/handler.go Manager.dbs")])

p("C21", "Configuration is honoured and never changes command results",
  "The server listens on the configured host and port and offers exactly the configured number of databases, from flags or from a configuration file (whose settings take precedence, in any order, letter case, spacing and with or without a final newline); an invalid configuration makes it exit with an error instead of hanging or crashing. The number of segments never changes any command's reply.",
  ["configurations", "inputs"], "all combinations of flags and configuration files, all segment and database numbers",
  "The one configuration test parses one fixed file (and fails); no test starts the server or varies the segment number.",
  ["config/config.go", "main.go", "server/server.go", "memdb/concurrentMap.go", "memdb/locks.go"],
  [("flag and file parsing", "config/config.go Init/ParseConfFile"), ("hash modulo segment count", "memdb/concurrentMap.go getKeyPos, memdb/locks.go GetKeyPos")],
  [("configuration", "host, port, dbnum, segnum, log settings", "config/config.go Config")], ("listening port, SELECT replies, exit status",))

p("C22", "Removing an expired key never destroys newer data",
  "When a key's deadline passes while several clients are using it, at most the expired value disappears: a value written after the deadline, or a TTL extended or removed before it, is never deleted by another client's clean-up of the old one. No client ever sees the expired value again after a command has treated it as gone, and TTL never reports a negative remainder for a live key. (A command naming several keys may judge the expiry of each at its own moment; a key whose deadline passes while the command setting that deadline, or renaming the key, still runs may be seen by commands overlapping it.)",
  ["schedules", "histories"], "every interleaving of commands with each other and with the passing of the deadline",
  "Tests neither let time pass nor run two commands at once; the window between noticing expiry and deleting is a few instructions wide.",
  ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go"], [("expiry re-checked under the key lock before deleting", "memdb/memdb.go DeleteExpiredKey")],
  [DICT, EXP, LCK], ("replies of concurrently executed commands, contents afterwards",), "controllable clock and scheduler (instrumented copy)")

p("C23", "KEYS stays complete and safe under concurrent writes",
  "While other clients create, delete and modify keys, KEYS always returns a reply that contains every matching key which exists during the whole execution and is not itself being written, no key twice, and no key that at no moment of the execution existed. The bookkeeping of the number of keys never drifts, so KEYS is correct again once the writers stop.",
  ["schedules", "histories"], "every interleaving of KEYS with creations and deletions in any segments",
  "The KEYS test is sequential on three keys.",
  ["memdb/concurrentMap.go", "memdb/keys.go"], [("segment-wise enumeration and shared key counter", "memdb/concurrentMap.go Keys/Set/Delete")],
  [DICT, ("key counter", "number of keys over all segments", "memdb/concurrentMap.go count")], ("KEYS replies of concurrently executed commands",))

p("C24", "A closed connection leaves nothing behind",
  "Once a client has disconnected, at whatever point (idle, mid-command, mid-pipeline, after malformed input, without reading its replies), the server releases everything it held for it: socket and goroutines. Any number of such connections, one after another, leaves the server as responsive and with as many sockets and goroutines as before, and a termination signal still ends the process promptly.",
  ["fault_sequences", "histories"], "all disconnection points and all sequences of connections",
  "No test opens a connection, so the end of one is never executed.",
  ["server/handler.go", "server/server.go", "resp/parser.go"], [("deferred close, parser goroutine ends with its stream", "server/handler.go Handle, resp/parser.go parse"), ("signal handling", "server/server.go Start")],
  [("connection resources", "socket, handler goroutine, parser goroutine", "server/handler.go, resp/parser.go")], ("/proc/<pid>/fd, goroutine count, exit on SIGTERM",), "goroutine count exposed by the instrumented copy")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
