------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings.  A byte string is a TLA+ string with one character per    *)
(* byte: printable ASCII (0x20..0x7e) stands for itself and every other    *)
(* byte b for the character U+0100+b.  The harness applies this bijection  *)
(* to everything it records from the wire.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

At(s, i) == SubSeq(s, i, i)

DigitSet == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in DigitSet |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
      [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
      [] c = "8" -> 8 [] c = "9" -> 9]

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
UpperSet == {At(UPPER, i) : i \in 1..26}
LowerOf == [c \in UpperSet |-> At(LOWER, CHOOSE i \in 1..26 : At(UPPER, i) = c)]

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
    IF i > Len(s) THEN ""
    ELSE LET c == At(s, i) IN (IF c \in UpperSet THEN LowerOf[c] ELSE c) \o LowerFrom(s, i + 1)

(* Command and option names are at most 12 bytes long; longer strings are never names. *)
(* names in plain lower or upper case, looked up instead of computed *)
LowerSeq == <<
    "ping", "select", "set", "get", "getrange", "setrange", "mget", "mset", "setex", "setnx", "strlen", "append",
    "incr", "decr", "incrby", "decrby", "incrbyfloat", "hincrby", "hincrbyfloat", "hset", "hmset", "hsetnx", "hget",
    "hmget", "hgetall", "hkeys", "hvals", "hlen", "hexists", "hstrlen", "hdel", "hrandfield", "lpush", "rpush",
    "lpushx", "rpushx", "lpop", "rpop", "llen", "lindex", "lrange", "lset", "linsert", "lrem", "ltrim", "lpos",
    "lmove", "sadd", "srem", "scard", "sismember", "smembers", "smove", "spop", "srandmember", "sinter", "sunion",
    "sdiff", "sinterstore", "sunionstore", "sdiffstore", "del", "exists", "type", "keys", "expire", "persist", "ttl",
    "rename">>
UpperSeq == <<
    "PING", "SELECT", "SET", "GET", "GETRANGE", "SETRANGE", "MGET", "MSET", "SETEX", "SETNX", "STRLEN", "APPEND",
    "INCR", "DECR", "INCRBY", "DECRBY", "INCRBYFLOAT", "HINCRBY", "HINCRBYFLOAT", "HSET", "HMSET", "HSETNX", "HGET",
    "HMGET", "HGETALL", "HKEYS", "HVALS", "HLEN", "HEXISTS", "HSTRLEN", "HDEL", "HRANDFIELD", "LPUSH", "RPUSH",
    "LPUSHX", "RPUSHX", "LPOP", "RPOP", "LLEN", "LINDEX", "LRANGE", "LSET", "LINSERT", "LREM", "LTRIM", "LPOS",
    "LMOVE", "SADD", "SREM", "SCARD", "SISMEMBER", "SMEMBERS", "SMOVE", "SPOP", "SRANDMEMBER", "SINTER", "SUNION",
    "SDIFF", "SINTERSTORE", "SUNIONSTORE", "SDIFFSTORE", "DEL", "EXISTS", "TYPE", "KEYS", "EXPIRE", "PERSIST", "TTL",
    "RENAME">>
Names == {LowerSeq[i] : i \in 1..Len(LowerSeq)} \cup {UpperSeq[i] : i \in 1..Len(UpperSeq)}
Folded == TLCEval([x \in Names |-> LowerSeq[CHOOSE i \in 1..Len(LowerSeq) : LowerSeq[i] = x \/ UpperSeq[i] = x]])
Lower(s) == IF Len(s) > 16 THEN s ELSE IF s \in DOMAIN Folded THEN Folded[s] ELSE LowerFrom(s, 1)

(* All bytes in numerical order, for ranges in glob classes. *)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiSet == {At(ASCII, i) : i \in 1..95}
AsciiOrd == [c \in AsciiSet |-> 31 + CHOOSE i \in 1..95 : At(ASCII, i) = c]

IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : At(s, i) \in DigitSet

RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, acc * 10 + DigitVal[At(s, i)])
(* value of a digit string of at most 9 digits *)
NatOf(s) == NatFrom(s, 1, 0)

RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN ""
                ELSE IF n = 1 THEN c
                ELSE LET h == Repeat(c, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o c

NUL == "Ā"   \* U+0100: byte 0
CR  == "č"   \* U+010D: byte 13
LF  == "Ċ"   \* U+010A: byte 10
CRLF == CR \o LF
=============================================================================
