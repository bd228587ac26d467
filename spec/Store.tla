------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The sequential meaning of every command of gRedis on one database.      *)
(*                                                                         *)
(* A database is a record of four disjoint tables, one per value type, and *)
(* the expiry table:                                                       *)
(*   str  key -> byte string          lst  key -> sequence of byte strings *)
(*   hsh  key -> (field -> value)     set  key -> set of byte strings      *)
(*   exp  key -> deadline, a second (canonical decimal string)             *)
(* A key exists iff it is in one of the tables and its deadline has not    *)
(* passed.  A key with deadline d is gone once the clock shows a second    *)
(* later than d.                                                           *)
(*                                                                         *)
(* Replies are sequences of strings:                                       *)
(*   <<"s", x>> simple string   <<"e">> error      <<"i", n>> integer      *)
(*   <<"b", x>> bulk string     <<"n">> nil        <<"a", e1, ...>> array  *)
(* with array elements "$x" (bulk), "_" (nil) and ":n" (integer).          *)
(*                                                                         *)
(* Exec(db, c, now, obs) is the result of command c (a sequence of byte    *)
(* strings) at time now (milliseconds): a record with the new database db, *)
(* the reply r and the kind k of comparison the reply is subject to:       *)
(*   "x" exactly r    "u" r's elements in any order    "p" r's pairs in    *)
(*   any order    "k" any subset of r's elements                           *)
(* For a random choice the outcome is a function of the observed reply     *)
(* obs: any legal choice is confirmed, anything else is answered "bad".    *)
(***************************************************************************)
EXTENDS Dec, Glob

E == <<>>            \* the empty function
EmptyDb == [str |-> E, lst |-> E, hsh |-> E, set |-> E, exp |-> E]

With(f, k, v) == (k :> v) @@ f
Without(f, k) == IF k \in DOMAIN f THEN [x \in DOMAIN f \ {k} |-> f[x]] ELSE f

AllKeys(db) == (DOMAIN db.str) \cup (DOMAIN db.lst) \cup (DOMAIN db.hsh) \cup (DOMAIN db.set)

TypeOf(db, k) == CASE k \in DOMAIN db.str -> "string"
                   [] k \in DOMAIN db.lst -> "list"
                   [] k \in DOMAIN db.hsh -> "hash"
                   [] k \in DOMAIN db.set -> "set"
                   [] OTHER -> "none"
Has(db, k) == TypeOf(db, k) # "none"

DelKey(db, k) == [str |-> Without(db.str, k), lst |-> Without(db.lst, k),
                  hsh |-> Without(db.hsh, k), set |-> Without(db.set, k),
                  exp |-> Without(db.exp, k)]
RECURSIVE DelKeys(_, _)
DelKeys(db, ks) == IF ks = {} THEN db ELSE LET k == CHOOSE x \in ks : TRUE IN DelKeys(DelKey(db, k), ks \ {k})

Sec(now) == now \div 1000
Gone(db, k, now) == k \in DOMAIN db.exp /\ DecLt(db.exp[k], ToString(Sec(now)))
GoneKeys(db, now) == {k \in DOMAIN db.exp : Gone(db, k, now)}
Purge(db, now) == DelKeys(db, GoneKeys(db, now))

NoTtl(db, k) == [db EXCEPT !.exp = Without(@, k)]

(* new value of another incarnation: value and TTL of k are replaced *)
NewStr(db, k, v) == LET d == DelKey(db, k) IN [d EXCEPT !.str = With(@, k, v)]
(* in-place modification: the TTL stays; an empty collection disappears *)
PutStr(db, k, v) == [db EXCEPT !.str = With(@, k, v)]
PutList(db, k, l) == IF Len(l) = 0 THEN DelKey(db, k) ELSE [db EXCEPT !.lst = With(@, k, l)]
PutSet(db, k, s)  == IF s = {} THEN DelKey(db, k) ELSE [db EXCEPT !.set = With(@, k, s)]
PutHash(db, k, h) == IF DOMAIN h = {} THEN DelKey(db, k) ELSE [db EXCEPT !.hsh = With(@, k, h)]

GetList(db, k) == IF k \in DOMAIN db.lst THEN db.lst[k] ELSE <<>>
GetSet(db, k)  == IF k \in DOMAIN db.set THEN db.set[k] ELSE {}
GetHash(db, k) == IF k \in DOMAIN db.hsh THEN db.hsh[k] ELSE E
GetStr(db, k)  == IF k \in DOMAIN db.str THEN db.str[k] ELSE ""

(* a deadline in the past removes the key at once *)
SetTtl(db, k, d, now) == IF DecLt(d, ToString(Sec(now))) THEN DelKey(db, k)
                         ELSE [db EXCEPT !.exp = With(@, k, d)]

DecMin(a, b) == IF DecLt(b, a) THEN b ELSE a
DeadlineSec(v, now) == DecMin(DecAdd(v, ToString(Sec(now))), MaxInt64)
Div1000(a) == IF IsNeg(a) THEN "-1" ELSE IF Len(a) <= 3 THEN "0" ELSE SubSeq(a, 1, Len(a) - 3)
DeadlineMs(v, now) == Div1000(DecMin(DecAdd(v, ToString(now)), MaxInt64))

----------------------------------------------------------------------------
(* Results *)
Res(db, r) == [db |-> db, r |-> r, k |-> "x"]
Err(db) == Res(db, <<"e">>)
Ok(db) == Res(db, <<"s", "OK">>)
Nil(db) == Res(db, <<"n">>)
IntR(db, n) == Res(db, <<"i", ToString(n)>>)
Bulk(db, s) == Res(db, <<"b", s>>)
Bulks(l) == <<"a">> \o [i \in 1..Len(l) |-> "$" \o l[i]]
Arr(db, l) == Res(db, Bulks(l))
Unordered(db, S) == [db |-> db, r |-> Bulks(SetToSeq(S)), k |-> "u"]

Bad(db) == Res(db, <<"bad">>)

Elems(r) == Tail(r)
SeqCount(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b)
    /\ LET A == {a[i] : i \in 1..Len(a)}
       IN /\ A = {b[i] : i \in 1..Len(b)}
          /\ (Cardinality(A) = Len(a) \/ \A x \in A : SeqCount(a, x) = SeqCount(b, x))
Pairs(a) == {<<a[2 * i - 1], a[2 * i]>> : i \in 1..(Len(a) \div 2)}

Matches(res, obs) ==
    CASE res.k = "x" -> res.r = obs
      [] res.k = "u" -> Len(obs) > 0 /\ obs[1] = "a" /\ SameBag(Elems(res.r), Elems(obs))
      [] res.k = "p" -> /\ Len(obs) = Len(res.r)
                        /\ obs[1] = "a"
                        /\ Pairs(Elems(res.r)) = Pairs(Elems(obs))
      [] res.k = "k" -> /\ Len(obs) > 0 /\ obs[1] = "a"
                        /\ LET s == Elems(obs) IN
                           /\ \A i \in 1..Len(s) : \E j \in 2..Len(res.r) : res.r[j] = s[i]
                           /\ Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

Wrong(db, k, t) == TypeOf(db, k) \notin {"none", t}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* 0-based inclusive range lo..hi of a sequence of length n, after resolving
   negative indexes and clamping; empty if lo > hi *)
RLo(a, n) == IF a < 0 THEN Max2(n + a, 0) ELSE a
RHi(b, n) == IF b < 0 THEN n + b ELSE Min2(b, n - 1)
Slice(s, a, b) == LET lo == RLo(a, Len(s))
                      hi == RHi(b, Len(s))
                  IN IF lo > hi THEN SubSeq(s, 1, 0) ELSE SubSeq(s, lo + 1, hi + 1)

----------------------------------------------------------------------------
(* Strings *)

MaxStringLen == 536870912

(* options of SET from position i on; o.err marks a refusal *)
RECURSIVE SetOpts(_, _, _)
SetOpts(c, i, o) ==
    IF i > Len(c) THEN o
    ELSE LET w == Lower(c[i]) IN
         CASE w = "nx" -> SetOpts(c, i + 1, [o EXCEPT !.nx = TRUE])
           [] w = "xx" -> SetOpts(c, i + 1, [o EXCEPT !.xx = TRUE])
           [] w = "get" -> SetOpts(c, i + 1, [o EXCEPT !.get = TRUE])
           [] w = "keepttl" -> SetOpts(c, i + 1, [o EXCEPT !.n = @ + 1, !.ttl = "keep"])
           [] w \in {"ex", "px", "exat", "pxat"} ->
                IF i + 1 > Len(c) \/ ~IsInt(c[i + 1]) THEN [o EXCEPT !.err = TRUE]
                ELSE SetOpts(c, i + 2, [o EXCEPT !.n = @ + 1, !.ttl = w, !.v = ParseDec(c[i + 1])])
           [] OTHER -> [o EXCEPT !.err = TRUE]

SetCmd(db, c, now) ==
    IF Len(c) < 3 THEN Err(db)
    ELSE LET k == c[2]
             o == SetOpts(c, 4, [err |-> FALSE, nx |-> FALSE, xx |-> FALSE, get |-> FALSE, n |-> 0, ttl |-> "", v |-> "0"])
             old == Has(db, k)
             done == ~(o.nx /\ old) /\ ~(o.xx /\ ~old)
             kept == IF o.ttl = "keep" /\ k \in DOMAIN db.exp THEN With(E, k, db.exp[k]) ELSE E
             d0 == NewStr(db, k, c[3])
             d1 == [d0 EXCEPT !.exp = kept @@ @]
             d2 == CASE o.ttl = "ex" -> SetTtl(d1, k, DeadlineSec(o.v, now), now)
                     [] o.ttl = "px" -> SetTtl(d1, k, DeadlineMs(o.v, now), now)
                     [] o.ttl = "exat" -> SetTtl(d1, k, o.v, now)
                     [] o.ttl = "pxat" -> SetTtl(d1, k, Div1000(o.v), now)
                     [] OTHER -> d1
             new == IF done THEN d2 ELSE db
         IN IF o.err \/ (o.nx /\ o.xx) \/ o.n > 1 THEN Err(db)
            ELSE IF o.get /\ Wrong(db, k, "string") THEN Err(db)
            ELSE IF o.get THEN IF old THEN Bulk(new, db.str[k]) ELSE Nil(new)
            ELSE IF done THEN Ok(new) ELSE Nil(db)

GetRange(db, c) ==
    IF Len(c) # 4 \/ ~IsInt(c[3]) \/ ~IsInt(c[4]) \/ Wrong(db, c[2], "string") THEN Err(db)
    ELSE Bulk(db, Slice(GetStr(db, c[2]), IntArg(c[3]), IntArg(c[4])))

SetRange(db, c) ==
    IF Len(c) # 4 \/ ~IsInt(c[3]) THEN Err(db)
    ELSE LET off == IntArg(c[3])
             v == c[4]
             s == GetStr(db, c[2])
             head == IF off <= Len(s) THEN SubSeq(s, 1, off) ELSE s \o Repeat(NUL, off - Len(s))
             new == head \o v \o SubSeq(s, off + Len(v) + 1, Len(s))
         IN IF off < 0 \/ off > MaxStringLen - Len(v) \/ Wrong(db, c[2], "string") THEN Err(db)
            ELSE IF Len(v) = 0 THEN IntR(db, Len(s))
            ELSE IntR(PutStr(db, c[2], new), Len(new))

MGet(db, c) ==
    IF Len(c) < 2 THEN Err(db)
    ELSE Res(db, <<"a">> \o [i \in 1..(Len(c) - 1) |->
                     IF TypeOf(db, c[i + 1]) = "string" THEN "$" \o db.str[c[i + 1]] ELSE "_"])

RECURSIVE MSetFrom(_, _, _)
MSetFrom(db, c, i) == IF i > Len(c) THEN db ELSE MSetFrom(NewStr(db, c[i], c[i + 1]), c, i + 2)

AppendCmd(db, c) == LET s == GetStr(db, c[2]) \o c[3] IN IntR(PutStr(db, c[2], s), Len(s))

(* counters: old value or "0" if missing, plus amount *)
Counter(db, k, amt) ==
    LET old == IF Has(db, k) THEN ParseDec(GetStr(db, k)) ELSE "0"
        new == DecAdd(old, amt)
    IN IF Wrong(db, k, "string") \/ old = NaN \/ ~InInt64(new) THEN Err(db)
       ELSE Res(PutStr(db, k, new), <<"i", new>>)

(* the result of adding an amount to a stored decimal fraction *)
FloatSum(old, amt) ==
    IF amt \in HugePos /\ old \in HugePos THEN NaN
    ELSE LET a == FloatOf(old)
             b == FloatOf(amt)
         IN IF a = FBad \/ b = FBad THEN NaN
            ELSE IF a = FUnknown \/ b = FUnknown THEN "?"
            ELSE FloatStr(DecAdd(a, b))

(* a sum outside the modelled range is taken from the reply *)
FloatRes(new, obs) == IF new # "?" THEN new ELSE IF Len(obs) = 2 /\ obs[1] = "b" THEN obs[2] ELSE NaN

IncrByFloat(db, k, amt, obs) ==
    LET new == FloatRes(FloatSum(IF Has(db, k) THEN GetStr(db, k) ELSE "0", amt), obs)
    IN IF Wrong(db, k, "string") \/ new = NaN THEN Err(db)
       ELSE Bulk(PutStr(db, k, new), new)

----------------------------------------------------------------------------
(* Hashes *)
RECURSIVE HSetFrom(_, _, _)
HSetFrom(h, c, i) == IF i > Len(c) THEN h ELSE HSetFrom(With(h, c[i], c[i + 1]), c, i + 2)

HSet(db, c) ==
    IF Len(c) < 4 \/ Len(c) % 2 = 1 \/ Wrong(db, c[2], "hash") THEN Err(db)
    ELSE LET h == GetHash(db, c[2])
             n == HSetFrom(h, c, 3)
             d == PutHash(db, c[2], n)
         IN IF Lower(c[1]) = "hmset" THEN Ok(d)
            ELSE IntR(d, Cardinality(DOMAIN n) - Cardinality(DOMAIN h))

HCounter(db, k, f, amt) ==
    LET h == GetHash(db, k)
        old == IF f \in DOMAIN h THEN ParseDec(h[f]) ELSE "0"
        new == DecAdd(old, amt)
    IN IF Wrong(db, k, "hash") \/ old = NaN \/ ~InInt64(new) THEN Err(db)
       ELSE Res(PutHash(db, k, With(h, f, new)), <<"i", new>>)

HIncrByFloat(db, k, f, amt, obs) ==
    LET h == GetHash(db, k)
        new == FloatRes(FloatSum(IF f \in DOMAIN h THEN h[f] ELSE "0", amt), obs)
    IN IF Wrong(db, k, "hash") \/ new = NaN THEN Err(db)
       ELSE Bulk(PutHash(db, k, With(h, f, new)), new)

HGetAllReply(h) ==
    LET fs == SetToSeq(DOMAIN h)
    IN <<"a">> \o [i \in 1..(2 * Len(fs)) |->
           IF i % 2 = 1 THEN "$" \o fs[(i + 1) \div 2] ELSE "$" \o h[fs[i \div 2]]]

----------------------------------------------------------------------------
(* Lists *)
RECURSIVE FirstPos(_, _, _)
FirstPos(l, x, i) == IF i > Len(l) THEN 0 ELSE IF l[i] = x THEN i ELSE FirstPos(l, x, i + 1)

(* remove at most n occurrences of x from the front *)
RECURSIVE RemoveFront(_, _, _)
RemoveFront(l, x, n) ==
    LET p == IF n = 0 THEN 0 ELSE FirstPos(l, x, 1)
    IN IF p = 0 THEN l ELSE SubSeq(l, 1, p - 1) \o RemoveFront(SubSeq(l, p + 1, Len(l)), x, n - 1)

LRem(l, n, x) == IF n >= 0 THEN RemoveFront(l, x, IF n = 0 THEN Len(l) ELSE n)
                 ELSE Reversed(RemoveFront(Reversed(l), x, -n))

Push(db, c, left, onlyIfExists) ==
    IF Len(c) < 3 \/ Wrong(db, c[2], "list") THEN Err(db)
    ELSE IF onlyIfExists /\ ~Has(db, c[2]) THEN IntR(db, 0)
    ELSE LET xs == SubSeq(c, 3, Len(c))
             l == IF left THEN Reversed(xs) \o GetList(db, c[2]) ELSE GetList(db, c[2]) \o xs
         IN IntR(PutList(db, c[2], l), Len(l))

Pop(db, c, left) ==
    IF Len(c) \notin {2, 3} \/ (Len(c) = 3 /\ (~IsInt(c[3]) \/ IntArg(c[3]) <= 0)) THEN Err(db)
    ELSE IF Wrong(db, c[2], "list") THEN Err(db)
    ELSE IF ~Has(db, c[2]) THEN Nil(db)
    ELSE LET l == GetList(db, c[2])
             n == IF Len(c) = 2 THEN 1 ELSE Min2(IntArg(c[3]), Len(l))
             out == IF left THEN SubSeq(l, 1, n) ELSE Reversed(SubSeq(l, Len(l) - n + 1, Len(l)))
             rest == IF left THEN SubSeq(l, n + 1, Len(l)) ELSE SubSeq(l, 1, Len(l) - n)
             d == PutList(db, c[2], rest)
         IN IF Len(c) = 2 THEN Bulk(d, out[1]) ELSE Arr(d, out)

LIndexPos(l, i) == IF i < 0 THEN Len(l) + i + 1 ELSE i + 1   \* 1-based

LInsert(db, c) ==
    LET w == Lower(c[3])
        l == GetList(db, c[2])
        p == FirstPos(l, c[4], 1)
        q == IF w = "before" THEN p - 1 ELSE p
        n == SubSeq(l, 1, q) \o <<c[5]>> \o SubSeq(l, q + 1, Len(l))
    IN IF w \notin {"before", "after"} \/ Wrong(db, c[2], "list") THEN Err(db)
       ELSE IF ~Has(db, c[2]) THEN IntR(db, 0)
       ELSE IF p = 0 THEN IntR(db, -1)
       ELSE IntR(PutList(db, c[2], n), Len(n))

RECURSIVE LPosOpts(_, _, _)
LPosOpts(c, i, o) ==
    IF i > Len(c) THEN o
    ELSE LET w == Lower(c[i])
             ok == IsInt(c[i + 1])
             v == IntArg(c[i + 1])
         IN CASE w = "rank" /\ ok /\ v # 0 -> LPosOpts(c, i + 2, [o EXCEPT !.rank = v])
              [] w = "count" /\ ok /\ v >= 0 -> LPosOpts(c, i + 2, [o EXCEPT !.count = v])
              [] w = "maxlen" /\ ok /\ v >= 0 -> LPosOpts(c, i + 2, [o EXCEPT !.maxlen = v])
              [] OTHER -> [o EXCEPT !.err = TRUE]

LPos(db, c) ==
    IF Len(c) < 3 \/ Len(c) % 2 = 0 THEN Err(db)
    ELSE LET o == LPosOpts(c, 4, [err |-> FALSE, rank |-> 1, count |-> -1, maxlen |-> 0])
             l == GetList(db, c[2])
             n == IF o.maxlen = 0 THEN Len(l) ELSE Min2(o.maxlen, Len(l))
             scan == IF o.rank > 0 THEN [i \in 1..n |-> i] ELSE [i \in 1..n |-> Len(l) + 1 - i]
             hits == SelectSeq(scan, LAMBDA i : l[i] = c[3])
             skip == (IF o.rank > 0 THEN o.rank ELSE -o.rank) - 1
             found == SubSeq(hits, skip + 1, Len(hits))
             take == IF o.count = 0 THEN Len(found) ELSE Min2(o.count, Len(found))
         IN IF o.err \/ Wrong(db, c[2], "list") THEN Err(db)
            ELSE IF Len(found) = 0 THEN Nil(db)
            ELSE IF o.count = -1 THEN IntR(db, found[1] - 1)
            ELSE Res(db, <<"a">> \o [i \in 1..take |-> ":" \o ToString(found[i] - 1)])

LMove(db, c) ==
    LET from == Lower(c[4])
        to == Lower(c[5])
        l == GetList(db, c[2])
        x == IF from = "left" THEN l[1] ELSE l[Len(l)]
        rest == IF from = "left" THEN Tail(l) ELSE SubSeq(l, 1, Len(l) - 1)
        dst == IF c[3] = c[2] THEN rest ELSE GetList(db, c[3])
        new == IF to = "left" THEN <<x>> \o dst ELSE dst \o <<x>>
        d == IF c[3] = c[2] THEN PutList(db, c[3], new) ELSE PutList(PutList(db, c[2], rest), c[3], new)
    IN IF from \notin {"left", "right"} \/ to \notin {"left", "right"} THEN Err(db)
       ELSE IF Wrong(db, c[2], "list") THEN Err(db)
       ELSE IF ~Has(db, c[2]) THEN Nil(db)
       ELSE IF Wrong(db, c[3], "list") THEN Err(db)
       ELSE Bulk(d, x)

----------------------------------------------------------------------------
(* Sets *)
RangeOf(s) == {s[i] : i \in 1..Len(s)}

SetOp(db, op, ks) ==
    LET S == [i \in 1..Len(ks) |-> GetSet(db, ks[i])]
        rest == {i \in 2..Len(ks) : TRUE}
    IN CASE op = "union" -> UNION {S[i] : i \in 1..Len(ks)}
         [] op = "inter" -> {x \in S[1] : \A i \in rest : x \in S[i]}
         [] op = "diff" -> {x \in S[1] : \A i \in rest : x \notin S[i]}

SetRead(db, c, op) ==
    IF Len(c) < 2 \/ (\E i \in 2..Len(c) : Wrong(db, c[i], "set")) THEN Err(db)
    ELSE Unordered(db, SetOp(db, op, SubSeq(c, 2, Len(c))))

SetStore(db, c, op) ==
    IF Len(c) < 3 \/ (\E i \in 3..Len(c) : Wrong(db, c[i], "set")) THEN Err(db)
    ELSE LET S == SetOp(db, op, SubSeq(c, 3, Len(c)))
         IN IntR(PutSet(DelKey(db, c[2]), c[2], S), Cardinality(S))

SMove(db, c) ==
    LET src == GetSet(db, c[2])
        d == IF c[2] = c[3] THEN db
             ELSE LET d1 == PutSet(db, c[2], src \ {c[4]})
                  IN PutSet(d1, c[3], GetSet(db, c[3]) \cup {c[4]})
    IN IF Wrong(db, c[2], "set") THEN Err(db)
       ELSE IF ~Has(db, c[2]) THEN IntR(db, 0)
       ELSE IF Wrong(db, c[3], "set") THEN Err(db)
       ELSE IF c[4] \notin src THEN IntR(db, 0)
       ELSE IntR(d, 1)

(* a legal random choice of n elements of S: distinct if n > 0, with
   repetitions if n < 0 *)
LegalChoice(xs, S, n) ==
    /\ \A i \in 1..Len(xs) : xs[i] \in S
    /\ IF n >= 0 THEN Len(xs) = Min2(n, Cardinality(S)) /\ Cardinality(RangeOf(xs)) = Len(xs)
       ELSE Len(xs) = -n

Unbulk(e) == SubSeq(e, 2, Len(e))
IsBulkArray(obs) == Len(obs) > 0 /\ obs[1] = "a" /\ \A i \in 2..Len(obs) : Len(obs[i]) > 0 /\ At(obs[i], 1) = "$"
ArrayElems(obs) == [i \in 1..(Len(obs) - 1) |-> Unbulk(obs[i + 1])]
IsBulk(obs) == Len(obs) = 2 /\ obs[1] = "b"

SPop(db, c, obs) ==
    IF Len(c) \notin {2, 3} \/ (Len(c) = 3 /\ (~IsInt(c[3]) \/ IntArg(c[3]) <= 0)) THEN Err(db)
    ELSE IF Wrong(db, c[2], "set") THEN Err(db)
    ELSE IF ~Has(db, c[2]) THEN Nil(db)
    ELSE LET S == GetSet(db, c[2])
         IN IF Len(c) = 2
            THEN IF IsBulk(obs) /\ obs[2] \in S THEN Res(PutSet(db, c[2], S \ {obs[2]}), obs) ELSE Bad(db)
            ELSE IF IsBulkArray(obs) /\ LegalChoice(ArrayElems(obs), S, IntArg(c[3]))
                 THEN Res(PutSet(db, c[2], S \ RangeOf(ArrayElems(obs))), obs) ELSE Bad(db)

MaxRandom == 1048576

SRandMember(db, c, obs) ==
    IF Len(c) \notin {2, 3} \/ (Len(c) = 3 /\ ~IsInt(c[3])) THEN Err(db)
    ELSE IF Len(c) = 3 /\ IntArg(c[3]) < -MaxRandom THEN Err(db)
    ELSE IF Wrong(db, c[2], "set") THEN Err(db)
    ELSE IF ~Has(db, c[2]) THEN Nil(db)
    ELSE LET S == GetSet(db, c[2])
         IN IF Len(c) = 2 THEN IF IsBulk(obs) /\ obs[2] \in S THEN Res(db, obs) ELSE Bad(db)
            ELSE IF IntArg(c[3]) = 0 THEN Nil(db)
            ELSE IF IsBulkArray(obs) /\ LegalChoice(ArrayElems(obs), S, IntArg(c[3])) THEN Res(db, obs) ELSE Bad(db)

HRandField(db, c, obs) ==
    IF Len(c) \notin 2..4 \/ (Len(c) >= 3 /\ ~IsInt(c[3])) THEN Err(db)
    ELSE IF Len(c) >= 3 /\ IntArg(c[3]) < -MaxRandom THEN Err(db)
    ELSE IF Len(c) = 4 /\ Lower(c[4]) # "withvalues" THEN Err(db)
    ELSE IF Wrong(db, c[2], "hash") THEN Err(db)
    ELSE IF ~Has(db, c[2]) THEN Nil(db)
    ELSE LET h == GetHash(db, c[2])
             xs == ArrayElems(obs)
             fs == [i \in 1..(Len(xs) \div 2) |-> xs[2 * i - 1]]
         IN IF Len(c) = 2 THEN IF IsBulk(obs) /\ obs[2] \in DOMAIN h THEN Res(db, obs) ELSE Bad(db)
            ELSE IF ~IsBulkArray(obs) THEN Bad(db)
            ELSE IF Len(c) = 3
            THEN IF LegalChoice(xs, DOMAIN h, IntArg(c[3])) THEN Res(db, obs) ELSE Bad(db)
            ELSE IF /\ Len(xs) % 2 = 0
                    /\ LegalChoice(fs, DOMAIN h, IntArg(c[3]))
                    /\ \A i \in 1..Len(fs) : xs[2 * i] = h[fs[i]]
                 THEN Res(db, obs) ELSE Bad(db)

----------------------------------------------------------------------------
(* Keys *)
Expire(db, c, now) ==
    IF Len(c) \notin {3, 4} \/ ~IsInt(c[3]) THEN Err(db)
    ELSE LET k == c[2]
             d == DeadlineSec(ParseDec(c[3]), now)
             opt == IF Len(c) = 4 THEN Lower(c[4]) ELSE ""
             old == k \in DOMAIN db.exp
             go == CASE opt = "" -> TRUE
                     [] opt = "nx" -> ~old
                     [] opt = "xx" -> old
                     [] opt = "gt" -> old /\ DecLt(db.exp[k], d)
                     [] opt = "lt" -> ~old \/ DecLt(d, db.exp[k])
         IN IF opt \notin {"", "nx", "xx", "gt", "lt"} THEN Err(db)
            ELSE IF ~Has(db, k) \/ ~go THEN IntR(db, 0)
            ELSE IntR(SetTtl(db, k, d, now), 1)

Ttl(db, k, now) ==
    IF ~Has(db, k) THEN "-2"
    ELSE IF k \notin DOMAIN db.exp THEN "-1"
    ELSE LET left == DecSub(db.exp[k], ToString(Sec(now))) IN IF IsNeg(left) THEN "0" ELSE left

Rename(db, c, now) ==
    LET a == c[2]
        b == c[3]
        d == DelKey(DelKey(db, a), b)
        t == TypeOf(db, a)
        v == CASE t = "string" -> [d EXCEPT !.str = With(@, b, db.str[a])]
               [] t = "list" -> [d EXCEPT !.lst = With(@, b, db.lst[a])]
               [] t = "hash" -> [d EXCEPT !.hsh = With(@, b, db.hsh[a])]
               [] t = "set" -> [d EXCEPT !.set = With(@, b, db.set[a])]
    IN IF t = "none" THEN Err(db)
       ELSE Ok(IF a \in DOMAIN db.exp THEN SetTtl(v, b, db.exp[a], now) ELSE v)

KeysCmd(db, p) ==
    IF GlobDefined(p) THEN Unordered(db, {k \in AllKeys(db) : GlobMatch(p, k)})
    ELSE [Unordered(db, AllKeys(db)) EXCEPT !.k = "k"]

----------------------------------------------------------------------------
(* One command on a database from which the expired keys have been removed. *)
Apply(db, c, now, obs) ==
    LET n == Lower(c[1])
        a == Len(c)
        k == c[2]
    IN CASE n = "ping" -> IF a > 2 THEN Err(db) ELSE IF a = 1 THEN Res(db, <<"s", "PONG">>) ELSE Bulk(db, k)
         [] n = "set" -> SetCmd(db, c, now)
         [] n = "get" -> IF a # 2 \/ Wrong(db, k, "string") THEN Err(db) ELSE IF Has(db, k) THEN Bulk(db, db.str[k]) ELSE Nil(db)
         [] n = "getrange" -> GetRange(db, c)
         [] n = "setrange" -> SetRange(db, c)
         [] n = "mget" -> MGet(db, c)
         [] n = "mset" -> IF a < 3 \/ a % 2 = 0 THEN Err(db) ELSE Ok(MSetFrom(db, c, 2))
         [] n = "setex" -> IF a # 4 \/ ~IsInt(c[3]) THEN Err(db)
                           ELSE Ok(SetTtl(NewStr(db, k, c[4]), k, DeadlineSec(ParseDec(c[3]), now), now))
         [] n = "setnx" -> IF a # 3 THEN Err(db) ELSE IF Has(db, k) THEN IntR(db, 0) ELSE IntR(NewStr(db, k, c[3]), 1)
         [] n = "strlen" -> IF a # 2 \/ Wrong(db, k, "string") THEN Err(db) ELSE IntR(db, Len(GetStr(db, k)))
         [] n = "append" -> IF a # 3 \/ Wrong(db, k, "string") THEN Err(db) ELSE AppendCmd(db, c)
         [] n = "incr" -> IF a # 2 THEN Err(db) ELSE Counter(db, k, "1")
         [] n = "decr" -> IF a # 2 THEN Err(db) ELSE Counter(db, k, "-1")
         [] n = "incrby" -> IF a # 3 \/ ~IsInt(c[3]) THEN Err(db) ELSE Counter(db, k, ParseDec(c[3]))
         [] n = "decrby" -> IF a # 3 \/ ~IsInt(c[3]) THEN Err(db) ELSE Counter(db, k, Neg(ParseDec(c[3])))
         [] n = "incrbyfloat" -> IF a # 3 THEN Err(db) ELSE IncrByFloat(db, k, c[3], obs)
         \* hashes
         [] n \in {"hset", "hmset"} -> HSet(db, c)
         [] n = "hsetnx" -> IF a # 4 \/ Wrong(db, k, "hash") THEN Err(db)
                            ELSE IF c[3] \in DOMAIN GetHash(db, k) THEN IntR(db, 0)
                            ELSE IntR(PutHash(db, k, With(GetHash(db, k), c[3], c[4])), 1)
         [] n = "hget" -> IF a # 3 \/ Wrong(db, k, "hash") THEN Err(db)
                          ELSE IF c[3] \in DOMAIN GetHash(db, k) THEN Bulk(db, db.hsh[k][c[3]]) ELSE Nil(db)
         [] n = "hmget" -> IF a < 3 \/ Wrong(db, k, "hash") THEN Err(db)
                           ELSE LET h == GetHash(db, k)
                                IN Res(db, <<"a">> \o [i \in 1..(a - 2) |-> IF c[i + 2] \in DOMAIN h THEN "$" \o h[c[i + 2]] ELSE "_"])
         [] n = "hgetall" -> IF a # 2 \/ Wrong(db, k, "hash") THEN Err(db)
                             ELSE [db |-> db, r |-> HGetAllReply(GetHash(db, k)), k |-> "p"]
         [] n = "hkeys" -> IF a # 2 \/ Wrong(db, k, "hash") THEN Err(db) ELSE Unordered(db, DOMAIN GetHash(db, k))
         [] n = "hvals" -> IF a # 2 \/ Wrong(db, k, "hash") THEN Err(db)
                           ELSE LET h == GetHash(db, k)
                                    fs == SetToSeq(DOMAIN h)
                                IN [db |-> db, r |-> <<"a">> \o [i \in 1..Len(fs) |-> "$" \o h[fs[i]]], k |-> "u"]
         [] n = "hlen" -> IF a # 2 \/ Wrong(db, k, "hash") THEN Err(db) ELSE IntR(db, Cardinality(DOMAIN GetHash(db, k)))
         [] n = "hexists" -> IF a # 3 \/ Wrong(db, k, "hash") THEN Err(db) ELSE IntR(db, IF c[3] \in DOMAIN GetHash(db, k) THEN 1 ELSE 0)
         [] n = "hstrlen" -> IF a # 3 \/ Wrong(db, k, "hash") THEN Err(db)
                             ELSE LET h == GetHash(db, k) IN IntR(db, IF c[3] \in DOMAIN h THEN Len(h[c[3]]) ELSE 0)
         [] n = "hdel" -> IF a < 3 \/ Wrong(db, k, "hash") THEN Err(db)
                          ELSE LET h == GetHash(db, k)
                                   D == (DOMAIN h) \cap {c[i] : i \in 3..a}
                               IN IF D = {} THEN IntR(db, 0)
                                  ELSE IntR(PutHash(db, k, [f \in (DOMAIN h) \ D |-> h[f]]), Cardinality(D))
         [] n = "hincrby" -> IF a # 4 \/ ~IsInt(c[4]) THEN Err(db) ELSE HCounter(db, k, c[3], ParseDec(c[4]))
         [] n = "hincrbyfloat" -> IF a # 4 THEN Err(db) ELSE HIncrByFloat(db, k, c[3], c[4], obs)
         [] n = "hrandfield" -> HRandField(db, c, obs)
         \* lists
         [] n = "lpush" -> Push(db, c, TRUE, FALSE)
         [] n = "rpush" -> Push(db, c, FALSE, FALSE)
         [] n = "lpushx" -> Push(db, c, TRUE, TRUE)
         [] n = "rpushx" -> Push(db, c, FALSE, TRUE)
         [] n = "lpop" -> Pop(db, c, TRUE)
         [] n = "rpop" -> Pop(db, c, FALSE)
         [] n = "llen" -> IF a # 2 \/ Wrong(db, k, "list") THEN Err(db) ELSE IntR(db, Len(GetList(db, k)))
         [] n = "lindex" -> IF a # 3 \/ ~IsInt(c[3]) \/ Wrong(db, k, "list") THEN Err(db)
                            ELSE LET l == GetList(db, k)
                                     p == LIndexPos(l, IntArg(c[3]))
                                 IN IF p \in 1..Len(l) THEN Bulk(db, l[p]) ELSE Nil(db)
         [] n = "lrange" -> IF a # 4 \/ ~IsInt(c[3]) \/ ~IsInt(c[4]) \/ Wrong(db, k, "list") THEN Err(db)
                            ELSE Arr(db, Slice(GetList(db, k), IntArg(c[3]), IntArg(c[4])))
         [] n = "lset" -> IF a # 4 \/ ~IsInt(c[3]) \/ TypeOf(db, k) # "list" THEN Err(db)
                          ELSE LET l == GetList(db, k)
                                   p == LIndexPos(l, IntArg(c[3]))
                               IN IF p \in 1..Len(l) THEN Ok(PutList(db, k, [l EXCEPT ![p] = c[4]])) ELSE Err(db)
         [] n = "linsert" -> IF a # 5 THEN Err(db) ELSE LInsert(db, c)
         [] n = "lrem" -> IF a # 4 \/ ~IsInt(c[3]) \/ Wrong(db, k, "list") THEN Err(db)
                          ELSE LET l == GetList(db, k)
                                   m == LRem(l, IntArg(c[3]), c[4])
                               IN IF Has(db, k) THEN IntR(PutList(db, k, m), Len(l) - Len(m)) ELSE IntR(db, 0)
         [] n = "ltrim" -> IF a # 4 \/ ~IsInt(c[3]) \/ ~IsInt(c[4]) \/ TypeOf(db, k) # "list" THEN Err(db)
                           ELSE Ok(PutList(db, k, Slice(GetList(db, k), IntArg(c[3]), IntArg(c[4]))))
         [] n = "lpos" -> LPos(db, c)
         [] n = "lmove" -> IF a # 5 THEN Err(db) ELSE LMove(db, c)
         \* sets
         [] n = "sadd" -> IF a < 3 \/ Wrong(db, k, "set") THEN Err(db)
                          ELSE LET S == GetSet(db, k)
                                   T == S \cup {c[i] : i \in 3..a}
                               IN IntR(PutSet(db, k, T), Cardinality(T) - Cardinality(S))
         [] n = "srem" -> IF a < 3 \/ Wrong(db, k, "set") THEN Err(db)
                          ELSE LET S == GetSet(db, k)
                                   T == S \ {c[i] : i \in 3..a}
                               IN IF Has(db, k) THEN IntR(PutSet(db, k, T), Cardinality(S) - Cardinality(T)) ELSE IntR(db, 0)
         [] n = "scard" -> IF a # 2 \/ Wrong(db, k, "set") THEN Err(db) ELSE IntR(db, Cardinality(GetSet(db, k)))
         [] n = "sismember" -> IF a # 3 \/ Wrong(db, k, "set") THEN Err(db) ELSE IntR(db, IF c[3] \in GetSet(db, k) THEN 1 ELSE 0)
         [] n = "smembers" -> IF a # 2 \/ Wrong(db, k, "set") THEN Err(db) ELSE Unordered(db, GetSet(db, k))
         [] n = "smove" -> IF a # 4 THEN Err(db) ELSE SMove(db, c)
         [] n = "spop" -> SPop(db, c, obs)
         [] n = "srandmember" -> SRandMember(db, c, obs)
         [] n = "sinter" -> SetRead(db, c, "inter")
         [] n = "sunion" -> SetRead(db, c, "union")
         [] n = "sdiff" -> SetRead(db, c, "diff")
         [] n = "sinterstore" -> SetStore(db, c, "inter")
         [] n = "sunionstore" -> SetStore(db, c, "union")
         [] n = "sdiffstore" -> SetStore(db, c, "diff")
         \* keys
         [] n = "del" -> IF a < 2 THEN Err(db)
                         ELSE LET D == {c[i] : i \in 2..a} \cap AllKeys(db) IN IntR(DelKeys(db, D), Cardinality(D))
         [] n = "exists" -> IF a < 2 THEN Err(db) ELSE IntR(db, Cardinality({i \in 2..a : Has(db, c[i])}))
         [] n = "type" -> IF a # 2 THEN Err(db) ELSE Res(db, <<"s", TypeOf(db, k)>>)
         [] n = "keys" -> IF a # 2 THEN Err(db) ELSE KeysCmd(db, k)
         [] n = "expire" -> Expire(db, c, now)
         [] n = "persist" -> IF a # 2 THEN Err(db)
                             ELSE IF k \in DOMAIN db.exp THEN IntR(NoTtl(db, k), 1) ELSE IntR(db, 0)
         [] n = "ttl" -> IF a # 2 THEN Err(db) ELSE Res(db, <<"i", Ttl(db, k, now)>>)
         [] n = "rename" -> IF a # 3 THEN Err(db) ELSE Rename(db, c, now)
         [] OTHER -> Err(db)

Exec(db, c, now, obs) == Apply(Purge(db, now), c, now, obs)

----------------------------------------------------------------------------
(* What must hold of every database *)
Disjoint(db) ==
    LET ts == <<DOMAIN db.str, DOMAIN db.lst, DOMAIN db.hsh, DOMAIN db.set>>
    IN \A i, j \in 1..4 : i < j => ts[i] \cap ts[j] = {}
NoEmpty(db) ==
    /\ \A k \in DOMAIN db.lst : Len(db.lst[k]) > 0
    /\ \A k \in DOMAIN db.hsh : DOMAIN db.hsh[k] # {}
    /\ \A k \in DOMAIN db.set : db.set[k] # {}
TtlOnlyOnKeys(db) == DOMAIN db.exp \subseteq AllKeys(db)
WellFormed(db) == Disjoint(db) /\ NoEmpty(db) /\ TtlOnlyOnKeys(db)

ReadOnly == {"ping", "get", "getrange", "mget", "strlen", "hget", "hmget", "hgetall", "hkeys", "hvals", "hlen",
             "hexists", "hstrlen", "hrandfield", "llen", "lindex", "lrange", "lpos", "scard", "sismember", "smembers",
             "srandmember", "sinter", "sunion", "sdiff", "exists", "type", "keys", "ttl"}

(* keys a command names (the only ones it may change) *)
KeysOf(c) ==
    LET n == Lower(c[1])
        a == Len(c)
    IN IF a < 2 THEN {}
       ELSE CASE n \in {"del", "exists", "mget", "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore"} -> {c[i] : i \in 2..a}
              [] n = "mset" -> {c[i] : i \in {j \in 2..a : j % 2 = 0}}
              [] n \in {"rename", "lmove", "smove"} -> {c[i] : i \in 2..Min2(3, a)}
              [] n \in {"ping", "keys", "select"} -> {}
              [] OTHER -> {c[2]}

Same(d1, d2, k) ==
    /\ TypeOf(d1, k) = TypeOf(d2, k)
    /\ (k \in DOMAIN d1.exp) = (k \in DOMAIN d2.exp)
    /\ k \in DOMAIN d1.exp => d1.exp[k] = d2.exp[k]
    /\ CASE TypeOf(d1, k) = "string" -> d1.str[k] = d2.str[k]
         [] TypeOf(d1, k) = "list" -> d1.lst[k] = d2.lst[k]
         [] TypeOf(d1, k) = "hash" -> d1.hsh[k] = d2.hsh[k]
         [] TypeOf(d1, k) = "set" -> d1.set[k] = d2.set[k]
         [] OTHER -> TRUE
=============================================================================
