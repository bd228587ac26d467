------------------------------ MODULE LinCheck ------------------------------
(***************************************************************************)
(* Concurrent executions recorded from the real store are checked to have  *)
(* a one-at-a-time explanation by the sequential specification (Store):    *)
(* between its invocation and its response every command takes effect at   *)
(* one instant, with the reply that was observed.                          *)
(*                                                                         *)
(* Time passes during an execution.  A command takes its readings of the   *)
(* clock at instants of its own interval: a key that was expired before    *)
(* the command began does not exist for it; a key whose time runs out      *)
(* while the command executes may still exist for it or not; deadlines and *)
(* remaining times are computed at some instant of the interval.  A        *)
(* deadline takes hold at an instant of the command that sets it: if it    *)
(* passes before that command has ended, commands overlapping that command *)
(* may still find the key.                                                 *)
(*                                                                         *)
(* KEYS is not atomic: it lists, without repetition, every matching key    *)
(* that existed throughout its execution and that no overlapping command   *)
(* was writing, and nothing that existed at no instant of it.              *)
(*                                                                         *)
(* A history h has h.q, h.r (command and reply of each operation) and h.e, *)
(* its events: <<"o", q, r>> a command executed alone, <<"i", n>>,         *)
(* <<"r", n>> invocation and response of operation n, <<"t", ms>> the      *)
(* clock now shows ms.  "OK n" is printed for each history n explained.    *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Hists == JsonDeserialize(IOEnv.TRACE)

VARIABLES vHist, vAt, vDb, vPend, vLin, vInv, vTimes, vAlways, vEver, vOver, vBy

vars == <<vHist, vAt, vDb, vPend, vLin, vInv, vTimes, vAlways, vEver, vOver, vBy>>

StartTime == 1000000000

Init == /\ vHist \in 1..Len(Hists)
        /\ vAt = 1
        /\ vDb = EmptyDb
        /\ vPend = {}
        /\ vLin = {}
        /\ vInv = <<>>
        /\ vTimes = <<StartTime>>
        /\ vAlways = <<>>
        /\ vEver = <<>>
        /\ vOver = <<>>
        /\ vBy = <<>>

H == Hists[vHist]
Clock == vTimes[Len(vTimes)]
Cmd(n) == H.q[n]
Writes(n) == Lower(Cmd(n)[1]) \notin ReadOnly
IsKeys(n) == Lower(Cmd(n)[1]) = "keys" /\ Len(Cmd(n)) = 2
ReadsClock == {"set", "setex", "expire", "ttl", "rename"}

Movers == {"rename", "lmove", "smove", "mset", "sinterstore", "sunionstore", "sdiffstore"}
SetsDeadline == {"set", "setex", "expire", "rename"}

Live(d, tm) == {k \in AllKeys(d) : ~Gone(d, k, tm)}
(* keys whose deadline was set by a command overlapping n *)
Recent(d, by, n) == {k \in DOMAIN d.exp : k \in DOMAIN by /\ by[k] \in vOver[n]}

(* every KEYS in progress sees the new state d at time tm *)
Watch(d, by, tm) ==
    IF DOMAIN vEver = {} THEN UNCHANGED <<vAlways, vEver>>
    ELSE LET L == Live(d, tm)
         IN /\ vAlways' = [n \in DOMAIN vAlways |-> vAlways[n] \cap L]
            /\ vEver' = [n \in DOMAIN vEver |-> vEver[n] \cup L \cup Recent(d, by, n)]

Alone(c, r) ==
    LET x == Exec(vDb, c, Clock, r)
    IN /\ Matches(x, r)
       /\ vDb' = x.db
       /\ vAt' = vAt + 1
       /\ UNCHANGED <<vPend, vLin, vInv, vTimes, vAlways, vEver, vOver, vBy>>

Invoke(n) ==
    /\ vPend' = vPend \cup {n}
    /\ vInv' = With(vInv, n, Len(vTimes))
    /\ vAt' = vAt + 1
    /\ LET named == IF Writes(n) THEN KeysOf(Cmd(n)) ELSE {}
           alw == [m \in DOMAIN vAlways |-> vAlways[m] \ named]
           others == UNION {IF Writes(m) THEN KeysOf(Cmd(m)) ELSE {} : m \in vPend}
       IN IF IsKeys(n)
          THEN /\ vAlways' = With(alw, n, Live(vDb, Clock) \ others)
               /\ vEver' = With(vEver, n, Live(vDb, Clock) \cup {k \in DOMAIN vDb.exp : k \in DOMAIN vBy /\ vBy[k] \in vPend})
          ELSE vAlways' = alw /\ UNCHANGED vEver
    /\ vOver' = With([m \in DOMAIN vOver |-> IF m \in vPend THEN vOver[m] \cup {n} ELSE vOver[m]], n, vPend)
    /\ UNCHANGED <<vDb, vLin, vTimes, vBy>>

(* what the clock shows during operation n *)
RECURSIVE TicksUntil(_, _)
TicksUntil(at, n) == IF H.e[at][1] = "r" /\ H.e[at][2] = n THEN {}
                     ELSE (IF H.e[at][1] = "t" THEN {H.e[at][2]} ELSE {}) \cup TicksUntil(at + 1, n)
Instants(n) == {vTimes[i] : i \in vInv[n]..Len(vTimes)} \cup TicksUntil(vAt, n)

Linearize(n) ==
    LET c == Cmd(n)
        named == KeysOf(c)
        began == vTimes[vInv[n]]
        must == {k \in named : Gone(vDb, k, began)} \ Recent(vDb, vBy, n)
        may == {k \in named : Gone(vDb, k, Clock)} \ must
        instants == IF Lower(c[1]) \in ReadsClock THEN Instants(n) ELSE {Clock}
        \* a command without effect need not have got as far as its other keys
        others == IF Lower(c[1]) \in Movers THEN (must \cup may) \ {c[2]} ELSE {}
    IN \E keep \in SUBSET may : \E tm \in instants : \E back \in SUBSET (others \ keep) :
          LET gone == must \cup (may \ keep)
              view == DelKeys(vDb, gone)
              x0 == Apply(view, c, tm, H.r[n])
              x == IF back = {} THEN x0 ELSE [x0 EXCEPT !.db = DelKeys(vDb, gone \ back)]
              set == IF Lower(c[1]) \in SetsDeadline THEN named \cap DOMAIN x.db.exp ELSE {}
              by == [k \in set |-> n] @@ vBy
          IN /\ back = {} \/ x0.db = view
             /\ Matches(x, H.r[n])
             /\ vDb' = x.db
             /\ vLin' = vLin \cup {n}
             /\ vBy' = by
             /\ Watch(x.db, by, Clock)
             /\ UNCHANGED <<vAt, vPend, vInv, vTimes, vOver>>

KeysReplyOk(n) ==
    LET r == H.r[n]
        got == {r[i] : i \in 2..Len(r)}
        M(S) == {"$" \o k : k \in {x \in S : GlobMatch(Cmd(n)[2], x)}}
    IN /\ r[1] = "a"
       /\ Cardinality(got) = Len(r) - 1
       /\ M(vAlways[n]) \subseteq got
       /\ got \subseteq M(vEver[n])

Respond(n) ==
    /\ IF IsKeys(n) THEN KeysReplyOk(n) ELSE n \in vLin
    /\ vPend' = vPend \ {n}
    /\ vLin' = vLin \ {n}
    /\ vAt' = vAt + 1
    /\ vAlways' = Without(vAlways, n)
    /\ vEver' = Without(vEver, n)
    /\ UNCHANGED <<vDb, vInv, vTimes, vOver, vBy>>

Tick(tm) ==
    /\ vTimes' = Append(vTimes, tm)
    /\ Watch(vDb, vBy, tm)
    /\ vAt' = vAt + 1
    /\ UNCHANGED <<vDb, vPend, vLin, vInv, vOver, vBy>>

(* Taking effect can always be put off until the next response. *)
Event ==
    LET e == H.e[vAt]
    IN CASE e[1] = "o" -> Alone(e[2], e[3])
         [] e[1] = "t" -> Tick(e[2])
         [] e[1] = "i" -> Invoke(e[2])
         [] e[1] = "r" -> \/ Respond(e[2])
                          \/ /\ e[2] \notin vLin
                             /\ \E n \in vPend \ vLin : ~IsKeys(n) /\ Linearize(n)

Next == /\ UNCHANGED vHist
        /\ IF vAt <= Len(H.e) THEN Event
           ELSE /\ vAt = Len(H.e) + 1
                /\ PrintT("OK " \o ToString(vHist))
                /\ vAt' = Len(H.e) + 2
                /\ UNCHANGED <<vDb, vPend, vLin, vInv, vTimes, vAlways, vEver, vOver, vBy>>

Spec == Init /\ [][Next]_vars

Inv == WellFormed(vDb)
=============================================================================
