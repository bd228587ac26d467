------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configuration: what the server has to do for given flags and a given    *)
(* configuration file, and the check of recorded starts against it.        *)
(*                                                                         *)
(* A run is                                                                *)
(*   fl    sequence of <<name, value>>: the flags given, in order          *)
(*   file  "none", "missing" (named but unreadable) or "lines"             *)
(*   ln    the lines of the file, each a sequence of words                 *)
(*   can   the hosts this machine can listen on                            *)
(*   busy  ports another process listens on (all IPv4 addresses)           *)
(*   out   "serve" or "exit"; then                                         *)
(*   code  the exit status (as a string)                                   *)
(*   at    the set of <<host, port>> probes that were accepted             *)
(*   tried the set of <<host, port>> probes made                           *)
(*   dbs   the database numbers SELECT accepted                            *)
(*   sel   the database numbers tried                                      *)
(***************************************************************************)
EXTENDS Dec, Json, IOUtils, TLC

Runs == JsonDeserialize(IOEnv.TRACE)

Settings == {"host", "port", "segnum", "dbnum", "logdir", "loglevel"}
Numbers == {"port", "segnum", "dbnum"}
Default == [host |-> "127.0.0.1", port |-> "6379", segnum |-> "100", dbnum |-> "16", logdir |-> "./", loglevel |-> "info"]

\* ---------------------------------------------------------------- addresses
RECURSIVE Split(_, _, _, _)
Split(s, i, ch, acc) ==
    IF i > Len(s) THEN <<acc>>
    ELSE IF At(s, i) = ch THEN <<acc>> \o Split(s, i + 1, ch, "")
    ELSE Split(s, i + 1, ch, acc \o At(s, i))

Octet(x) == IsDigits(x) /\ Len(x) <= 3 /\ (Len(x) = 1 \/ At(x, 1) # "0") /\ NatOf(x) <= 255
IsV4(h) == LET p == Split(h, 1, ".", "") IN Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i])
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Group(x) == Len(x) \in 1..4 /\ \A i \in 1..Len(x) : At(x, i) \in Hex
(* groups separated by colons, at most one of them elided (written ::) *)
IsV6(h) ==
    LET p == Split(h, 1, ":", "")
        n == Len(p)
        empties == {i \in 1..n : p[i] = ""}
        full == {i \in 1..n : p[i] # ""}
    IN /\ n >= 3
       /\ \A i \in full : Group(p[i])
       /\ \/ empties = {} /\ n = 8
          \/ n <= 9 /\ Cardinality(full) <= 7 /\
             \/ \E i \in 2..n - 1 : empties = {i}
             \/ empties = {1, 2}
             \/ empties = {n - 1, n}
             \/ empties = {1, 2, 3} /\ n = 3
IsAddr(h) == IsV4(h) \/ IsV6(h)

\* ---------------------------------------------------------------- settings
Lowercase(w) == Lower(w)

(* Settings from flags, then from the lines of the file; "bad" if one is not valid. *)
ValueOk(n, x) == CASE n = "host" -> IsAddr(x)
                   [] n \in Numbers -> IsInt(x)
                   [] OTHER -> TRUE

RECURSIVE FromFlags(_, _, _)
FromFlags(fl, i, c) == IF i > Len(fl) THEN c ELSE FromFlags(fl, i + 1, [c EXCEPT ![fl[i][1]] = fl[i][2]])

RECURSIVE FromLines(_, _, _)
FromLines(ln, i, c) ==
    IF i > Len(ln) THEN c
    ELSE LET w == ln[i]
             n == IF Len(w) > 0 THEN Lowercase(w[1]) ELSE ""
         IN FromLines(ln, i + 1, IF n \in Settings /\ Len(w) > 1 THEN [c EXCEPT ![n] = w[2]] ELSE c)

FlagsOk(fl) == \A i \in 1..Len(fl) : fl[i][1] \in Settings /\ ValueOk(fl[i][1], fl[i][2])
LinesOk(ln) == \A i \in 1..Len(ln) :
    Len(ln[i]) > 0 /\ Lowercase(ln[i][1]) \in Settings => Len(ln[i]) > 1 /\ ValueOk(Lowercase(ln[i][1]), ln[i][2])

Setting(r) == FromLines(IF r.file = "lines" THEN r.ln ELSE <<>>, 1, FromFlags(r.fl, 1, Default))

Within(x, lo, hi) == ~DecLt(x, lo) /\ ~DecLt(hi, x)
Valid(r) == /\ FlagsOk(r.fl)
            /\ r.file # "missing"
            /\ r.file = "lines" => LinesOk(r.ln)
            /\ LET c == Setting(r)
               IN /\ ~DecLt(ParseDec(c.segnum), "1")
                  /\ ~DecLt(ParseDec(c.dbnum), "1")
                  /\ Within(ParseDec(c.port), "1", "65535")

Served(r) == Valid(r) /\ LET c == Setting(r) IN c.host \in ToSet(r.can) /\ (IsV4(c.host) => ParseDec(c.port) \notin ToSet(r.busy))

(* who is reachable when the server listens on host h (for the wildcard only
   IPv4 addresses are considered) *)
Reach(h, x) == x = h \/ h = "0.0.0.0"
Considered(h, s) == IF h = "0.0.0.0" THEN {x \in s : IsV4(x[1])} ELSE s

Why(r) ==
    IF ~Served(r) THEN IF r.out = "serve" THEN "must not start"
                       ELSE IF r.out = "hang" THEN "neither serves nor exits"
                       ELSE IF r.code \in {"1", "2"} THEN "" ELSE "must exit with an error, not " \o r.code
    ELSE LET c == Setting(r)
             p == ParseDec(c.port)
         IN IF r.out # "serve" THEN "must serve on " \o c.host \o " port " \o p
            ELSE IF Considered(c.host, ToSet(r.at)) # {x \in Considered(c.host, ToSet(r.tried)) : x[2] = p /\ Reach(c.host, x[1])} THEN "must listen exactly on " \o c.host \o " port " \o p
            ELSE IF ToSet(r.dbs) # {x \in ToSet(r.sel) : Within(x, "0", DecSub(ParseDec(c.dbnum), "1"))} THEN "must offer databases 0 to " \o c.dbnum \o " - 1"
            ELSE ""

VARIABLES vRun
Init == vRun = 1
Next == /\ vRun <= Len(Runs)
        /\ vRun' = vRun + 1
        /\ LET w == Why(Runs[vRun]) IN IF w = "" THEN TRUE ELSE PrintT("MM " \o ToString(vRun) \o " " \o w)
Inv == TRUE
=============================================================================
