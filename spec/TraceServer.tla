---------------------------- MODULE TraceServer ----------------------------
(***************************************************************************)
(* Trace validation: executions recorded from the real server are checked  *)
(* to be behaviours of the specification.                                  *)
(*                                                                         *)
(* State of the specified server: the databases, and for each connection   *)
(* the database it has selected.  A recorded execution is a sequence of    *)
(* events [c |-> connection, t |-> clock in ms, q |-> command, r |-> reply,*)
(* j |-> when this reply is judged].  The event "@open" starts (or         *)
(* restarts) a connection.  Executions are checked independently of each   *)
(* other; a reply the specification does not allow is printed (MM if       *)
(* judged, UJ if not) and ends that execution's check.                     *)
(*   j = 0 not judged                 j = 1 judged                         *)
(*   j = 2 judged if the specification refuses the command or the command  *)
(*         only reads                                                      *)
(*   j = 3 judged if since the last "@mark" no command was to change       *)
(*         anything (the clean flag)                                       *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

(* Variable names differ from every bound name in the extended modules: TLC
   caches constant definitions only then. *)
VARIABLES vSeg, vPos, dbs, sel, clean

vars == <<vSeg, vPos, dbs, sel, clean>>

DbOf(x) == IF x \in DOMAIN dbs THEN dbs[x] ELSE EmptyDb
SelOf(c) == IF c \in DOMAIN sel THEN sel[c] ELSE "0"

Init == /\ vSeg \in 1..Len(Traces)
        /\ vPos = 1
        /\ dbs = E
        /\ sel = E
        /\ clean = TRUE

Stop == 1000000

Judged(e, res) == \/ e.j = 1
                  \/ e.j = 2 /\ (res.r = <<"e">> \/ Lower(e.q[1]) \in ReadOnly)
                  \/ e.j = 3 /\ clean

Judge(e, res) ==
    IF Matches(res, e.r) THEN vPos' = vPos + 1
    ELSE /\ PrintT((IF Judged(e, res) THEN "MM " ELSE "UJ ") \o ToString(vSeg) \o " " \o ToString(vPos) \o " " \o ToJson(<<res.k, res.r>>))
         /\ vPos' = Stop

SelectRes(e, n) ==
    LET ok == Len(e.q) = 2 /\ IsInt(e.q[2]) /\ ~DecLt(ParseDec(e.q[2]), "0") /\ DecLt(ParseDec(e.q[2]), ToString(n))
    IN [ok |-> ok, r |-> IF ok THEN <<"s", "OK">> ELSE <<"e">>]

Step == /\ vPos <= Len(Traces[vSeg].ev)
        /\ LET e == Traces[vSeg].ev[vPos]
               n == Traces[vSeg].n
           IN IF e.q[1] = "@open"
              THEN /\ sel' = With(sel, e.c, "0")
                   /\ vPos' = vPos + 1
                   /\ UNCHANGED <<dbs, clean>>
              ELSE IF e.q[1] = "@mark"
              THEN clean' = TRUE /\ vPos' = vPos + 1 /\ UNCHANGED <<dbs, sel>>
              ELSE IF Lower(e.q[1]) = "select"
              THEN LET x == SelectRes(e, n)
                   IN /\ Judge(e, [r |-> x.r, k |-> "x"])
                      /\ sel' = IF x.ok THEN With(sel, e.c, ParseDec(e.q[2])) ELSE sel
                      /\ UNCHANGED <<dbs, clean>>
              ELSE LET b == SelOf(e.c)
                       x == Exec(DbOf(b), e.q, e.t, e.r)
                   IN /\ Judge(e, x)
                      /\ dbs' = With(dbs, b, x.db)
                      /\ clean' = (clean /\ x.db = DbOf(b))
                      /\ UNCHANGED sel
        /\ UNCHANGED vSeg

Next == Step
Spec == Init /\ [][Next]_vars

(* every database the real server has been through is well formed *)
Inv == \A b \in DOMAIN dbs : WellFormed(dbs[b])
=============================================================================
