----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* Check of recorded resource use.  A record is a sequence of              *)
(*   [a |-> "open", n |-> k]     k connections are established             *)
(*   [a |-> "gone", n |-> k]     k of them have vanished                   *)
(*   [a |-> "base", g, f]        goroutines and descriptors, settled       *)
(*   [a |-> "use", g, f]         the same, measured later                  *)
(*   [a |-> "reply", ok]         an established connection asked           *)
(*   [a |-> "term", ok]          termination requested; ok: process ended  *)
(* With as many connections as at the base measurement nothing more may be *)
(* in use.                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Rec == JsonDeserialize(IOEnv.TRACE)
VARIABLES vRec, vPos, now, at, g0, f0
vars == <<vRec, vPos, now, at, g0, f0>>
Init == vRec \in 1..Len(Rec) /\ vPos = 1 /\ now = 0 /\ at = 0 /\ g0 = 0 /\ f0 = 0
Fail(w) == PrintT("MM " \o ToString(vRec) \o " " \o ToString(vPos) \o " " \o w)
Next == /\ vPos <= Len(Rec[vRec])
        /\ vPos' = vPos + 1
        /\ UNCHANGED vRec
        /\ LET e == Rec[vRec][vPos]
           IN CASE e.a = "open" -> now' = now + e.n /\ UNCHANGED <<at, g0, f0>>
                [] e.a = "gone" -> now' = now - e.n /\ UNCHANGED <<at, g0, f0>>
                [] e.a = "base" -> g0' = e.g /\ f0' = e.f /\ at' = now /\ UNCHANGED now
                [] e.a = "use"  -> /\ IF now <= at /\ e.g > g0 THEN Fail("goroutines left behind: " \o ToString(e.g) \o " instead of " \o ToString(g0))
                                      ELSE IF now <= at /\ e.f > f0 THEN Fail("descriptors left behind: " \o ToString(e.f) \o " instead of " \o ToString(f0))
                                      ELSE TRUE
                                   /\ UNCHANGED <<now, at, g0, f0>>
                [] e.a = "reply" -> (IF e.ok = 1 THEN TRUE ELSE Fail("an established connection is not served")) /\ UNCHANGED <<now, at, g0, f0>>
                [] e.a = "term" -> (IF e.ok = 1 THEN TRUE ELSE Fail("the process does not end on a termination signal")) /\ UNCHANGED <<now, at, g0, f0>>
Sane == now >= 0
=============================================================================
