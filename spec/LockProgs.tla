----------------------------- MODULE LockProgs -----------------------------
(***************************************************************************)
(* Deadlock freedom of commands, at the level of their lock operations.    *)
(*                                                                         *)
(* A lock program is the sequence of lock operations one command performs, *)
(* recorded from the real code: <<lock, op>> with op 0 lock, 1 unlock,     *)
(* 2 read lock, 3 read unlock.  Locks are read/write locks as in Go: a     *)
(* waiting writer keeps new readers out; an unlocking writer lets waiting  *)
(* readers in first.  Every combination (a sequence of programs run at the *)
(* same time) is explored in every interleaving.  Printed:                 *)
(*   DL <combination>  commands that block each other for ever             *)
(*   LK <combination>  a lock that outlives its command                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.TRACE)
Progs == In.progs           \* the distinct programs
Combos == In.combos         \* combinations: sequences of indexes into Progs

VARIABLES vCombo, vPc, vHeld, vWait, vOver

vars == <<vCombo, vPc, vHeld, vWait, vOver>>

Who == 1..Len(Combos[vCombo])
P(i) == Progs[Combos[vCombo][i]]
Done(i) == vPc[i] > Len(P(i))
Op(i) == P(i)[vPc[i]]

(* vHeld: the set of <<lock, program, "r" or "w">>; vWait: who waits for its
   current operation already (a writer that waits keeps readers out) *)
Writers(l, h) == {x \in h : x[1] = l /\ x[3] = "w"}
Readers(l, h) == {x \in h : x[1] = l /\ x[3] = "r"}
WaitingW(l) == {j \in vWait : Op(j)[1] = l /\ Op(j)[2] = 0}

Init == /\ vCombo \in 1..Len(Combos)
        /\ vPc = [i \in 1..Len(Combos[vCombo]) |-> 1]
        /\ vHeld = {}
        /\ vWait = {}
        /\ vOver = FALSE

Go(i) == vPc' = [vPc EXCEPT ![i] = @ + 1]

Lock(i, l) ==
    LET free == Writers(l, vHeld) = {} /\ Readers(l, vHeld) = {}
    IN \/ /\ free                                   \* taken (also after waiting)
          /\ (i \in vWait \/ WaitingW(l) = {})
          /\ vHeld' = vHeld \cup {<<l, i, "w">>}
          /\ vWait' = vWait \ {i}
          /\ Go(i)
       \/ /\ i \notin vWait                         \* begins to wait
          /\ ~free \/ WaitingW(l) # {}
          /\ vWait' = vWait \cup {i}
          /\ UNCHANGED <<vHeld, vPc>>
RLock(i, l) ==
    \/ /\ Writers(l, vHeld) = {} /\ WaitingW(l) = {}
       /\ vHeld' = vHeld \cup {<<l, i, "r">>}
       /\ vWait' = vWait \ {i}
       /\ Go(i)
    \/ /\ i \notin vWait
       /\ Writers(l, vHeld) # {} \/ WaitingW(l) # {}
       /\ vWait' = vWait \cup {i}
       /\ UNCHANGED <<vHeld, vPc>>
(* an unlocking writer admits the readers that wait *)
Unlock(i, l) ==
    LET rs == {j \in vWait : Op(j)[1] = l /\ Op(j)[2] = 2}
    IN /\ vHeld' = (vHeld \ {<<l, i, "w">>}) \cup {<<l, j, "r">> : j \in rs}
       /\ vWait' = vWait \ rs
       /\ vPc' = [j \in DOMAIN vPc |-> IF j = i \/ j \in rs THEN vPc[j] + 1 ELSE vPc[j]]
RUnlock(i, l) == vHeld' = vHeld \ {<<l, i, "r">>} /\ UNCHANGED vWait /\ Go(i)

Step(i) == /\ ~Done(i)
           /\ LET l == Op(i)[1]
                  o == Op(i)[2]
              IN CASE o = 0 -> Lock(i, l)
                   [] o = 1 -> Unlock(i, l)
                   [] o = 2 -> RLock(i, l)
                   [] o = 3 -> RUnlock(i, l)

AllDone == \A i \in Who : Done(i)

End == /\ ~vOver
       /\ ~ENABLED (\E i \in Who : Step(i))
       /\ IF ~AllDone THEN PrintT("DL " \o ToString(vCombo))
          ELSE IF vHeld # {} THEN PrintT("LK " \o ToString(vCombo)) ELSE TRUE
       /\ vOver' = TRUE
       /\ UNCHANGED <<vPc, vHeld, vWait>>

(* An unlock is always possible and never disables anything, so whenever some
   program is about to unlock, only the least such program moves: the deadlocks
   are the same and the interleavings far fewer. *)
Releasing == {i \in Who : ~Done(i) /\ Op(i)[2] \in {1, 3}}
Movers == IF Releasing = {} THEN Who ELSE {CHOOSE i \in Releasing : \A j \in Releasing : i <= j}

Next == /\ \/ (\E i \in Movers : Step(i)) /\ UNCHANGED vOver
           \/ End
        /\ UNCHANGED vCombo

(* a writer is alone *)
Exclusion == \A x \in vHeld : x[3] = "w" => \A y \in vHeld : y[1] = x[1] => y = x
=============================================================================
