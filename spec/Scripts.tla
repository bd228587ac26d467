------------------------------ MODULE Scripts ------------------------------
(* All the ways a client can behave in MaxLen steps before it vanishes;     *)
(* printed by TLC and played against the real server.                       *)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxLen
Act == {"cmd",      \* a complete command
        "bad",      \* a protocol violation
        "part",     \* the beginning of a command; no further sending makes sense but another part
        "big",      \* commands with large replies
        "empty",    \* an empty request
        "error",    \* a command that is refused
        "take",     \* read what is there
        "half"}     \* end the sending side
End == {"close", "reset"}
VARIABLES script, over
Sending == {"cmd", "bad", "part", "big", "empty", "error"}
Has(x) == \E i \in 1..Len(script) : script[i] = x
Init == script = <<>> /\ over = FALSE
Step(a) == /\ Len(script) < MaxLen
           /\ a \in Sending => ~Has("half")
           /\ Has("half") => a # "half"
           /\ (a = "take" /\ Len(script) > 0) => script[Len(script)] # "take"
           /\ script' = Append(script, a)
           /\ over' = FALSE
Finish(e) == /\ over' = TRUE
             /\ script' = Append(script, e)
             /\ PrintT("SC " \o ToString(script'))
Next == ~over /\ ((\E a \in Act : Step(a)) \/ (\E e \in End : Finish(e)))
=============================================================================
