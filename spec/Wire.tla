-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Trace validation at the level of bytes.  A trace is a sequence of       *)
(* connections, one after another, to one server with n databases; for     *)
(* each the bytes it sent (i) before ending its side, and all bytes it     *)
(* received (o).  The specification cuts the input into commands, executes *)
(* them, and requires the output to be exactly the sequence of their       *)
(* replies: one well-formed RESP value per command, in order, nothing      *)
(* else.  After a protocol violation nothing is executed and nothing but   *)
(* errors may be sent.  What is not allowed is printed as                  *)
(*   MM <trace> <connection> <input position> <why>                        *)
(* A part with j = 0 is followed but not judged; with j = 2 the number and *)
(* the syntax of the replies is judged, but not their content.             *)
(***************************************************************************)
EXTENDS Resp, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
Now == 1000000000

VARIABLES vTrace, vPart, vIn, vOut, dbs, cur, unk

vars == <<vTrace, vPart, vIn, vOut, dbs, cur, unk>>

Init == /\ vTrace \in 1..Len(Traces)
        /\ vPart = 1
        /\ vIn = 1
        /\ vOut = 1
        /\ dbs = E
        /\ cur = "0"
        /\ unk = {}         \* databases whose contents are not known any more

T == Traces[vTrace]
P == T.p[vPart]
Stop == 1000000
DbOf(x) == IF x \in DOMAIN dbs THEN dbs[x] ELSE EmptyDb

Report(why) == PrintT((IF P.j > 0 THEN "MM " ELSE "UJ ") \o ToString(vTrace) \o " " \o ToString(vPart) \o " " \o ToString(vIn) \o " " \o why)

Fail(why) == /\ Report(why)
             /\ vPart' = Stop
             /\ UNCHANGED <<vIn, vOut, dbs, cur, unk>>

NextPart == /\ vPart' = vPart + 1
            /\ vIn' = 1
            /\ vOut' = 1
            /\ cur' = "0"

SelectOk(c) == Len(c) = 2 /\ IsInt(c[2]) /\ ~DecLt(ParseDec(c[2]), "0") /\ DecLt(ParseDec(c[2]), ToString(T.n))

Command(it) ==
    LET v == ValueAt(P.o, vOut, TRUE)
        c == it.c
    IN IF ~v.ok THEN Fail(IF vOut > Len(P.o) THEN "no reply" ELSE "malformed reply")
       ELSE IF Lower(c[1]) = "select"
       THEN IF v.r # (IF SelectOk(c) THEN <<"s", "OK">> ELSE <<"e">>) THEN Fail("wrong reply to SELECT")
            ELSE /\ cur' = IF SelectOk(c) THEN ParseDec(c[2]) ELSE cur
                 /\ vIn' = it.n
                 /\ vOut' = v.n
                 /\ UNCHANGED <<vPart, dbs, unk>>
       ELSE IF cur \in unk
       THEN vIn' = it.n /\ vOut' = v.n /\ UNCHANGED <<vPart, dbs, cur, unk>>
       ELSE LET x == Exec(DbOf(cur), c, Now, v.r)
            IN IF ~Matches(x, v.r) /\ P.j = 2
               THEN vIn' = it.n /\ vOut' = v.n /\ unk' = unk \cup {cur} /\ UNCHANGED <<vPart, dbs, cur>>
               ELSE IF ~Matches(x, v.r) THEN Fail("reply " \o ToJson(v.r) \o " specified " \o ToJson(<<x.k, x.r>>))
               ELSE /\ dbs' = With(dbs, cur, x.db)
                    /\ vIn' = it.n
                    /\ vOut' = v.n
                    /\ UNCHANGED <<vPart, cur, unk>>

Step == LET it == ItemAt(P.i, vIn)
        IN CASE it.t = "cmd" -> Command(it)
             [] it.t = "skip" -> vIn' = it.n /\ UNCHANGED <<vPart, vOut, dbs, cur, unk>>
             [] it.t = "inc" -> IF vOut <= Len(P.o) THEN Fail("more output than replies") ELSE NextPart /\ UNCHANGED <<dbs, unk>>
             [] it.t = "mal" -> IF ~OnlyErrors(P.o, vOut) THEN Fail("reply after a protocol violation") ELSE NextPart /\ UNCHANGED <<dbs, unk>>
             [] it.t = "uns" -> NextPart /\ unk' = unk \cup {cur} /\ UNCHANGED dbs

Next == /\ vPart <= Len(T.p)
        /\ Step
        /\ UNCHANGED vTrace

Inv == \A b \in DOMAIN dbs : WellFormed(dbs[b])
=============================================================================
