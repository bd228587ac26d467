-------------------------------- MODULE Resp --------------------------------
(***************************************************************************)
(* The wire protocol: how a byte stream from a client is cut into          *)
(* commands, and what a well-formed reply is.                              *)
(***************************************************************************)
EXTENDS Store

RECURSIVE LfFrom(_, _)
LfFrom(s, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = LF THEN i ELSE LfFrom(s, i + 1)

(* The number in a header: a canonical decimal string, "odd" for a spelling
   the protocol does not use (+5, 007, -0), "bad" if it is no number. *)
HeadInt(h) ==
    LET m == IF Len(h) > 0 /\ At(h, 1) \in {"-", "+"} THEN SubSeq(h, 2, Len(h)) ELSE h
    IN IF ~IsDigits(m) THEN "bad"
       ELSE IF At(h, 1) = "+" \/ (Len(m) > 1 /\ At(m, 1) = "0") \/ h = "-0" THEN "odd"
       ELSE h

MaxBulk == "536870912"
ArgLimit == "1024"      \* more arguments than any recorded stream completes

(* A line starting at i: complete, with its text, or what is wrong with it *)
LineAt(s, i) ==
    LET j == LfFrom(s, i)
    IN IF j = 0 THEN [t |-> "inc", n |-> 0, x |-> ""]
       ELSE IF j = i \/ At(s, j - 1) # CR \/ j - i < 2 THEN [t |-> "mal", n |-> 0, x |-> ""]
       ELSE [t |-> "ok", n |-> j + 1, x |-> SubSeq(s, i, j - 2)]

Item(t, n, c) == [t |-> t, n |-> n, c |-> c]

(* k more arguments from position i *)
RECURSIVE Args(_, _, _, _)
Args(s, i, k, acc) ==
    IF k = 0 THEN Item("cmd", i, acc)
    ELSE IF i > Len(s) THEN Item("inc", i, acc)
    ELSE IF At(s, i) \in {"+", "-", ":", "*"} THEN Item("uns", i, acc)
    ELSE LET l == LineAt(s, i) IN
         IF l.t = "inc" THEN Item(IF At(s, i) = "$" THEN "inc" ELSE "uns", i, acc)
         ELSE IF l.t = "mal" \/ At(s, i) # "$" THEN Item("mal", i, acc)
         ELSE LET h == HeadInt(SubSeq(l.x, 2, Len(l.x))) IN
              IF h = "bad" THEN Item("mal", i, acc)
              ELSE IF h \in {"odd", "-1"} THEN Item("uns", i, acc)
              ELSE IF IsNeg(h) \/ DecLt(MaxBulk, h) THEN Item("mal", i, acc)
              ELSE IF Len(h) > 6 \/ l.n + NatOf(h) + 1 > Len(s) THEN Item("inc", i, acc)
              ELSE LET e == l.n + NatOf(h)
                   IN IF SubSeq(s, e, e + 1) # CRLF THEN Item("mal", i, acc)
                      ELSE Args(s, e + 2, k - 1, Append(acc, SubSeq(s, l.n, e - 1)))

(* The item of the stream s that starts at position i:
     cmd   a complete command, c its arguments
     skip  an empty request, which is not answered
     mal   the protocol is violated: nothing from here on is executed
     inc   the stream ends before the item is complete
     uns   something this specification says nothing about *)
ItemAt(s, i) ==
    IF i > Len(s) THEN Item("inc", i, <<>>)
    ELSE IF At(s, i) # "*" THEN Item("uns", i, <<>>)
    ELSE LET l == LineAt(s, i) IN
         IF l.t # "ok" THEN Item(l.t, i, <<>>)
         ELSE LET h == HeadInt(SubSeq(l.x, 2, Len(l.x))) IN
              IF h = "bad" THEN Item("mal", i, <<>>)
              ELSE IF h = "odd" THEN Item("uns", i, <<>>)
              ELSE IF h \in {"0", "-1"} THEN Item("skip", l.n, <<>>)
              ELSE IF IsNeg(h) THEN Item("mal", i, <<>>)
              ELSE IF DecLt(ArgLimit, h) THEN Item("uns", i, <<>>)
              ELSE Args(s, l.n, NatOf(h), <<>>)

----------------------------------------------------------------------------
(* Replies.  ValueAt(s, i, top): the RESP value at position i of s; ok is
   FALSE if there is no complete well-formed one. *)
Val(ok, n, r) == [ok |-> ok, n |-> n, r |-> r]
NoVal == Val(FALSE, 0, <<>>)

IsCanon(h) == HeadInt(h) \notin {"bad", "odd"}
NoBreak(x) == \A i \in 1..Len(x) : At(x, i) \notin {CR, LF}

ElemMark == [x \in {"s", "e", "i", "b", "n"} |-> CASE x = "s" -> "+" [] x = "e" -> "-" [] x = "i" -> ":" [] x = "b" -> "$" [] x = "n" -> "_"]

RECURSIVE ValueAt(_, _, _), ElemsAt(_, _, _, _)
ValueAt(s, i, top) ==
    IF i > Len(s) THEN NoVal
    ELSE LET l == LineAt(s, i) IN
         IF l.t # "ok" THEN NoVal
         ELSE LET x == SubSeq(l.x, 2, Len(l.x))
                  t == At(s, i)
              IN CASE t = "+" -> IF NoBreak(x) THEN Val(TRUE, l.n, <<"s", x>>) ELSE NoVal
                   [] t = "-" -> IF NoBreak(x) THEN Val(TRUE, l.n, <<"e">>) ELSE NoVal
                   [] t = ":" -> IF IsCanon(x) THEN Val(TRUE, l.n, <<"i", x>>) ELSE NoVal
                   [] t = "$" -> IF x = "-1" THEN Val(TRUE, l.n, <<"n">>)
                                 ELSE IF ~IsCanon(x) \/ IsNeg(x) \/ Len(x) > 6 THEN NoVal
                                 ELSE LET e == l.n + NatOf(x)
                                      IN IF e + 1 > Len(s) \/ SubSeq(s, e, e + 1) # CRLF THEN NoVal
                                         ELSE Val(TRUE, e + 2, <<"b", SubSeq(s, l.n, e - 1)>>)
                   [] t = "*" -> IF ~top THEN NoVal
                                 ELSE IF x = "-1" THEN Val(TRUE, l.n, <<"a">>)
                                 ELSE IF ~IsCanon(x) \/ IsNeg(x) \/ Len(x) > 4 THEN NoVal
                                 ELSE ElemsAt(s, l.n, NatOf(x), <<"a">>)
                   [] OTHER -> NoVal
ElemsAt(s, i, k, acc) ==
    IF k = 0 THEN Val(TRUE, i, acc)
    ELSE LET v == ValueAt(s, i, FALSE)
         IN IF ~v.ok THEN NoVal
            ELSE ElemsAt(s, v.n, k - 1, Append(acc, ElemMark[v.r[1]] \o (IF Len(v.r) > 1 THEN v.r[2] ELSE "")))

RECURSIVE OnlyErrors(_, _)
OnlyErrors(s, i) == i > Len(s) \/ (LET v == ValueAt(s, i, TRUE) IN v.ok /\ v.r = <<"e">> /\ OnlyErrors(s, v.n))

(* how a command is sent *)
RECURSIVE EncArgs(_, _)
EncArgs(c, i) == IF i > Len(c) THEN "" ELSE "$" \o ToString(Len(c[i])) \o CRLF \o c[i] \o CRLF \o EncArgs(c, i + 1)
Enc(c) == "*" \o ToString(Len(c)) \o CRLF \o EncArgs(c, 1)
=============================================================================
