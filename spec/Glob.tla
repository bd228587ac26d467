-------------------------------- MODULE Glob -------------------------------
(***************************************************************************)
(* The pattern language of KEYS: ? one byte, * any run, [..] and [^..]     *)
(* classes with ranges, everything else itself.                            *)
(***************************************************************************)
EXTENDS Bytes

(* position of the ] closing a class whose content starts at i; 0 if none.
   A byte after a dash belongs to the range, even if it is a ]. *)
RECURSIVE ClassEnd(_, _)
ClassEnd(p, i) ==
    IF i > Len(p) THEN 0
    ELSE IF At(p, i) = "]" THEN i
    ELSE IF At(p, i) = "-" THEN ClassEnd(p, i + 2)
    ELSE ClassEnd(p, i + 1)

ByteOrd(c) == IF c \in AsciiSet THEN AsciiOrd[c] ELSE -1

(* set of bytes a class content denotes, as a predicate on a byte *)
RECURSIVE InClass(_, _, _, _)
InClass(p, i, e, c) ==
    IF i >= e THEN FALSE
    ELSE IF i + 2 < e /\ At(p, i + 1) = "-"
    THEN (ByteOrd(c) >= ByteOrd(At(p, i)) /\ ByteOrd(c) <= ByteOrd(At(p, i + 2))) \/ InClass(p, i + 3, e, c)
    ELSE At(p, i) = c \/ InClass(p, i + 1, e, c)

(* Patterns whose meaning the documented language fixes: every dash inside a
   class stands between two bytes in ascending order and starts no second range. *)
RECURSIVE ClassPlain(_, _, _)
ClassPlain(p, i, e) ==
    IF i >= e THEN TRUE
    ELSE IF At(p, i) = "-" THEN FALSE
    ELSE IF i + 1 < e /\ At(p, i + 1) = "-"
    THEN i + 2 < e /\ At(p, i) \in AsciiSet /\ At(p, i + 2) \in AsciiSet
         /\ ByteOrd(At(p, i)) <= ByteOrd(At(p, i + 2)) /\ ClassPlain(p, i + 3, e)
    ELSE ClassPlain(p, i + 1, e)

ClassStart(p, i) == IF i + 1 <= Len(p) /\ At(p, i + 1) = "^" THEN i + 2 ELSE i + 1

(* position of the first unclosed [ or 0 *)
RECURSIVE Unclosed(_, _)
Unclosed(p, i) ==
    IF i > Len(p) THEN 0
    ELSE IF At(p, i) # "[" THEN Unclosed(p, i + 1)
    ELSE LET e == ClassEnd(p, ClassStart(p, i)) IN IF e = 0 THEN i ELSE Unclosed(p, e + 1)

RECURSIVE PlainFrom(_, _)
PlainFrom(p, i) ==
    IF i > Len(p) THEN TRUE
    ELSE IF At(p, i) # "[" THEN PlainFrom(p, i + 1)
    ELSE LET s == ClassStart(p, i)
             e == ClassEnd(p, s)
         IN e # 0 /\ ClassPlain(p, s, e) /\ PlainFrom(p, e + 1)

Malformed(p) == Unclosed(p, 1) # 0
GlobDefined(p) == Malformed(p) \/ PlainFrom(p, 1)

(* J: the positions of s at which the rest of the pattern, from i on, has to
   match to the end *)
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(p, i, s, J) ==
    IF J = {} THEN FALSE
    ELSE IF i > Len(p) THEN (Len(s) + 1) \in J
    ELSE LET in == J \ {Len(s) + 1}
         IN CASE At(p, i) = "*" -> MatchFrom(p, i + 1, s, Min(J)..(Len(s) + 1))
              [] At(p, i) = "?" -> MatchFrom(p, i + 1, s, {j + 1 : j \in in})
              [] At(p, i) = "[" ->
                   LET st == ClassStart(p, i)
                       e == ClassEnd(p, st)
                       neg == st = i + 2
                   IN MatchFrom(p, e + 1, s, {j + 1 : j \in {x \in in : InClass(p, st, e, At(s, x)) # neg}})
              [] OTHER -> MatchFrom(p, i + 1, s, {j + 1 : j \in {x \in in : At(p, i) = At(s, x)}})

GlobMatch(p, s) == ~Malformed(p) /\ MatchFrom(p, 1, s, {1})
=============================================================================
