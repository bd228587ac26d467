-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Exact signed decimal integers as canonical strings ("0", "17", "-3"),   *)
(* wide enough for sums of 64-bit numbers.  TLC's own integers have 32     *)
(* bits, so counters, amounts and deadlines are kept in this form.         *)
(***************************************************************************)
EXTENDS Bytes

NaN == "NaN"
Base == 100000000            \* 8 digits per limb
MaxInt64 == "9223372036854775807"
MinInt64 == "-9223372036854775808"

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

IsNeg(a) == At(a, 1) = "-"
Mag(a) == IF IsNeg(a) THEN SubSeq(a, 2, Len(a)) ELSE a
Small(a) == Len(a) <= 8

(* canonical string -> TLC integer, for at most 9 digits *)
IntOf(a) == IF IsNeg(a) THEN -NatOf(Mag(a)) ELSE NatOf(a)

Limb(m, j) == \* j-th limb from the right, j = 0, 1, 2
    LET hi == Len(m) - 8 * j
        lo == IF hi - 7 < 1 THEN 1 ELSE hi - 7
    IN IF hi < 1 THEN 0 ELSE NatOf(SubSeq(m, lo, hi))
Limbs(m) == <<Limb(m, 0), Limb(m, 1), Limb(m, 2)>>

Pad8(n) == LET s == ToString(n) IN Repeat("0", 8 - Len(s)) \o s
FromLimbs(l) == StripZeros(ToString(l[3]) \o Pad8(l[2]) \o Pad8(l[1]))

MagLt(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE LET x == Limbs(a)
             y == Limbs(b)
         IN \/ x[3] < y[3]
            \/ x[3] = y[3] /\ x[2] < y[2]
            \/ x[3] = y[3] /\ x[2] = y[2] /\ x[1] < y[1]

MagAdd(a, b) ==
    LET x == Limbs(a)
        y == Limbs(b)
        s1 == x[1] + y[1]
        s2 == x[2] + y[2] + s1 \div Base
        s3 == x[3] + y[3] + s2 \div Base
    IN FromLimbs(<<s1 % Base, s2 % Base, s3>>)

MagSub(a, b) == \* a >= b
    LET x == Limbs(a)
        y == Limbs(b)
        b1 == IF x[1] < y[1] THEN 1 ELSE 0
        s1 == x[1] - y[1] + b1 * Base
        b2 == IF x[2] - b1 < y[2] THEN 1 ELSE 0
        s2 == x[2] - b1 - y[2] + b2 * Base
        s3 == x[3] - b2 - y[3]
    IN FromLimbs(<<s1, s2, s3>>)

Neg(a) == IF a = "0" THEN a ELSE IF IsNeg(a) THEN Mag(a) ELSE "-" \o a

DecLt(a, b) ==
    IF Small(a) /\ Small(b) THEN IntOf(a) < IntOf(b)
    ELSE IF IsNeg(a) # IsNeg(b) THEN IsNeg(a)
    ELSE IF IsNeg(a) THEN MagLt(Mag(b), Mag(a)) ELSE MagLt(a, b)

DecAdd(a, b) ==
    IF Small(a) /\ Small(b) THEN ToString(IntOf(a) + IntOf(b))
    ELSE IF IsNeg(a) = IsNeg(b)
         THEN IF IsNeg(a) THEN Neg(MagAdd(Mag(a), Mag(b))) ELSE MagAdd(a, b)
         ELSE LET p == IF IsNeg(a) THEN b ELSE a        \* the non-negative one
                  n == Mag(IF IsNeg(a) THEN a ELSE b)
              IN IF MagLt(p, n) THEN Neg(MagSub(n, p)) ELSE MagSub(p, n)

DecSub(a, b) == DecAdd(a, Neg(b))

InInt64(a) == ~DecLt(a, MinInt64) /\ ~DecLt(MaxInt64, a)

(* the numbers that occur most, looked up instead of computed *)
Common == TLCEval([x \in {ToString(i) : i \in -30..130} |-> CHOOSE i \in -30..130 : ToString(i) = x])
CommonDom == TLCEval(DOMAIN Common)

(* The 64-bit integer a string denotes, or NaN: optional sign and digits. *)
ParseDec(s) ==
    IF s \in CommonDom THEN s
    ELSE IF Len(s) = 0 \/ Len(s) > 60 THEN NaN
    ELSE LET sgn == At(s, 1) \in {"+", "-"}
             d   == IF sgn THEN SubSeq(s, 2, Len(s)) ELSE s
         IN IF ~IsDigits(d) THEN NaN
            ELSE LET m == StripZeros(d)
                     v == IF At(s, 1) = "-" /\ m # "0" THEN "-" \o m ELSE m
                 IN IF Len(m) > 19 \/ ~InInt64(v) THEN NaN ELSE v

IsInt(s) == ParseDec(s) # NaN
(* The integer as a TLC integer, clamped: every length and index that can
   occur is far below the clamp, so comparisons come out the same. *)
CLAMP == 1000000000
IntArg(s) == IF s \in CommonDom THEN Common[s] ELSE LET v == ParseDec(s)
             IN IF Len(Mag(v)) <= 9 THEN IntOf(v) ELSE IF IsNeg(v) THEN -CLAMP ELSE CLAMP

(***************************************************************************)
(* Decimal fractions: multiples of 1/8 with at most 14 digits before the   *)
(* point, where binary floating point is exact.  A fraction is kept as the *)
(* canonical decimal string of its thousandths.                            *)
(***************************************************************************)
FUnknown == "FUnknown"       \* a number outside the modelled range
FBad == "FBad"               \* not a number

NonNumbers == {"", "abc", "nan", "NaN", "inf", "-inf", "Inf", "infinity", "1e400", "1.2.3", "--1", "0x", " 1", "1 ", "1,5", "."}
HugePos == {"1.7e308"}       \* the sum of two of these is infinite
(* characters that can occur in a number as Go reads it: anything else in the
   string makes it a non-number; so does the absence of any digit *)
NumChars == {At("0123456789+-.eExXpP_abcdfABCDFinINtyTY", i) : i \in 1..38}
ClearlyBad(s) == Len(s) < 40 /\ (\/ \E i \in 1..Len(s) : At(s, i) \notin NumChars
                                \/ /\ \A i \in 1..Len(s) : At(s, i) \notin DigitSet
                                   /\ \A i \in 1..Len(s) : At(s, i) \notin {"i", "I", "n", "N"})
(* the exponent forms that are modelled *)
Exps == [x \in {"1e3", "5e2", "25e-2", "1E1", "-2e1", "1.5e2"} |->
           CASE x = "1e3" -> "1000" [] x = "5e2" -> "500" [] x = "25e-2" -> "0.25" [] x = "1E1" -> "10"
             [] x = "-2e1" -> "-20" [] x = "1.5e2" -> "150"]
Dot(s) == IF \E i \in 1..Len(s) : At(s, i) = "." THEN CHOOSE i \in 1..Len(s) : At(s, i) = "." ELSE Len(s) + 1
RECURSIVE FloatOf(_)
FloatOf(s) ==
    IF s \in NonNumbers \/ ClearlyBad(s) THEN FBad
    ELSE IF s \in DOMAIN Exps THEN FloatOf(Exps[s])
    ELSE IF Len(s) > 20 THEN FUnknown
    ELSE LET neg == At(s, 1) = "-"
             u == IF At(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
             p == Dot(u)
             ip == SubSeq(u, 1, p - 1)
             fp == SubSeq(u, p + 1, Len(u))
             ok == IsDigits(ip) /\ Len(ip) <= 14 /\ (p > Len(u) \/ (IsDigits(fp) /\ Len(fp) <= 3))
         IN IF ~ok THEN FUnknown
            ELSE LET f3 == IF p > Len(u) THEN "000" ELSE fp \o Repeat("0", 3 - Len(fp))
                     v == StripZeros(ip \o f3)
                 IN IF NatOf(f3) % 125 # 0 \/ (neg /\ v = "0") THEN FUnknown ELSE IF neg THEN "-" \o v ELSE v

FloatStr(n) ==
    LET a == Mag(n)
        z == Repeat("0", 4 - Len(a)) \o a
        ip == SubSeq(z, 1, Len(z) - 3)
        f3 == SubSeq(z, Len(z) - 2, Len(z))
        fr == NatOf(f3)
        fs == IF fr = 0 THEN "" ELSE IF fr % 100 = 0 THEN "." \o SubSeq(f3, 1, 1)
              ELSE IF fr % 10 = 0 THEN "." \o SubSeq(f3, 1, 2) ELSE "." \o f3
    IN (IF IsNeg(n) THEN "-" ELSE "") \o ip \o fs
=============================================================================
