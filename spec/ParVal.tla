------------------------------- MODULE ParVal -------------------------------
(* Strings and parameter values, shared by the parameter specifications.     *)
EXTENDS Sequences, Integers, TLC

Ch(s, i) == SubSeq(s, i, i)                 \* i-th character of a string
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
IsSub(p, s) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
IsDigit(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c

(* A value that is exactly one of these words denotes the number and is      *)
(* stored as its decimal expansion.                                          *)
Translate(v) ==
  CASE v = "pi"    -> "3.141592653589793116e+00"
    [] v = "-pi"   -> "-3.141592653589793116e+00"
    [] v = "pi/2"  -> "1.570796326794896558e+00"
    [] v = "-pi/2" -> "-1.570796326794896558e+00"
    [] v = "2*pi"  -> "6.283185307179586232e+00"
    [] v = "-2*pi" -> "-6.283185307179586232e+00"
    [] OTHER -> v

(* Leading integer of a text, C convention: blanks, optional sign, digits.   *)
RECURSIVE SkipBlank(_)
SkipBlank(s) == IF s # "" /\ Ch(s, 1) = " " THEN SkipBlank(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) == IF s # "" /\ IsDigit(Ch(s, 1))
                     THEN DigitsVal(SubSeq(s, 2, Len(s)), 10 * acc + DigitVal(Ch(s, 1))) ELSE acc
IntOf(v) ==
  LET s == SkipBlank(v) IN
  IF s = "" THEN 0
  ELSE IF Ch(s, 1) = "-" THEN -DigitsVal(SubSeq(s, 2, Len(s)), 0)
  ELSE IF Ch(s, 1) = "+" THEN DigitsVal(SubSeq(s, 2, Len(s)), 0)
  ELSE DigitsVal(s, 0)

TrueWords == {"yes", "Yes", "YES", "on", "On", "ON", "true", "True", "TRUE"}
BoolOf(v) == IF \E w \in TrueWords : IsSub(w, v) THEN 1 ELSE IntOf(v)

(* blank separated words of a text; NextBlank(s) = position of first blank   *)
RECURSIVE Words(_)
Words(s) ==
  IF s = "" THEN <<>>
  ELSE LET bl == {i \in 1..Len(s) : Ch(s, i) = " "} IN
       IF bl = {} THEN <<s>>
       ELSE LET b == CHOOSE i \in bl : \A j \in bl : i <= j IN
            <<SubSeq(s, 1, b - 1)>> \o Words(SubSeq(s, b + 1, Len(s)))

(* value w occurs in s delimited by blanks or the ends                       *)
HasWord(s, w) ==
  \E i \in 1..(Len(s) - Len(w) + 1) :
     /\ SubSeq(s, i, i + Len(w) - 1) = w
     /\ (i = 1 \/ Ch(s, i - 1) = " ")
     /\ (i + Len(w) - 1 = Len(s) \/ Ch(s, i + Len(w)) = " ")
=============================================================================
