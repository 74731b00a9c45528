------------------------------- MODULE Denote -------------------------------
(* What a standard spelling means, defined by recursion on the phrase and    *)
(* independently of the left-to-right machine of Builder.                    *)
(*                                                                           *)
(*   number  ::= zero | group [scale number'] ...  with strictly smaller     *)
(*               scales to the right and value(right) < 10^scale             *)
(*   group   ::= [hundreds] [tens unit | tens | unit | direct]   (1..999)    *)
(*   long scale: a group before a scale of 10^6 or more is any number below  *)
(*   10^6 ("tres mil veintitrés millones")                                   *)
(* Den == [ok |-> is a standard spelling, v |-> its value]                   *)
EXTENDS Builder

Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]

IsUnit(w) == w.c = "u" /\ w.d # <<>>

Small(ws) ==
  CASE Len(ws) = 0 -> Good(<<>>)
    [] Len(ws) = 1 -> IF IsUnit(ws[1]) \/ ws[1].c \in {"d", "t"} THEN Good(ws[1].d) ELSE Bad
    [] Len(ws) = 2 -> IF ws[1].c = "t" /\ IsUnit(ws[2]) THEN Good(Add(ws[1].d, ws[2].d)) ELSE Bad
    [] OTHER -> Bad

IsHundred(w) == w.c = "p" /\ w.e = 2
Plus(a, x) == IF x.ok THEN Good(Add(a, x.v)) ELSE Bad

(* below one thousand *)
Sub1000(ws) ==
  IF Len(ws) >= 1 /\ ws[1].c = "h" THEN Plus(ws[1].d, Small(Tail(ws)))
  ELSE IF Len(ws) >= 1 /\ IsHundred(ws[1]) THEN Plus(Pow10(2), Small(Tail(ws)))
  ELSE IF Len(ws) >= 2 /\ IsUnit(ws[1]) /\ IsHundred(ws[2])
       THEN Plus(Shift(ws[1].d, 2), Small(SubSeq(ws, 3, Len(ws))))
  ELSE Small(ws)

ScaleAt(ws) ==  \* index of the largest scale word above 100, 0 if there is none
  LET ps == {i \in 1..Len(ws) : ws[i].c = "p" /\ ws[i].e > 2}
  IN  IF ps = {} THEN 0
      ELSE CHOOSE i \in ps : \A j \in ps : ws[j].e < ws[i].e \/ (ws[j].e = ws[i].e /\ i <= j)

RECURSIVE Below(_, _, _)
(* number below 10^bound *)
Below(ws, bound, long) ==
  LET i == ScaleAt(ws)
  IN  IF i = 0 THEN Sub1000(ws)
      ELSE LET e     == ws[i].e
               left  == IF i = 1 THEN Good(<<1>>)
                        ELSE IF long /\ e >= 6 THEN Below(SubSeq(ws, 1, i - 1), 6, long)
                        ELSE Sub1000(SubSeq(ws, 1, i - 1))
               right == Below(SubSeq(ws, i + 1, Len(ws)), e, long)
               v     == Add(Shift(left.v, e), right.v)
           IN  IF e < bound /\ left.ok /\ left.v # <<>> /\ right.ok
                  /\ LtPow10(right.v, e) /\ LtPow10(v, bound)
               THEN Good(v) ELSE Bad

IsZero(w) == w.c = "u" /\ w.d = <<>>

Denote(ws, long) ==
  IF Len(ws) = 1 /\ IsZero(ws[1]) THEN Good(<<>>)
  ELSE IF ws = <<>> THEN Bad
  ELSE Below(ws, 100000, long)
=============================================================================
