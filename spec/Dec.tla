-------------------------------- MODULE Dec --------------------------------
(* Natural numbers of any size as decimal digits, least significant first,  *)
(* without leading zeros: 0 is <<>>, 120 is <<0,2,1>>.  TLC integers have   *)
(* 32 bits; the library computes with values up to about 10^1200.           *)
EXTENDS Naturals, Sequences, SequencesExt

IsDec(a) == a = <<>> \/ a[Len(a)] # 0

Zeros(n) == [i \in 1..n |-> 0]

(* a * 10^e *)
Shift(a, e) == IF a = <<>> THEN <<>> ELSE Zeros(e) \o a

Pow10(e) == Shift(<<1>>, e)

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

Add(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
           F(acc, i) == LET s == Digit(a, i) + Digit(b, i) + acc.c
                        IN  [r |-> Append(acc.r, s % 10), c |-> s \div 10]
           z == FoldLeft(F, [r |-> <<>>, c |-> 0], [i \in 1..n |-> i])
       IN  IF z.c = 0 THEN z.r ELSE Append(z.r, z.c)

(* a < 10^e,  a > 10^e *)
LtPow10(a, e) == Len(a) <= e
GtPow10(a, e) == Len(a) > e + 1 \/ (Len(a) = e + 1 /\ a # Pow10(e))

(* a < b *)
Lt(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i+1)..Len(a) : a[j] = b[j]

Trim(a) ==  \* drop leading zeros (at the end of the sequence)
  LET nz == {i \in 1..Len(a) : a[i] # 0}
  IN  IF nz = {} THEN <<>>
      ELSE SubSeq(a, 1, CHOOSE i \in nz : \A j \in nz : j <= i)

DigitChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>

(* the decimal numeral as a sequence of characters, most significant first *)
Numeral(a) == IF a = <<>> THEN <<"0">>
              ELSE [i \in 1..Len(a) |-> DigitChar[a[Len(a) + 1 - i] + 1]]
=============================================================================
