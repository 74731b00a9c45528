------------------------------- MODULE MCSame -------------------------------
(* BuilderInd (integers, proved for runs of any length) and Builder (digit     *)
(* sequences, replayed in the code) are the same machine: both read all runs   *)
(* of up to N words over letters whose values fit TLC's integers.              *)
EXTENDS Builder
CONSTANTS Scheme, N
VARIABLES b, n, tot, grp, prev, pe, nums, std, closed, last, thou, sub, stage, act, w
IsLong == Scheme = "long"
I == INSTANCE BuilderInd WITH Long <- IsLong, Scales <- {1000, 100000}, Top <- 2000000000

Letters == {<<"u", 0, 0>>, <<"u", 7, 0>>, <<"d", 12, 0>>, <<"t", 20, 0>>, <<"p", 1000, 3>>}
           \union (IF IsLong THEN {} ELSE {<<"p", 100, 2>>})
           \union (IF Scheme = "indian" THEN {<<"p", 100000, 5>>} ELSE {<<"h", 300, 0>>})
RECURSIVE DigitsOf(_)
DigitsOf(x) == IF x = 0 THEN <<>> ELSE <<x % 10>> \o DigitsOf(x \div 10)
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE d[1] + 10 * ToInt(Tail(d))
RECURSIVE Pow(_)
Pow(e) == IF e = 0 THEN 1 ELSE 10 * Pow(e - 1)
WordOf(x) == IF x[1] = "p" THEN Word("p", <<1>>, x[3]) ELSE Word(x[1], DigitsOf(x[2]), 0)

SInit == I!Init /\ b = BInit /\ n = 0
SNext == /\ n < N /\ n' = n + 1
         /\ \E x \in Letters : /\ I!Machine(x[1], x[2])
                               /\ b' = BWord(b, WordOf(x), IsLong)
                               /\ w' = x[2]
         /\ UNCHANGED <<std, closed, last, thou, sub, stage>>
Same == /\ ToInt(b.tot) = tot /\ ToInt(b.grp) = grp /\ b.prev = prev
        /\ pe = (IF b.pe = 0 THEN 0 ELSE Pow(b.pe)) /\ Len(b.out) = nums
=============================================================================
