------------------------------- MODULE Layout -------------------------------
(* A second definition of the output of parse, by the shape of the text and   *)
(* not by a left-to-right machine: what is kept, what is replaced and where   *)
(* the spaces are (properties C04 and C16).  MCText checks that it agrees     *)
(* with Parser for all texts within its bounds.                               *)
(*                                                                            *)
(* The text is a sequence of stretches: a stretch starts at a number word and *)
(* extends over number words, connectors and blanks up to the token before    *)
(* the next other word or separator, or up to and including the first ordinal.*)
EXTENDS Parser

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* last token of the stretch that starts at a; blanks after it are not counted *)
StretchEnd(kn, a) ==
  LET n == Len(kn)
      stop == {j \in a..n : kn[j] \in {"sep", "other"}}
      ords == {j \in a..n : kn[j] = "ord"}
      e1 == IF stop = {} THEN n ELSE Least(stop) - 1
      e2 == IF ords = {} THEN n ELSE Least(ords)
      e  == IF e1 < e2 THEN e1 ELSE e2
  IN  Largest({j \in a..e : kn[j] # "blank"})

StretchTaken(ts, kn, a, e, l) ==
  LET js == SelectSeq([i \in 1..(e - a + 1) |-> a + i - 1], LAMBDA j : kn[j] # "blank")
  IN  [i \in 1..Len(js) |->
         CASE kn[js[i]] = "card" -> TakeWord(CardWord(ts[js[i]], l))
           [] kn[js[i]] = "ord"  -> TakeWord(OrdWord(ts[js[i]], l))
           [] OTHER -> TakeConn(ts[js[i]].r)]

(* numbers and connectors of a stretch, one space between them *)
StretchText(ts, kn, a, e, l) ==
  LET its == RunItems(StretchTaken(ts, kn, a, e, l), Long[l])
  IN  [i \in 1..(2 * Len(its) - 1) |->
         IF i % 2 = 0 THEN SpacePiece
         ELSE LET x == its[(i + 1) \div 2] IN [c |-> IF x.k = "n" THEN Numeral(x.d) ELSE x.r, s |-> FALSE]]

RECURSIVE LayoutFrom(_, _, _, _)
LayoutFrom(ts, kn, a, l) ==
  IF a > Len(ts) THEN <<>>
  ELSE IF kn[a] \notin {"card", "ord"} THEN <<Piece(ts[a])>> \o LayoutFrom(ts, kn, a + 1, l)
  ELSE LET e == StretchEnd(kn, a)
           body == StretchText(ts, kn, a, e, l)
           later == {j \in (e+1)..Len(ts) : kn[j] # "blank"}
           nxt == IF later = {} THEN Len(ts) + 1 ELSE Least(later)
       IN  IF kn[e] = "ord" THEN body \o LayoutFrom(ts, kn, e + 1, l)   \* white space after an ordinal is kept
           ELSE IF nxt <= Len(ts) /\ kn[nxt] = "sep" /\ nxt = e + 1
                THEN body \o LayoutFrom(ts, kn, nxt, l)                   \* a separator directly after it
           ELSE body \o <<SpacePiece>> \o LayoutFrom(ts, kn, nxt, l)      \* otherwise exactly one space

LayoutParse(cs, l) ==
  LET ts == Tokens(cs, l)
      kn == [i \in 1..Len(ts) |-> Kind(ts[i], l)]
  IN  Flat(StripPieces(LayoutFrom(ts, kn, 1, l)))
=============================================================================
