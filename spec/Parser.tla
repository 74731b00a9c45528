------------------------------- MODULE Parser -------------------------------
(* The four public functions.                                               *)
EXTENDS Text

TakeWord(w) == [k |-> "w", w |-> w, r |-> <<>>]
TakeConn(r) == [k |-> "s", w |-> NoWord, r |-> r]

(*--------------------------- parse: a transducer --------------------------*)
(* Piece == [c |-> characters, s |-> white space]                           *)
PInit == [out |-> <<>>,     \* pieces written
          taken |-> <<>>,   \* pending number words and connectors
          pop |-> TRUE]     \* does the next token directly follow the last word?

Piece(t) == [c |-> t.r, s |-> t.s]
SpacePiece == [c |-> <<" ">>, s |-> TRUE]

ItemPieces(items) ==
  [i \in 1..(2 * Len(items)) |->
     IF i % 2 = 0 THEN SpacePiece
     ELSE LET x == items[(i + 1) \div 2]
          IN  [c |-> IF x.k = "n" THEN Numeral(x.d) ELSE x.r, s |-> FALSE]]

LastWord(ts) == CHOOSE i \in 1..Len(ts) : ts[i].k = "w" /\ \A j \in (i+1)..Len(ts) : ts[j].k = "s"

(* the items of the pending run; connectors after the last word are kept *)
RunItems(ts, long) ==
  LET n == LastWord(ts)
  IN  Build(SubSeq(ts, 1, n), long)
        \o [i \in 1..(Len(ts) - n) |-> SkipItem(ts[n + i].r)]

Flush(p, direct, l) ==
  IF p.taken = <<>> THEN p
  ELSE LET ps == ItemPieces(RunItems(p.taken, Long[l]))
       IN  [p EXCEPT !.taken = <<>>,
                     !.out = @ \o IF direct THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps]

PBlank(p, t)    == IF p.taken = <<>> THEN [p EXCEPT !.out = Append(@, Piece(t)), !.pop = TRUE]
                   ELSE [p EXCEPT !.pop = FALSE]
PSep(p, t, l)   == LET q == Flush(p, p.pop, l) IN [q EXCEPT !.out = Append(@, Piece(t))]
POrd(p, t, l)   == [Flush([p EXCEPT !.taken = Append(@, TakeWord(OrdWord(t, l)))], TRUE, l)
                      EXCEPT !.pop = TRUE]
PCard(p, t, l)  == [p EXCEPT !.taken = Append(@, TakeWord(CardWord(t, l))), !.pop = TRUE]
PConn(p, t)     == [p EXCEPT !.taken = Append(@, TakeConn(t.r)), !.pop = TRUE]
POther(p, t, l) == LET q == Flush(p, FALSE, l)
                   IN  [q EXCEPT !.out = Append(@, Piece(t)), !.pop = TRUE]

PStep(p, t, l) ==
  LET k == Kind(t, l)
  IN  CASE k = "blank" -> PBlank(p, t)
        [] k = "sep"   -> PSep(p, t, l)
        [] k = "ord"   -> POrd(p, t, l)
        [] k = "card"  -> PCard(p, t, l)
        [] k = "conn" /\ p.taken # <<>> -> PConn(p, t)
        [] OTHER       -> POther(p, t, l)

PFinish(p, l) == Flush(p, FALSE, l).out

StripPieces(ps) ==
  LET ns == {i \in 1..Len(ps) : ~ps[i].s}
  IN  IF ns = {} THEN <<>>
      ELSE SubSeq(ps, CHOOSE i \in ns : \A j \in ns : i <= j,
                      CHOOSE i \in ns : \A j \in ns : j <= i)
Flat(ps) == FoldLeft(LAMBDA a, p : a \o p.c, <<>>, ps)

ParsePieces(cs, l) ==
  StripPieces(PFinish(FoldLeft(LAMBDA p, t : PStep(p, t, l), PInit, Tokens(cs, l)), l))
Parse(cs, l) == Flat(ParsePieces(cs, l))

(*------------------------------- parse_number -----------------------------*)
NoRes  == [t |-> "none", d |-> <<>>]
IntRes(d) == [t |-> "int", d |-> d]

IsDigits(cs) == cs # <<>> /\ \A i \in 1..Len(cs) : Ch(cs[i]).v >= 0
DigitsValue(cs) == Trim([i \in 1..Len(cs) |-> Ch(cs[Len(cs) + 1 - i]).v])

NoApos(cs) == SelectSeq(cs, LAMBDA c : ~Ch(c).q)

(* kinds: sequence of [k |-> kind, w |-> Word, r |-> chars], blanks removed *)
NumberOf(ks, l) ==
  LET n == Len(ks)
      ok == /\ n > 0 /\ ks[1].k = "card"
            /\ \A i \in 1..n : ks[i].k \in {"card", "conn"}
      its == Build([i \in 1..n |-> IF ks[i].k = "card" THEN TakeWord(ks[i].w) ELSE TakeConn(ks[i].r)],
                   Long[l])
  IN  IF ok /\ Len(its) = 1 THEN IntRes(its[1].d) ELSE NoRes

Entry(t, l) == LET k == Kind(t, l)
               IN  [k |-> k, w |-> IF k = "card" THEN CardWord(t, l) ELSE NoWord, r |-> t.r]
Entries(cs, l) ==
  LET ts == SelectSeq(Tokens(cs, l), LAMBDA t : ~t.b)
  IN  [i \in 1..Len(ts) |-> Entry(ts[i], l)]

ParseNumber(cs, l) ==
  LET s == Strip(cs)
  IN  IF s = <<>> THEN NoRes
      ELSE IF IsDigits(s) THEN IntRes(DigitsValue(s))
      ELSE NumberOf(Entries(NoApos(cs), l), l)

(*------------------------------- parse_ordinal ----------------------------*)
(* ordinal words are replaced by their cardinals, then as parse_number      *)
OrdEntry(t, l) == IF Kind(t, l) = "ord" THEN [k |-> "card", w |-> OrdWord(t, l), r |-> t.r]
                  ELSE Entry(t, l)
ParseOrdinal(cs, l) ==
  LET nb == SelectSeq(Tokens(cs, l), LAMBDA t : ~t.b)
      ts == SelectSeq(nb, LAMBDA t : ~(Len(t.r) = 1 /\ Ch(t.r[1]).q))
      s == IF Len(nb) = 1 THEN SelectSeq(nb[1].r, LAMBDA c : Ch(c).f # "") ELSE <<>>
  IN  IF IsDigits(s) THEN IntRes(DigitsValue(s))
      ELSE NumberOf([i \in 1..Len(ts) |-> OrdEntry(ts[i], l)], l)

(*--------------------------- choice of the language -----------------------*)
Recognised(cs, l) ==
  LET ts == Tokens(cs, l)
  IN  Cardinality({i \in 1..Len(ts) : ts[i].k # "" /\ (IsCard(ts[i], l) \/ IsOrd(ts[i], l) \/ IsConn(ts[i], l))})
Detect(cs) ==
  LET n == [i \in 1..5 |-> Recognised(cs, Lang[i])]
      b == CHOOSE i \in 1..5 : \A j \in 1..5 : n[j] < n[i] \/ (n[j] = n[i] /\ i <= j)
  IN  Lang[b]     \* all counts 0: the first, English

(*------------------------------- parse_fraction ---------------------------*)
Separators == << <<"d","i","v","i","d","e","d"," ","b","y">>, <<"o","v","e","r">>, <<"b","y">>, <<"/">> >>

Occurs(cs, sep, i) == /\ i + Len(sep) - 1 <= Len(cs)
                      /\ \A j \in 1..Len(sep) : Ch(cs[i + j - 1]).l = sep[j]
Positions(cs, sep) == {i \in 1..Len(cs) : Occurs(cs, sep, i)}
(* [at, len]: the first occurrence of the first separator that occurs; at = 0: none *)
FractionAt(cs) ==
  LET ss == {k \in 1..4 : Positions(cs, Separators[k]) # {}}
  IN  IF ss = {} THEN [at |-> 0, len |-> 0]
      ELSE LET k == CHOOSE k \in ss : \A j \in ss : k <= j
               ps == Positions(cs, Separators[k])
           IN  [at |-> CHOOSE i \in ps : \A j \in ps : i <= j, len |-> Len(Separators[k])]
Before(cs, f) == SubSeq(cs, 1, f.at - 1)
After(cs, f)  == SubSeq(cs, f.at + f.len, Len(cs))
(* "none" or the characters of N/D *)
ParseFraction(cs, l) ==
  LET f == FractionAt(cs)
      a == ParseNumber(Before(cs, f), l)
      b == ParseNumber(After(cs, f), l)
  IN  IF Strip(cs) = <<>> \/ f.at = 0 THEN [t |-> "none", s |-> <<>>]
      ELSE IF a.t = "int" /\ b.t = "int" THEN [t |-> "str", s |-> Numeral(a.d) \o <<"/">> \o Numeral(b.d)]
      ELSE [t |-> "none", s |-> <<>>]
=============================================================================
