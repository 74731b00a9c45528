-------------------------------- MODULE Text --------------------------------
(* From text (a sequence of characters) to tokens.                          *)
(* Token == [r |-> raw characters, k |-> folded spelling (string),          *)
(*           b |-> the fold is blank, s |-> the raw text is white space]    *)
EXTENDS Lexicon

Ch(c) == Chars[c]

EmptyTok == [r |-> <<>>, k |-> "", b |-> TRUE, s |-> TRUE]
Put(t, c) == [r |-> Append(t.r, c), k |-> t.k \o Ch(c).f,
              b |-> t.b /\ Ch(c).b, s |-> t.s /\ Ch(c).s]
Single(c) == Put(EmptyTok, c)

NoShy(cs) == SelectSeq(cs, LAMBDA c : ~Ch(c).z)

(* words and combining accents form words, every other character is a token *)
(* of its own; between two such characters there is an empty word           *)
TokensByWord(cs) ==
  LET F(a, c) == IF Ch(c).z THEN a
                 ELSE IF Ch(c).w THEN [a EXCEPT !.cur = Put(@, c)]
                 ELSE [ts |-> a.ts \o <<a.cur, Single(c)>>, cur |-> EmptyTok]
      z == FoldLeft(F, [ts |-> <<>>, cur |-> EmptyTok], cs)
  IN  Append(z.ts, z.cur)

(* Hindi: words are separated by white space only *)
TokensBySpace(cs) ==
  LET F(a, c) ==
        IF Ch(c).z THEN a
        ELSE IF Ch(c).s = a.insp THEN [a EXCEPT !.cur = Put(@, c)]
        ELSE [ts |-> Append(a.ts, a.cur), cur |-> Single(c), insp |-> Ch(c).s]
      z == FoldLeft(F, [ts |-> <<>>, cur |-> EmptyTok, insp |-> FALSE], cs)
  IN  IF z.insp THEN z.ts \o <<z.cur, EmptyTok>> ELSE Append(z.ts, z.cur)

Tokens(cs, l) == IF l = "hi" THEN TokensBySpace(cs) ELSE TokensByWord(cs)

Strip(cs) ==
  LET ns == {i \in 1..Len(cs) : ~Ch(cs[i]).s}
  IN  IF ns = {} THEN <<>>
      ELSE SubSeq(cs, CHOOSE i \in ns : \A j \in ns : i <= j,
                      CHOOSE i \in ns : \A j \in ns : j <= i)

NonSpace(cs) == SelectSeq(cs, LAMBDA c : ~Ch(c).s)

(* what kind of token is it in language l *)
IsCard(t, l) == t.k \in WDom[l]
IsConn(t, l) == t.k \in Conn[l]
IsOrd(t, l)  == t.k \in OrdDom /\ OrdOf[t.k] \in WDom[l]
IsSep(t)     == t.k \in {".", ","}
Kind(t, l) == IF t.b THEN "blank"
              ELSE IF IsSep(t) THEN "sep"
              ELSE IF IsCard(t, l) THEN "card"
              ELSE IF IsOrd(t, l) THEN "ord"
              ELSE IF IsConn(t, l) THEN "conn"
              ELSE "other"
CardWord(t, l) == Words[l][t.k]
OrdWord(t, l)  == Words[l][OrdOf[t.k]]
=============================================================================
