-------------------------------- MODULE Props --------------------------------
(* The listed properties as verdicts on recorded calls of the real code.      *)
(*                                                                            *)
(* Event == [p |-> property, x |-> clause, c |-> calls, g |-> extra chars]    *)
(* Call  == [f |-> function, l |-> language or "auto", i |-> text, r |-> Res] *)
(* Res   == [t |-> "none"|"int"|"str"|"exc"|"timeout"|"other",                *)
(*           d |-> digits of an int, s |-> characters of a str, n |-> name]   *)
(* A verdict is "ok", "skip" (the event is outside the property's premise)    *)
(* or the name of the violated clause.                                        *)
EXTENDS Parser, Denote

(*------------------------------- vocabulary -------------------------------*)
If(b, name) == IF b THEN "ok" ELSE name
First(vs) == \* the first verdict that is not "ok"
  LET bad == {i \in 1..Len(vs) : vs[i] # "ok"}
  IN  IF bad = {} THEN "ok" ELSE vs[CHOOSE i \in bad : \A j \in bad : i <= j]

SameRes(a, b) == a.t = b.t /\ a.d = b.d /\ a.s = b.s /\ a.n = b.n
IsInt(r, d) == r.t = "int" /\ r.d = d
IsNone(r) == r.t = "none"
IsStr(r) == r.t = "str"

NB(cs, l) == SelectSeq(Tokens(cs, l), LAMBDA t : ~t.b)      \* non-blank tokens
Raws(ts) == [i \in 1..Len(ts) |-> ts[i].r]
Keys(ts) == [i \in 1..Len(ts) |-> ts[i].k]
Kinds(ts, l) == [i \in 1..Len(ts) |-> Kind(ts[i], l)]
IsNumTok(t) == t.r # <<>> /\ \A i \in 1..Len(t.r) : t.r[i] \in Range(DigitChar)
IsDigTok(t) == IsDigits(t.r)
NumToks(cs, l) == Raws(SelectSeq(NB(cs, l), IsNumTok))      \* the numbers in an output
NumsAndWords(cs, l) == Raws(SelectSeq(NB(cs, l), LAMBDA t : IsNumTok(t) \/ IsCard(t, l) \/ IsOrd(t, l)))
WordsOf(ks) == [i \in 1..Len(ks) |-> ks[i].w]
CardsOnly(ks) == SelectSeq(ks, LAMBDA k : k.k = "card")

(*-------------------------- C01 cardinal spellings ------------------------*)
C01(e) ==
  LET c == e.c[1]
      ks == Entries(NoApos(c.i), c.l)
      den == Denote(WordsOf(CardsOnly(ks)), Long[c.l])
  IN  IF ks = <<>> \/ ks[1].k # "card" \/ (\E i \in 1..Len(ks) : ks[i].k \notin {"card", "conn"}) \/ ~den.ok
      THEN "skip"
      ELSE If(IsInt(c.r, den.v), "value")

(*------------------------------ C02 ordinals ------------------------------*)
C02(e) ==
  LET c == e.c[1]
      ts == NB(c.i, "en")
      ks == [i \in 1..Len(ts) |-> OrdEntry(ts[i], "en")]
      den == Denote(WordsOf(CardsOnly(ks)), FALSE)
      n == Len(ks)
      plain == n > 0 /\ ks[1].k = "card" /\ \A i \in 1..n : ks[i].k \in {"card", "conn"}
  IN  CASE e.x = "ord" ->
             IF ~plain \/ ~den.ok \/ Kind(ts[n], "en") # "ord"
                \/ \E i \in 1..(n-1) : Kind(ts[i], "en") = "ord"
             THEN "skip" ELSE If(IsInt(c.r, den.v), "ordinal value")
        [] e.x = "card" ->
             IF ~plain \/ e.c[2].i # c.i \/ \E i \in 1..n : Kind(ts[i], "en") = "ord"
             THEN "skip" ELSE If(SameRes(c.r, e.c[2].r), "cardinal read differently by parse_ordinal")
        [] e.x = "same" ->      \* any language; digits and apostrophes apart
             IF e.c[2].i # c.i \/ e.c[2].l # c.l \/ (\E i \in 1..Len(c.i) : Ch(c.i[i]).q \/ Ch(c.i[i]).v >= 0)
                \/ \E i \in 1..Len(NB(c.i, c.l)) : Kind(NB(c.i, c.l)[i], c.l) = "ord"
             THEN "skip" ELSE If(SameRes(c.r, e.c[2].r), "text without ordinals read differently by parse_ordinal")
        [] e.x = "none" ->
             IF \A i \in 1..n : ks[i].k \in {"card", "conn"} THEN "skip"
             ELSE If(IsNone(c.r), "not an ordinal")
        [] e.x = "text" ->
             IF ~IsStr(c.r) THEN "no text"
             ELSE If(NumsAndWords(c.r.s, "en") = NumsAndWords(Parse(c.i, "en"), "en"), "ordinals in text")

(*--------------------------- C03 all or nothing ---------------------------*)
C03(e) ==
  LET c == e.c[1] IN
  IF ParseNumber(c.i, c.l).t = "none" THEN If(IsNone(c.r), "accepted a text that is not one number")
  ELSE If(c.r.t = "int", "rejected a number")

(*----------------------- templates of parse outputs -----------------------*)
(* Item == [k |-> "lit", r |-> chars]  exactly this token                   *)
(*         [k |-> "run", r |-> <<>>]   numbers and connectors, numbers at both ends *)
Lit(r) == [k |-> "lit", r |-> r]
RunI   == [k |-> "run", r |-> <<>>]
IsW(k) == k \in {"card", "ord"}

(* maximal runs of number words and the connectors between them, by position *)
InRun(kn) ==
  LET Rep(n, v) == [i \in 1..n |-> v]
      F(a, k) ==
        IF IsW(k) THEN [res |-> a.res \o Rep(a.pend, TRUE) \o <<TRUE>>, pend |-> 0, open |-> TRUE]
        ELSE IF k = "conn" /\ a.open THEN [a EXCEPT !.pend = @ + 1]
        ELSE [res |-> a.res \o Rep(a.pend, FALSE) \o <<FALSE>>, pend |-> 0, open |-> FALSE]
      z == FoldLeft(F, [res |-> <<>>, pend |-> 0, open |-> FALSE], kn)
  IN  z.res \o Rep(z.pend, FALSE)
Template(ts, kn) ==
  LET inr == InRun(kn)
      F(acc, i) == IF ~inr[i] THEN Append(acc, Lit(ts[i].r))
                   ELSE IF i > 1 /\ inr[i-1] THEN acc ELSE Append(acc, RunI)
  IN  FoldLeft(F, <<>>, [i \in 1..Len(ts) |-> i])

(* Reach(out, l)[p]: the last position of the stretch of numbers and          *)
(* connectors that starts at p (p - 1 if there is none)                       *)
Reach(out, l) ==
  LET n == Len(out)
      F(acc, j) == \* acc: for positions n, n-1, ..., j+1
        LET i == n + 1 - j
            nc == IsNumTok(out[i]) \/ IsConn(out[i], l)
        IN  Append(acc, IF ~nc THEN i - 1 ELSE IF j = 1 THEN n ELSE acc[j - 1])
      z == FoldLeft(F, <<>>, [j \in 1..n |-> j])
  IN  [i \in 1..n |-> z[n + 1 - i]]

(* positions after which the items may have been matched *)
MatchStep(S, item, out, num, reach) ==
  IF item.k = "lit" THEN {p + 1 : p \in {p \in S : p < Len(out) /\ out[p+1].r = item.r}}
  ELSE UNION {{q \in (p+1)..reach[p+1] : num[q]} : p \in {p \in S : p < Len(out) /\ num[p+1]}}
Matches(items, out, l) ==
  LET num == [i \in 1..Len(out) |-> IsNumTok(out[i])]
      reach == Reach(out, l)
  IN  Len(out) \in FoldLeft(LAMBDA S, it : MatchStep(S, it, out, num, reach), {0}, items)

OddBlank(cs, l) == LET ts == Tokens(cs, l)
                   IN  \E i \in 1..Len(ts) : ts[i].b /\ ~ts[i].s    \* lone combining marks

(*--------------------------- C04 text is preserved ------------------------*)
C04(e) ==
  LET c == e.c[1]
      ts == NB(c.i, c.l)
      kn == Kinds(ts, c.l)
  IN  IF ~IsStr(c.r) THEN "no text"
      ELSE IF \A i \in 1..Len(kn) : ~IsW(kn[i])
      THEN If(c.r.s = Strip(NoShy(c.i)), "number-free text changed")
      ELSE IF OddBlank(c.i, c.l) THEN "skip"
      ELSE If(Matches(Template(ts, kn), NB(c.r.s, c.l), c.l), "other text changed")

(*------------------ C05 parse agrees with parse_number --------------------*)
(* calls: parse(s), parse(result), parse_number(phrase) for each cardinal run *)
CardRuns(ts, kn) ==   \* sequence of [a, b] positions of the runs
  LET inr == InRun(kn)
      F(acc, i) == IF ~inr[i] THEN acc
                   ELSE IF i > 1 /\ inr[i-1] THEN [acc EXCEPT ![Len(acc)].b = i]
                   ELSE Append(acc, [a |-> i, b |-> i])
  IN  FoldLeft(F, <<>>, [i \in 1..Len(ts) |-> i])
C05(e) ==
  LET c == e.c[1]
      again == e.c[2]
      ts == NB(c.i, c.l)
      kn == Kinds(ts, c.l)
      runs == CardRuns(ts, kn)
      sub(i) == e.c[2 + i]
      known == /\ Len(e.c) = 2 + Len(runs)
               /\ \A i \in 1..Len(runs) :
                    Keys(NB(sub(i).i, c.l)) = SubSeq(Keys(ts), runs[i].a, runs[i].b)
      \* numbers expected in the output, in order: literal digits, run values, or any for a run
      isv(i) == sub(i).r.t = "int"
      F(acc, j) ==
        IF acc.i <= Len(runs) /\ j = runs[acc.i].a
        THEN [i |-> acc.i + 1,
              its |-> Append(acc.its, IF isv(acc.i) THEN Lit(Numeral(sub(acc.i).r.d)) ELSE RunI)]
        ELSE IF IsNumTok(ts[j]) THEN [acc EXCEPT !.its = Append(@, Lit(ts[j].r))] ELSE acc
      items == FoldLeft(F, [i |-> 1, its |-> <<>>], [j \in 1..Len(ts) |-> j]).its
      onb == NB(c.r.s, c.l)
  IN  IF ~IsStr(c.r) THEN "no text"
      ELSE IF again.i # c.r.s \/ ~known \/ OddBlank(c.i, c.l) THEN "skip"
      ELSE First(<<
        If(Matches(items, SelectSeq(onb, IsNumTok), c.l), "number in the text differs from parse_number"),
        If(\A i \in 1..Len(onb) : ~IsW(Kind(onb[i], c.l)), "number word left in the output"),
        If(IsStr(again.r) /\ again.r.s = c.r.s, "parsing the output again changes it")>>)

(*------------------------ C06 numbers never merge -------------------------*)
Forced(a, b) ==
  \/ a.c \in {"u", "d"} /\ b.c \in {"u", "d", "t"}
  \/ a.c = "t" /\ b.c \in {"d", "t"}
  \/ a.c # "p" /\ b.c = "h"
(* calls: parse(A g B), parse(A), parse(B) *)
C06(e) ==
  LET w == e.c[1]  a == e.c[2]  b == e.c[3]  l == w.l
      ta == NB(a.i, l)  tb == NB(b.i, l)  tg == NB(e.g, l)
      sep == /\ \E i \in 1..Len(tg) : Kind(tg[i], l) \in {"sep", "other"}
             /\ \A i \in 1..Len(tg) : Kind(tg[i], l) \in {"sep", "other", "conn"}
      forced == /\ tg = <<>> /\ Strip(e.g) # e.g /\ ta # <<>> /\ tb # <<>>
                /\ IsCard(ta[Len(ta)], l) /\ IsCard(tb[1], l)
                /\ Forced(CardWord(ta[Len(ta)], l), CardWord(tb[1], l))
  IN  IF w.i # a.i \o e.g \o b.i \/ Raws(NB(w.i, l)) # Raws(ta) \o Raws(tg) \o Raws(tb)
         \/ ~(sep \/ forced) \/ OddBlank(w.i, l)
      THEN "skip"
      ELSE IF ~(IsStr(w.r) /\ IsStr(a.r) /\ IsStr(b.r)) THEN "no text"
      ELSE If(Raws(NB(w.r.s, l)) = Raws(NB(a.r.s, l)) \o Raws(tg) \o Raws(NB(b.r.s, l)),
              IF sep THEN "numbers merged over a separator" ELSE "numbers merged at a forced boundary")

(*----------------------------- C07 connectors -----------------------------*)
Skel(cs, l) == LET ts == SelectSeq(NB(cs, l), LAMBDA t : IsNumTok(t) \/ IsConn(t, l))
               IN  [i \in 1..Len(ts) |-> IF IsNumTok(ts[i]) THEN <<"#">> ELSE ts[i].r]
C07(e) ==
  LET c == e.c[1] IN
  CASE e.x = "num" ->
         LET d == e.c[2]
             kc == Entries(NoApos(c.i), c.l)  kd == Entries(NoApos(d.i), c.l)
         IN  IF kc = <<>> \/ kc[1].k # "card" \/ WordsOf(CardsOnly(kc)) # WordsOf(kd)
                \/ (\E i \in 1..Len(kc) : kc[i].k \notin {"card", "conn"})
                \/ (\E i \in 1..Len(kd) : kd[i].k # "card")
             THEN "skip" ELSE If(SameRes(c.r, d.r), "connector changes the value")
    [] e.x = "text" ->
         IF ~IsStr(c.r) THEN "no text"
         ELSE If(Skel(c.r.s, c.l) = Skel(Parse(c.i, c.l), c.l), "connectors in text")

(*------------------------- C08 choice of language -------------------------*)
(* calls: f(s), f(s, en), f(s, es), f(s, hi), f(s, ru), f(s, uk) *)
C08(e) ==
  LET d == Detect(e.c[1].i)
      k == CHOOSE k \in 2..6 : e.c[k].l = d
  IN  If(SameRes(e.c[1].r, e.c[k].r), "not the result for the best matching language")

(*------------------------ C09 orthographic variants -----------------------*)
Canon(cs, l, f) == Keys(SelectSeq(NB(IF f = "parse" THEN cs ELSE NoApos(cs), l), LAMBDA t : TRUE))
C09(e) ==
  LET a == e.c[1]  b == e.c[2]
      l == IF a.l = "auto" THEN Detect(a.i) ELSE a.l      \* no language given: the one recognised
      ok(c) == \A i \in 1..Len(NB(c.i, l)) :
                  Kind(NB(c.i, l)[i], l) \in {"card", "conn", "ord"}
                  \/ (a.f = "num" /\ \E j \in 1..Len(c.i) : Ch(c.i[j]).q)
  IN  IF e.x = "frac"
      THEN IF [i \in 1..Len(a.i) |-> Ch(a.i[i]).l] # [i \in 1..Len(b.i) |-> Ch(b.i[i]).l] THEN "skip"
           ELSE If(SameRes(a.r, b.r), "letter case changes a fraction")
      ELSE IF a.l = "auto" /\ Detect(b.i) # l THEN "skip"
      ELSE IF Canon(a.i, l, a.f) # Canon(b.i, l, a.f) \/ NB(a.i, l) = <<>> \/ ~ok(a) \/ ~ok(b) THEN "skip"
      ELSE IF a.f = "parse"
      THEN If(IsStr(a.r) /\ IsStr(b.r) /\ NumToks(a.r.s, l) = NumToks(b.r.s, l), "spelling variant changes the numbers")
      ELSE If(SameRes(a.r, b.r), "spelling variant changes the result")

(*------------------------------ C10 fractions -----------------------------*)
(* calls: frac(s, l) [, num(before, l), num(after, l)] *)
C10(e) ==
  LET c == e.c[1]
      f == FractionAt(c.i)
  IN  IF f.at = 0 \/ Strip(c.i) = <<>> THEN If(IsNone(c.r), "fraction without a separator")
      ELSE IF Len(e.c) # 3 \/ e.c[2].i # Before(c.i, f) \/ e.c[3].i # After(c.i, f) THEN "skip"
      ELSE LET a == e.c[2].r  b == e.c[3].r
           IN  IF a.t = "int" /\ b.t = "int"
               THEN If(IsStr(c.r) /\ c.r.s = Numeral(a.d) \o <<"/">> \o Numeral(b.d), "wrong fraction")
               ELSE If(IsNone(c.r), "fraction of something that is not a number")

(*------------------------------ C11 totality ------------------------------*)
NumeralShape(s) == /\ s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Range(DigitChar)
                   /\ (Len(s) > 1 => s[1] # "0")
FractionShape(s) == \E i \in 2..(Len(s) - 1) :
                      s[i] = "/" /\ NumeralShape(SubSeq(s, 1, i-1)) /\ NumeralShape(SubSeq(s, i+1, Len(s)))
Shape(f, r) ==
  CASE f = "parse" -> r.t = "str"
    [] f \in {"num", "ord"} -> r.t \in {"int", "none"}
    [] f = "frac" -> r.t = "none" \/ (r.t = "str" /\ FractionShape(r.s))
NeedsWords(cs) == Strip(cs) # <<>> /\ ~IsDigits(Strip(cs))
C11(e) ==
  LET c == e.c[1] IN
  CASE e.x = "total" -> If(Shape(c.f, c.r), "no answer of the right kind")
    [] e.x = "lang" ->
         LET verr == c.r.t = "exc" /\ c.r.n = "ValueError"
             fa == FractionAt(c.i)
         IN  CASE c.f \in {"parse", "ord"} -> If(verr, "unsupported language accepted")
               [] c.f = "num" -> IF NeedsWords(c.i) THEN If(verr, "unsupported language accepted")
                                 ELSE If(Shape(c.f, c.r), "no answer of the right kind")
               [] c.f = "frac" ->
                    IF Strip(c.i) # <<>> /\ fa.at # 0 /\ (NeedsWords(Before(c.i, fa)) \/ NeedsWords(After(c.i, fa)))
                    THEN If(verr, "unsupported language accepted")
                    ELSE If(Shape(c.f, c.r), "no answer of the right kind")

(*------------------------------ C13 vocabulary ----------------------------*)
C13(e) ==
  LET c == e.c[1]
      ts == NB(NoApos(c.i), c.l)
  IN  IF Len(ts) # 1 \/ IsDigits(Strip(c.i)) THEN "skip"
      ELSE LET t == ts[1] IN
        CASE c.f = "num" ->
               IF IsCard(t, c.l)
               THEN If(IsInt(c.r, IF CardWord(t, c.l).c = "p" THEN Pow10(CardWord(t, c.l).e) ELSE CardWord(t, c.l).d),
                       "word has another value")
               ELSE If(IsNone(c.r), "foreign word read as a number")
          [] c.f = "parse" ->
               IF ~IsStr(c.r) THEN "no text"
               ELSE If(c.r.s = Parse(c.i, c.l), "word converted differently")

(*--------------------------- C15 composition law --------------------------*)
ZeroScales(ws) == \E i \in 1..(Len(ws) - 2) : ws[i].c = "u" /\ ws[i].d = <<>> /\ ws[i+1].c = "p" /\ ws[i+2].c = "p"
C15(e) ==
  LET c == e.c[1]
      ks == Entries(c.i, c.l)
  IN  IF ZeroScales(WordsOf(CardsOnly(ks))) \/ ks = <<>> \/ ks[1].k # "card" \/ \E i \in 1..Len(ks) : ks[i].k \notin {"card", "conn"} THEN "skip"
      ELSE CASE c.f = "num" ->
                  LET x == ParseNumber(c.i, c.l)
                  IN  If(c.r.t = x.t /\ c.r.d = x.d, "composed differently")
             [] c.f = "parse" ->
                  IF ~IsStr(c.r) THEN "no text"
                  ELSE If(NumToks(c.r.s, c.l) = NumToks(Parse(c.i, c.l), c.l), "composed differently")

(*------------------------------ C16 white space ---------------------------*)
(* Compared only if everything but white space is as specified.  White space *)
(* between a number and a mark other than . or , is not constrained.         *)
C16(e) ==
  LET c == e.c[1]
      x == Parse(c.i, c.l)
  IN  IF ~IsStr(c.r) THEN "no text"
      ELSE IF NonSpace(c.r.s) # NonSpace(x) THEN "skip"
      ELSE If(c.r.s = x, "white space")

(*------------------------------- C17 digits -------------------------------*)
C17(e) ==
  LET c == e.c[1]
      s == Strip(c.i)
      ts == NB(c.i, c.l)
      kn == Kinds(ts, c.l)
      \* template of the numeric tokens of the output
      items == SelectSeq(Template(ts, kn), LAMBDA it : it.k = "run" \/ IsDigits(it.r))
  IN  CASE e.x = "num" -> IF ~IsDigits(s) THEN "skip" ELSE If(IsInt(c.r, DigitsValue(s)), "digits misread")
        [] e.x = "mix" -> IF IsDigits(s) \/ ~\E i \in 1..Len(s) : Ch(s[i]).v >= 0 THEN "skip"
                          ELSE If(IsNone(c.r), "digits mixed with other text read as a number")
        [] e.x = "text" ->
             IF ~IsStr(c.r) THEN "no text"
             ELSE IF OddBlank(c.i, c.l) THEN "skip"
             ELSE If(Matches(items, SelectSeq(NB(c.r.s, c.l), IsDigTok), c.l), "digits changed or combined")

(*--------------- full conformance of one call (not a property) ------------*)
Full(e) ==
  LET c == e.c[1]
      l == IF c.l = "auto" THEN Detect(c.i) ELSE c.l
  IN  CASE c.f = "parse" -> If(c.r.t = "str" /\ c.r.s = Parse(c.i, l), "parse differs from the specification")
        [] c.f = "num" -> LET x == ParseNumber(c.i, l)
                          IN  If(c.r.t = x.t /\ c.r.d = x.d, "parse_number differs from the specification")
        [] c.f = "ord" -> LET x == ParseOrdinal(c.i, l)
                          IN  If(c.r.t = x.t /\ c.r.d = x.d, "parse_ordinal differs from the specification")
        [] OTHER -> LET x == ParseFraction(c.i, l)
                    IN  If(c.r.t = x.t /\ c.r.s = x.s, "parse_fraction differs from the specification")

Verdict(e) ==
  CASE e.p = "C01" -> C01(e) [] e.p = "C02" -> C02(e) [] e.p = "C03" -> C03(e) [] e.p = "C04" -> C04(e)
    [] e.p = "C05" -> C05(e) [] e.p = "C06" -> C06(e) [] e.p = "C07" -> C07(e) [] e.p = "C08" -> C08(e)
    [] e.p = "C09" -> C09(e) [] e.p = "C10" -> C10(e) [] e.p = "C11" -> C11(e) [] e.p = "C13" -> C13(e)
    [] e.p = "C15" -> C15(e) [] e.p = "C16" -> C16(e) [] e.p = "C17" -> C17(e) [] e.p = "FULL" -> Full(e)
=============================================================================
