------------------------------- MODULE DataGen -------------------------------
(* The language tables that number_parser_scripts/write_complete_language_    *)
(* data.py generates from the CLDR spell-out rules and the supplementary      *)
(* files (C14).                                                               *)
(*                                                                            *)
(* Texts are sequences of code points; numbers are sequences of decimal       *)
(* digits without leading zeroes (<<0>> for zero), so that nothing is bounded *)
(* by the integers of TLC.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Tables == <<"UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN">>
TableNames == {Tables[i] : i \in 1..5}

(*--------------------------------- texts ----------------------------------*)
LT == 60
GT == 62
EQ == 61
SEMI == 59
SHY == 173
LBRACKET == 91
DOLLAR == 36
LBRACE == 123
RBRACE == 125
SPACE == 32
(* "spellout-cardinal", "spellout-numbering", "cents", "ERROR" *)
CARDINAL == <<115, 112, 101, 108, 108, 111, 117, 116, 45, 99, 97, 114, 100, 105, 110, 97, 108>>
NUMBERING == <<115, 112, 101, 108, 108, 111, 117, 116, 45, 110, 117, 109, 98, 101, 114, 105, 110, 103>>
CENTS == <<99, 101, 110, 116, 115>>
ERROR == <<69, 82, 82, 79, 82>>
Blank == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
HasPart(s, u) == \E i \in 0..(Len(s) - Len(u)) : \A j \in 1..Len(u) : s[i + j] = u[j]
FirstAt(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
LastAt(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in (i + 1)..Len(s) : s[j] # c
Before(s, c) == IF Has(s, c) THEN SubSeq(s, 1, FirstAt(s, c) - 1) ELSE s
After(s, c) == IF Has(s, c) THEN SubSeq(s, LastAt(s, c) + 1, Len(s)) ELSE s
Strip(s) == LET ink == {i \in 1..Len(s) : s[i] \notin Blank}
            IN  IF ink = {} THEN <<>>
                ELSE SubSeq(s, CHOOSE i \in ink : \A j \in ink : i <= j, CHOOSE i \in ink : \A j \in ink : i >= j)
Clean(s) == SelectSeq(s, LAMBDA c : c # SHY /\ c # SEMI)

(*-------------------------------- numbers ---------------------------------*)
IsNumber(k) == k # <<>> /\ \A i \in 1..Len(k) : k[i] \in 48..57
Digits(k) == LET d == [i \in 1..Len(k) |-> k[i] - 48]
                 nz == {i \in 1..Len(d) : d[i] # 0}
             IN  IF nz = {} THEN <<0>> ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
Zeroes(n) == IF n = <<0>> THEN 0
             ELSE Len(n) - (CHOOSE i \in 1..Len(n) : n[i] # 0 /\ \A j \in (i + 1)..Len(n) : n[j] = 0)
Power(k) == <<1>> \o [i \in 1..k |-> 0]

LexLess(a, b) == \* of sequences of numbers
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..m : a[i] # b[i]}
  IN  IF D = {} THEN Len(a) < Len(b)
      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))

(*------------------------------ rule entries ------------------------------*)
(* A rule set counts when it spells cardinals or years ("numbering")          *)
Valid(name) == (HasPart(name, CARDINAL) \/ HasPart(name, NUMBERING)) /\ ~HasPart(name, CENTS)

Entry(t, w, v) == <<t, w, v>>

(* the words between braces, each closed by the next brace *)
RECURSIVE Braced(_, _, _)
Braced(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = LBRACE /\ (\E j \in (i + 1)..Len(s) : s[j] = RBRACE)
       THEN LET j == CHOOSE j \in (i + 1)..Len(s) : s[j] = RBRACE /\ \A k \in (i + 1)..(j - 1) : s[k] # RBRACE
            IN  Braced(s, j + 1, Append(acc, SubSeq(s, i + 1, j - 1)))
       ELSE Braced(s, i + 1, acc)

(* text without substitutions: the word of the number itself, up to 99 *)
Base(n, w) ==
  IF w = <<>> \/ w = ERROR THEN <<>>
  ELSE IF Len(n) = 1 THEN << Entry("UNIT_NUMBERS", w, n) >>
  ELSE IF Len(n) = 2 THEN << Entry("DIRECT_NUMBERS", w, n) >>
  ELSE <<>>

(* "word[ >>]": the word of a multiple of ten or a hundred, to which the rest is added *)
Compound(n, w) ==
  LET root == Strip(IF Has(w, LBRACKET) THEN Before(w, LBRACKET) ELSE Before(w, GT))
  IN  IF root = <<>> \/ n[1] = 1 THEN <<>>
      ELSE IF Zeroes(n) = 1 THEN << Entry("TENS", root, n) >>
      ELSE IF Zeroes(n) = 2 THEN << Entry("HUNDREDS", root, n) >>
      ELSE <<>>

(* "<< word[ >>]": the word of a power of ten, multiplied by what precedes it; *)
(* "<< $(cardinal,one{word}other{words})$[ >>]": its plural forms             *)
Multiplier(n, w) ==
  LET part == After(w, LT)
      word == Strip(IF Has(part, LBRACKET) THEN Before(part, LBRACKET) ELSE Before(part, GT))
  IN  IF part = <<>> \/ part[1] # SPACE \/ Zeroes(n) < 2 THEN <<>>
      ELSE IF Has(part, DOLLAR)
      THEN LET ws == Braced(part, 1, <<>>)
           IN  [i \in 1..Len(ws) |-> Entry("BIG_POWERS_OF_TEN", ws[i], Power(Zeroes(n)))]
      ELSE IF word = <<>> THEN <<>>
      ELSE << Entry("BIG_POWERS_OF_TEN", word, Power(Zeroes(n))) >>

OfRule(k, text) ==
  IF ~IsNumber(k) THEN <<>>
  ELSE LET n == Digits(k)
           w == Clean(text)
           g == Count(w, GT)
           l == Count(w, LT)
       IN  IF Has(w, EQ) THEN <<>>
           ELSE IF g = 0 /\ l = 0 THEN Base(n, w)
           ELSE IF g = 2 /\ l = 0 THEN Compound(n, w)
           ELSE IF g = 2 /\ l = 2 THEN Multiplier(n, w)
           ELSE <<>>

OfRules(sets) ==
  FlattenSeq([i \in 1..Len(sets) |->
    IF Valid(sets[i][1]) THEN FlattenSeq([j \in 1..Len(sets[i][2]) |-> OfRule(sets[i][2][j][1], sets[i][2][j][2])]) ELSE <<>>])

(* the supplementary entries come last and take precedence *)
OfSupplement(supp) ==
  FlattenSeq([t \in 1..5 |-> [i \in 1..Len(supp[Tables[t]]) |-> Entry(Tables[t], supp[Tables[t]][i][1], supp[Tables[t]][i][2])]])

(*-------------------------------- tables ----------------------------------*)
Put(tab, e) == [tab EXCEPT ![e[1]] = (e[2] :> e[3]) @@ @]
Fill(entries) == FoldLeft(Put, [t \in TableNames |-> <<>>], entries)

(* the tables of a language: word -> number; its connectors; its scale *)
Generate(sets, supp) ==
  [tables |-> Fill(OfRules(sets) \o OfSupplement(supp)), skip |-> {supp.SKIP_TOKENS[i] : i \in 1..Len(supp.SKIP_TOKENS)}, long |-> supp.LONG]

Before2(a, b) == NumLess(a[2], b[2]) \/ (a[2] = b[2] /\ LexLess(a[1], b[1]))   \* by value, then word

(* a written table: pairs in order *)
TableOK(pairs, want) ==
  /\ \A i \in 1..(Len(pairs) - 1) : Before2(pairs[i], pairs[i + 1])
  /\ {pairs[i][1] : i \in 1..Len(pairs)} = DOMAIN want
  /\ \A i \in 1..Len(pairs) : pairs[i][2] = want[pairs[i][1]]
SkipOK(ws, supp) ==
  /\ \A i \in 1..(Len(ws) - 1) : ~LexLess(ws[i + 1], ws[i])
  /\ Len(ws) = Len(supp) /\ \A i \in 1..Len(supp) : Count(ws, supp[i]) = Count(supp, supp[i])

Judge(sets, supp, out) ==
  IF out.state # "written" THEN "missing"
  ELSE LET g == Generate(sets, supp)
           bad == {t \in 1..5 : ~TableOK(out[Tables[t]], g.tables[Tables[t]])}
       IN  IF bad # {} THEN Tables[CHOOSE t \in bad : \A u \in bad : t <= u]
           ELSE IF ~SkipOK(out.SKIP_TOKENS, supp.SKIP_TOKENS) THEN "SKIP_TOKENS"
           ELSE IF out.LONG # supp.LONG THEN "USE_LONG_SCALE"
           ELSE IF out.extra # <<>> THEN "extra"
           ELSE "ok"
=============================================================================
