------------------------------ MODULE Builder ------------------------------
(* The machine that composes the number words of one run into numbers.      *)
(* It reads the run word by word, without look-ahead, and has one open      *)
(* number: `tot`, the value of its closed groups, and `grp`, the value of   *)
(* the open group.  A word either continues the open number or completes it *)
(* and starts the next one.                                                 *)
(*                                                                          *)
(* Word  == [c |-> class, d |-> value (Dec), e |-> exponent of a scale]     *)
(*   class "u" unit (0..9)      "d" direct number (10..99)                  *)
(*         "t" tens (20..90)    "h" hundreds word (100..900)                *)
(*         "p" scale word 10^e (e >= 2)                                     *)
(* Item  == [k |-> "n", d |-> Dec, r |-> <<>>]   a completed number         *)
(*          [k |-> "s", d |-> <<>>, r |-> chars] a connector that was kept  *)
EXTENDS Dec

Word(c, d, e) == [c |-> c, d |-> d, e |-> e]
NumItem(d)    == [k |-> "n", d |-> d, r |-> <<>>]
SkipItem(r)   == [k |-> "s", d |-> <<>>, r |-> r]

BInit == [tot  |-> <<>>,     \* value of the closed groups
          grp  |-> <<>>,     \* value of the open group
          prev |-> "none",   \* class of the previous word of this number
          pe   |-> 0,        \* exponent of the last scale that closed a group (0: none)
          out  |-> <<>>,     \* completed numbers and kept connectors
          sk   |-> <<>>]     \* connectors seen since the last word

(* largest exponent that stays inside the open group *)
GroupExp(long) == IF long THEN 4 ELSE 2

Open(b) == Add(b.tot, b.grp)

(* A scale word larger than all that was said multiplies all of it. *)
IsLarge(b, w) ==
  /\ w.c = "p" /\ w.e # 2
  /\ LET v == Open(b) IN v # <<>> /\ LtPow10(v, w.e)

(* Can w be added to the open number? (only asked when ~IsLarge) *)
Continues(b, w) ==
  CASE b.prev = "none" -> TRUE
    [] w.c = "u" -> b.prev \notin {"u", "d"}
    [] w.c = "d" -> b.prev \notin {"u", "d", "t"}
    [] w.c = "t" -> b.prev \notin {"u", "d", "t"}
    [] w.c = "h" -> b.prev = "p"
    [] w.c = "p" -> /\ ~GtPow10(b.grp, w.e)
                    /\ ~(b.tot # <<>> /\ b.pe # 0 /\ w.e >= b.pe)

(*------------------------------- the actions ------------------------------*)
Multiply(b, w) == [b EXCEPT !.tot = Shift(Open(b), w.e), !.grp = <<>>,
                            !.prev = "p", !.pe = w.e, !.sk = <<>>]

Complete(b) == [BInit EXCEPT !.out = b.out \o <<NumItem(Open(b))>>
                                       \o [i \in 1..Len(b.sk) |-> SkipItem(b.sk[i])]]

AddSmall(b, w) == [b EXCEPT !.grp = Add(b.grp, w.d), !.prev = w.c, !.sk = <<>>]

Scaled(b, w) == LET g == IF b.prev \in {"none", "p"} /\ b.grp = <<>> THEN <<1>> ELSE b.grp
                IN  Shift(g, w.e)

ScaleGroup(b, w) == [b EXCEPT !.grp = Scaled(b, w), !.prev = "p", !.sk = <<>>]

CloseGroup(b, w) == [b EXCEPT !.tot = Add(b.tot, Scaled(b, w)), !.grp = <<>>,
                              !.prev = "p", !.pe = w.e, !.sk = <<>>]

Extend(b, w, long) == IF w.c # "p" THEN AddSmall(b, w)
                      ELSE IF w.e <= GroupExp(long) THEN ScaleGroup(b, w)
                      ELSE CloseGroup(b, w)

(* one word *)
BWord(b, w, long) ==
  IF IsLarge(b, w) THEN Multiply(b, w)
  ELSE IF Continues(b, w) THEN Extend(b, w, long)
  ELSE Extend(Complete(b), w, long)

(* one connector, r its spelling *)
BSkip(b, r) == [b EXCEPT !.sk = Append(@, r)]

(* end of the run: connectors after the last word are not part of it *)
BFinish(b) == Append(b.out, NumItem(Open(b)))

(* Taken == [k |-> "w", w |-> Word, r |-> <<>>] or [k |-> "s", w |-> NoWord, r |-> chars] *)
BStep(b, t, long) == IF t.k = "s" THEN BSkip(b, t.r) ELSE BWord(b, t.w, long)

Build(ts, long) == BFinish(FoldLeft(LAMBDA b, t : BStep(b, t, long), BInit, ts))

Numbers(items) == LET ns == SelectSeq(items, LAMBDA x : x.k = "n")
                  IN  [i \in 1..Len(ns) |-> ns[i].d]
=============================================================================
