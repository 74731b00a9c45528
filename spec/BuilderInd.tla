----------------------------- MODULE BuilderInd -----------------------------
(* The machine of Builder over plain integers, for words of any number: an    *)
(* inductive invariant, checked by Apalache, shows that it reads standard     *)
(* spellings of ANY length as the number they denote (C01), that connectors   *)
(* never matter (C07), and that a forced boundary always starts a new number  *)
(* (C06) - without the bound on the length of the run that TLC needs.         *)
(*                                                                            *)
(* Next to the machine runs the grammar of standard spellings with the value  *)
(* it denotes; it leaves `std` as soon as the words are not one.              *)
EXTENDS Integers, FiniteSets

CONSTANTS
  \* @type: Bool;
  Long,      \* one thousand stays inside its period
  \* @type: Set(Int);
  Scales,    \* scales above 100
  \* @type: Int;
  Top        \* larger than everything
GroupMax == IF Long THEN 10000 ELSE 100
Classes == {"u", "d", "t", "h", "p"}

VARIABLES
  \* @type: Int;
  tot,
  \* @type: Int;
  grp,
  \* @type: Str;
  prev,
  \* @type: Int;
  pe,      \* the last scale that closed a group (0: none)
  \* @type: Int;
  nums,    \* completed numbers
  \* @type: Bool;
  std,     \* the words read are (the start of) a standard spelling
  \* @type: Int;
  closed,  \* grammar: value of the finished periods
  \* @type: Int;
  last,    \* grammar: scale of the last finished period (Top: none)
  \* @type: Int;
  thou,    \* grammar, long scale: thousands of this period (0: not said)
  \* @type: Int;
  sub,     \* grammar: value of the part below one thousand
  \* @type: Str;
  stage,   \* grammar: where in that part
  \* @type: Str;
  act,     \* what the machine did with the last word
  \* @type: Int;
  w        \* value of the last word
vars == <<tot, grp, prev, pe, nums, std, closed, last, thou, sub, stage, act, w>>

(*---------------------------------- words ---------------------------------*)
(* class c and value v *)
IsWord(c, v) ==
  \/ c = "u" /\ v >= 0 /\ v <= 9
  \/ c = "d" /\ v >= 10 /\ v <= 99
  \/ c = "t" /\ v \in {20, 30, 40, 50, 60, 70, 80, 90}
  \/ c = "h" /\ v \in {100, 200, 300, 400, 500, 600, 700, 800, 900}
  \/ c = "p" /\ v \in Scales
  \/ c = "p" /\ v = 100 /\ ~Long

(*--------------------------------- machine --------------------------------*)
Open == tot + grp
IsLarge(c, v) == c = "p" /\ v # 100 /\ Open # 0 /\ Open < v
Continues(c, v) ==
  \/ prev = "none"
  \/ c = "u" /\ prev \notin {"u", "d"}
  \/ c = "d" /\ prev \notin {"u", "d", "t"}
  \/ c = "t" /\ prev \notin {"u", "d", "t"}
  \/ c = "h" /\ prev = "p"
  \/ c = "p" /\ grp <= v /\ ~(tot # 0 /\ pe # 0 /\ v >= pe)

(* multiplication by one of the scales, case by case so that it stays linear *)
\* @type: (Int, Int) => Int;
Times(x, v) ==
  IF v = 100 THEN 100 * x ELSE IF v = 1000 THEN 1000 * x ELSE IF v = 1000000 THEN 1000000 * x
  ELSE IF v = 100000 THEN 100000 * x ELSE IF v = 10000000 THEN 10000000 * x
  ELSE IF v = 10^11 THEN 10^11 * x
  ELSE IF v = 1000000000 THEN 1000000000 * x ELSE IF v = 10^12 THEN 10^12 * x
  ELSE IF v = 10^15 THEN 10^15 * x
  ELSE IF v = 10^18 THEN 10^18 * x
  ELSE IF v = 10^21 THEN (10^21) * x ELSE IF v = 10^24 THEN (10^24) * x
  ELSE IF v = 10^27 THEN (10^27) * x ELSE IF v = 10^30 THEN (10^30) * x
  ELSE (10^36) * x

\* @type: (Str, Int, Int, Int, Str, Int) => Bool;
Extend(c, v, t0, g0, p0, e0) ==
  LET g1 == IF p0 \in {"none", "p"} /\ g0 = 0 THEN 1 ELSE g0
      gv == Times(g1, v)
  IN  /\ prev' = c
      /\ IF c # "p" THEN tot' = t0 /\ grp' = g0 + v /\ pe' = e0
         ELSE IF v <= GroupMax THEN tot' = t0 /\ grp' = gv /\ pe' = e0
         ELSE tot' = t0 + gv /\ grp' = 0 /\ pe' = v

Machine(c, v) ==
  IF IsLarge(c, v)
  THEN tot' = Times(Open, v) /\ grp' = 0 /\ prev' = "p" /\ pe' = v /\ nums' = nums /\ act' = "Multiply"
  ELSE IF Continues(c, v)
  THEN Extend(c, v, tot, grp, prev, pe) /\ nums' = nums /\ act' = "Continue"
  ELSE Extend(c, v, 0, 0, "none", 0) /\ nums' = nums + 1 /\ act' = "StartNew"

(*--------------------------------- grammar --------------------------------*)
Coefficient == thou + sub
GKeep == closed' = closed /\ last' = last /\ thou' = thou
Sub(v, s) == sub' = v /\ stage' = s /\ std' = TRUE /\ GKeep
Grammar(c, v) ==
  \/ /\ std /\ stage = "S"
     /\ \/ c = "u" /\ v # 0 /\ Sub(v, "U")
        \/ c = "d" /\ Sub(v, "D")
        \/ c = "t" /\ Sub(v, "T")
        \/ c = "h" /\ Sub(v, "H")
        \/ c = "p" /\ v = 100 /\ Sub(100, "H")
  \/ std /\ stage = "U" /\ c = "p" /\ v = 100 /\ Sub(100 * sub, "H")
  \/ std /\ stage = "T" /\ c = "u" /\ v # 0 /\ Sub(sub + v, "X")
  \/ /\ std /\ stage = "H"
     /\ \/ c = "u" /\ v # 0 /\ Sub(sub + v, "HU")
        \/ c = "d" /\ Sub(sub + v, "X")
        \/ c = "t" /\ Sub(sub + v, "HT")
  \/ std /\ stage = "HT" /\ c = "u" /\ v # 0 /\ Sub(sub + v, "X")
  (* a scale ends the period; alone it counts once *)
  \/ /\ std /\ c = "p" /\ v \in Scales /\ v < last /\ ~(Long /\ v = 1000)
     /\ Times(Coefficient, v) < last
     /\ closed' = closed + Times(IF Coefficient = 0 THEN 1 ELSE Coefficient, v)
     /\ last' = v /\ thou' = 0 /\ sub' = 0 /\ stage' = "S" /\ std' = TRUE
  (* long scale: thousands inside the period, once *)
  \/ /\ std /\ Long /\ c = "p" /\ v = 1000 /\ thou = 0
     /\ thou' = 1000 * (IF sub = 0 THEN 1 ELSE sub)
     /\ closed' = closed /\ last' = last /\ sub' = 0 /\ stage' = "S" /\ std' = TRUE
  \/ std' = FALSE /\ closed' = 0 /\ last' = Top /\ thou' = 0 /\ sub' = 0 /\ stage' = "S"

Init == /\ tot = 0 /\ grp = 0 /\ prev = "none" /\ pe = 0 /\ nums = 0 /\ act = "Init" /\ w = 0
        /\ std = TRUE /\ closed = 0 /\ last = Top /\ thou = 0 /\ sub = 0 /\ stage = "S"

Word(c, v) == IsWord(c, v) /\ Machine(c, v) /\ Grammar(c, v) /\ w' = v
Next == \E c \in Classes : \E v \in (0..99) \union {100, 200, 300, 400, 500, 600, 700, 800, 900} \union Scales : Word(c, v)

(*-------------------------------- invariant -------------------------------*)
Stages == {"S", "U", "D", "T", "X", "H", "HU", "HT"}
TypeOK ==
  /\ prev \in {"none"} \union Classes /\ pe \in Scales \union {0} /\ stage \in Stages
  /\ act \in {"Init", "Multiply", "Continue", "StartNew"}
  /\ tot >= 0 /\ grp >= 0 /\ nums >= 0
Bounds ==
  /\ sub >= 0 /\ sub <= 999 /\ closed >= 0
  /\ last \in Scales \union {Top}
  /\ (last = Top) <=> (closed = 0)
  /\ closed # 0 => closed >= last
  /\ stage = "S" => sub = 0
  /\ stage # "S" => sub > 0
  /\ stage = "U" => sub <= 9
  /\ stage \in {"T", "D"} => sub <= 99
  /\ stage = "T" => sub <= 90
  /\ stage = "H" => sub <= 900
  /\ stage = "HT" => sub <= 990
  /\ stage = "HU" => sub <= 909
  /\ IF Long THEN thou >= 0 /\ thou <= 999000 /\ last # 1000 /\ (thou # 0 => thou >= 1000) ELSE thou = 0
(* the class of the previous word *)
PrevOK ==
  /\ stage = "S" => prev = (IF closed = 0 /\ thou = 0 THEN "none" ELSE "p")
  /\ stage = "U" => prev = "u"
  /\ stage = "D" => prev = "d"
  /\ stage \in {"T", "HT"} => prev = "t"
  /\ stage = "X" => prev \in {"u", "d"}
  /\ stage = "HU" => prev = "u"
  /\ stage = "H" => prev \in {"h", "p"}
(* what the machine holds *)
ValueOK ==
  IF Long /\ closed = 0 /\ thou # 0
  THEN \/ tot = thou /\ grp = sub /\ pe = 1000
       \/ tot = 0 /\ grp = thou + sub /\ pe = 0
  ELSE tot = closed /\ grp = thou + sub /\ pe = (IF closed = 0 THEN 0 ELSE last)
IndInv == TypeOK /\ (std => Bounds /\ PrevOK /\ ValueOK /\ nums = 0)

(* C01: whatever its length, a standard spelling is one number, the one it denotes *)
Standard == std => nums = 0 /\ Open = closed + thou + sub
AnyState ==
  /\ tot \in Int /\ grp \in Int /\ nums \in Int /\ pe \in Scales \union {0} /\ prev \in {"none"} \union Classes
  /\ act \in {"Init", "Multiply", "Continue", "StartNew"} /\ std \in BOOLEAN
  /\ w \in Int /\ closed \in Int /\ last \in Scales \union {Top} /\ thou \in Int /\ sub \in Int /\ stage \in Stages
IndInvInit == AnyState /\ IndInv

(*-------------------- laws of one step, from any state at all -------------*)
AnyTyped == AnyState /\ TypeOK
Forced(x, y) == \/ x \in {"u", "d"} /\ y \in {"u", "d", "t"}
                \/ x = "t" /\ y \in {"d", "t"}
                \/ x \notin {"p", "none"} /\ y = "h"
(* C06 *)
ForcedStart == Forced(prev, prev') => act' = "StartNew"
(* C06: a number that was started owes nothing to the words before it *)
Fresh == act' = "StartNew" => tot' + grp' = w' /\ nums' = nums + 1
(* C15 *)
MultiplyLaw == act' = "Multiply" <=> (prev' = "p" /\ w' # 100 /\ Open # 0 /\ Open < w')
MultiplyAll == act' = "Multiply" => tot' + grp' = Times(Open, w')
ScaleLaw == (act' = "Continue" /\ prev' = "p") =>
               \/ tot' + grp' = tot + Times(grp, w')
               \/ grp = 0 /\ prev \in {"none", "p"} /\ tot' + grp' = tot + w'
ScaleGuard == (act' = "Continue" /\ prev' = "p" /\ prev # "none") => grp <= w' /\ (tot = 0 \/ pe = 0 \/ w' < pe)
AddLaw == (act' = "Continue" /\ prev' # "p") => tot' + grp' = Open + w'
Laws == ForcedStart /\ Fresh /\ MultiplyLaw /\ MultiplyAll /\ ScaleLaw /\ ScaleGuard /\ AddLaw
=============================================================================
