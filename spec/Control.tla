------------------------------- MODULE Control ------------------------------
(* The control of the transducer of Parser (parse), without the characters:   *)
(* finitely many states, so TLC's exploration covers texts of ANY length.     *)
(*                                                                            *)
(* Next to the machine (run, trail, pop, and what it wrote for the last       *)
(* token, em) runs the reading of the same tokens by the rules of C04, C07    *)
(* and C16, which speak of the text only: is a number expression open, was    *)
(* there white space since its last token, is a connector waiting.            *)
EXTENDS Naturals, Sequences

Kinds6 == {"card", "ord", "conn", "sep", "blank", "other"}

VARIABLES run, trail, pop, em,           \* the machine
          open, last, gapped, inp, was   \* the text: open expression, its last token, white space behind it; last token; open before it
vars == <<run, trail, pop, em, open, last, gapped, inp, was>>

(* what is written: "keep" the token itself, "nums" the numbers of the run,   *)
(* "conns" its trailing connectors, "one" a single space                      *)
Flushed(direct) == IF ~run THEN <<>>
                   ELSE <<"nums">> \o (IF trail THEN <<"one", "conns">> ELSE <<>>) \o (IF direct THEN <<>> ELSE <<"one">>)

Machine(k) ==
  CASE k = "blank" /\ ~run -> em' = <<"keep">> /\ pop' = TRUE /\ UNCHANGED <<run, trail>>
    [] k = "blank" /\ run  -> em' = <<>> /\ pop' = FALSE /\ UNCHANGED <<run, trail>>
    [] k = "sep"  -> em' = Flushed(pop) \o <<"keep">> /\ run' = FALSE /\ trail' = FALSE /\ UNCHANGED pop
    [] k = "ord"  -> em' = <<"nums">> /\ run' = FALSE /\ trail' = FALSE /\ pop' = TRUE
    [] k = "card" -> em' = <<>> /\ run' = TRUE /\ trail' = FALSE /\ pop' = TRUE
    [] k = "conn" /\ run -> em' = <<>> /\ trail' = TRUE /\ pop' = TRUE /\ UNCHANGED run
    [] OTHER -> em' = Flushed(FALSE) \o <<"keep">> /\ run' = FALSE /\ trail' = FALSE /\ pop' = TRUE

Text(k) ==
  /\ inp' = k /\ was' = open
  /\ CASE k = "card" -> open' = TRUE /\ last' = "card" /\ gapped' = FALSE
       [] k \in {"sep", "other", "ord"} -> open' = FALSE /\ last' = "none" /\ gapped' = FALSE
       [] k = "conn" -> UNCHANGED open /\ last' = (IF open THEN "conn" ELSE "none") /\ gapped' = FALSE
       [] k = "blank" -> UNCHANGED <<open, last>> /\ gapped' = open

CInit == run = FALSE /\ trail = FALSE /\ pop = TRUE /\ em = <<>>
         /\ open = FALSE /\ last = "none" /\ gapped = FALSE /\ inp = "none" /\ was = FALSE
CNext == \E k \in Kinds6 : Machine(k) /\ Text(k)
CSpec == CInit /\ [][CNext]_vars

(*------------------------------- invariants -------------------------------*)
Follows == /\ run = open
           /\ trail = (open /\ last = "conn")
           /\ open => pop = ~gapped
(* C04: a token that is not part of an expression is written exactly once, at its place, as it is; the rest is not *)
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
Verbatim == inp # "none" =>
   Count(em, "keep") = IF inp \in {"sep", "other"} \/ (inp \in {"blank", "conn"} /\ ~was) THEN 1 ELSE 0
KeptLast == Count(em, "keep") = 1 => em[Len(em)] = "keep"
(* C05: an expression is written as soon as it ends, and only then *)
Converted == Count(em, "nums") = IF (was /\ ~open) \/ inp = "ord" THEN 1 ELSE 0
(*------------------------------- step rules -------------------------------*)
(* C07: the connectors behind the last number word, and no others, are written at its end *)
Connectors == [][ (Count(em', "conns") = 1) = (open /\ ~open' /\ inp' # "ord" /\ last = "conn") ]_vars
(* C16: a stop or comma follows the number directly if it did so in the text, else after one space;
   another word after exactly one space; nothing is put behind an ordinal *)
Spaces == [][ LET body == IF last = "conn" /\ inp' # "ord" THEN 3 ELSE 1
              IN  /\ inp' = "sep" /\ open => Len(em') = body + (IF gapped THEN 1 ELSE 0) + 1
                  /\ inp' = "other" /\ open => Len(em') = body + 2 /\ em'[Len(em') - 1] = "one"
                  /\ inp' = "ord" => em' = <<"nums">>
                  /\ inp' = "blank" => em' = IF open THEN <<>> ELSE <<"keep">> ]_vars
=============================================================================
