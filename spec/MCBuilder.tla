------------------------------ MODULE MCBuilder ------------------------------
(* All runs of at most N words and connectors over one representative set of  *)
(* words per language; the state is the machine of Builder with the history   *)
(* of what it read.                                                           *)
EXTENDS Denote, Json, IOUtils, FiniteSets, TLC

Config == JsonDeserialize(IOEnv.CONFIG)   \* [long, n, words: sequence of [c,d,e] (c = "conn": a connector)]
Alphabet == Config.words

VARIABLES ws,      \* indices of the words read
          den,     \* they are a standard spelling
          b,       \* the machine
          act,     \* the last action
          seg      \* number of the number each position belongs to (0: connector)
vars == <<ws, den, b, act, seg>>

W(k) == Word(Alphabet[k].c, Alphabet[k].d, Alphabet[k].e)
IsC(k) == Alphabet[k].c = "conn"
WordsIn(ks) == LET q == SelectSeq(ks, LAMBDA k : ~IsC(k)) IN [i \in 1..Len(q) |-> W(q[i])]

MBInit == ws = <<>> /\ den = FALSE /\ b = BInit /\ act = "Init" /\ seg = <<>>

Cur(m) == Len(Numbers(m.out)) + 1      \* the open number
Read(k, m, name) == /\ ws' = Append(ws, k)
                    /\ den' = (LET x == WordsIn(ws') IN x # <<>> /\ Denote(x, Config.long).ok)
                    /\ b' = m /\ act' = name
                    /\ seg' = Append(seg, IF IsC(k) THEN 0 ELSE Cur(m))

Absorb(k)   == IsC(k) /\ ws # <<>> /\ Read(k, BSkip(b, <<"c">>), "Absorb")
MultiplyAll(k) == ~IsC(k) /\ IsLarge(b, W(k)) /\ Read(k, Multiply(b, W(k)), "Multiply")
Continue(k) == ~IsC(k) /\ ~IsLarge(b, W(k)) /\ Continues(b, W(k)) /\ Read(k, Extend(b, W(k), Config.long), "Continue")
StartNew(k) == ~IsC(k) /\ ~IsLarge(b, W(k)) /\ ~Continues(b, W(k)) /\ Read(k, Extend(Complete(b), W(k), Config.long), "StartNew")

MBNext == /\ Len(ws) < Config.n
          /\ \E k \in 1..Len(Alphabet) : Absorb(k) \/ MultiplyAll(k) \/ Continue(k) \/ StartNew(k)
MBSpec == MBInit /\ [][MBNext]_vars

Taken(ks) == [i \in 1..Len(ks) |-> IF IsC(ks[i]) THEN [k |-> "s", w |-> Word("none", <<>>, 0), r |-> <<"c">>]
                                   ELSE [k |-> "w", w |-> W(ks[i]), r |-> <<>>]]

(*-------------------------------- invariants ------------------------------*)
Steps == b = FoldLeft(LAMBDA m, t : BStep(m, t, Config.long), BInit, Taken(ws))
(* C01: a standard spelling is one number with the value it denotes *)
Standard == den => /\ Len(Numbers(BFinish(b))) = 1
                   /\ Numbers(BFinish(b))[1] = Denote(WordsIn(ws), Config.long).v
(* C06: nothing leaks from one number into another: each number is what its words build alone *)
NoLeak == ws # <<>> =>
  \A n \in 1..Cur(b) :
    LET mine == [i \in 1..Len(ws) |-> IF seg[i] = n THEN ws[i] ELSE 0]
        alone == Numbers(Build(Taken(SelectSeq(mine, LAMBDA k : k # 0)), Config.long))
    IN  alone = <<Numbers(BFinish(b))[n]>>
(* C07: connectors change no number; those between two numbers are kept, in place, the others vanish *)
ConnNeutral == ws # <<>> => Numbers(BFinish(b)) = Numbers(Build(Taken(SelectSeq(ws, LAMBDA k : ~IsC(k))), Config.long))
LastOf(n)  == CHOOSE i \in 1..Len(ws) : seg[i] = n /\ \A j \in (i+1)..Len(ws) : seg[j] # n
FirstOf(n) == CHOOSE i \in 1..Len(ws) : seg[i] = n /\ \A j \in 1..(i-1) : seg[j] # n
ConnKept == LET F(a, n) == a \o <<"n">> \o [i \in 1..(FirstOf(n+1) - LastOf(n) - 1) |-> "s"]
                x == FoldLeft(F, <<>>, [n \in 1..(Cur(b) - 1) |-> n])
            IN  [i \in 1..Len(b.out) |-> b.out[i].k] = x
(* values are numerals without leading zeros *)
Canonical == IsDec(b.tot) /\ IsDec(b.grp) /\ \A i \in 1..Len(b.out) : IsDec(b.out[i].d)
(* a closed group is a multiple of its scale and what is open is smaller than the scale, *)
(* so no digit is ever added onto another one                                            *)
Prev(ks) == LET q == SelectSeq(ks, LAMBDA k : ~IsC(k)) IN IF q = <<>> THEN 0 ELSE q[Len(q)]

(*------------------------------ action properties -------------------------*)
Forced(x, y) ==
  \/ x.c \in {"u", "d"} /\ y.c \in {"u", "d", "t"}
  \/ x.c = "t" /\ y.c \in {"d", "t"}
  \/ x.c # "p" /\ y.c = "h"
(* C06: at a forced boundary a new number is started *)
ForcedStart == [][LET k == Prev(ws)  n == ws'[Len(ws')]
                  IN  (k # 0 /\ ~IsC(n) /\ Forced(W(k), W(n))) => act' = "StartNew"]_vars
(* C15: a scale word never makes the number smaller, and multiplies all or only the open group *)
ScaleLaw == [][LET n == ws'[Len(ws')]
               IN  (~IsC(n) /\ W(n).c = "p" /\ act' # "StartNew" /\ Open(b) # <<>>) =>
                     \/ Open(b') = Shift(Open(b), W(n).e)
                     \/ Open(b') = Add(b.tot, Shift(b.grp, W(n).e))
                     \/ b.grp = <<>> /\ Open(b') = Add(b.tot, Pow10(W(n).e))]_vars
(* completed numbers are final *)
Final == [][IsPrefix(b.out, b'.out)]_vars
=============================================================================
