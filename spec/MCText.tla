------------------------------- MODULE MCText --------------------------------
(* All texts made of at most N pieces.  A state is a text; each step adds a   *)
(* piece.  In every state the specification has to satisfy the listed         *)
(* properties: the clauses of Props are applied to the calls with the results *)
(* that Parser gives, and must not report a violation.  The states are dumped *)
(* and replayed in the code.                                                  *)
(* Config (JSON): [lang, n, prop, pieces: character sequences,                *)
(*                 alt: another spelling of each piece]                       *)
EXTENDS Props, Layout

Config == JsonDeserialize(IOEnv.CONFIG)
L == Config.lang
P == Config.prop

VARIABLE ws
MInit == ws = <<>>
AddPiece(k) == ws' = Append(ws, k)
MNext == Len(ws) < Config.n /\ \E k \in 1..Len(Config.pieces) : AddPiece(k)
MSpec == MInit /\ [][MNext]_ws

TextOf(ks, table) == FoldLeft(LAMBDA a, k : a \o table[k], <<>>, ks)
T == TextOf(ws, Config.pieces)

(* the calls, answered by the specification *)
R(t, d, s) == [t |-> t, d |-> d, s |-> s, n |-> ""]
Answer(f, l, cs) ==
  LET m == IF l = "auto" THEN Detect(cs) ELSE l
  IN  CASE f = "parse" -> R("str", <<>>, Parse(cs, m))
        [] f = "num"  -> LET x == ParseNumber(cs, m) IN R(x.t, x.d, <<>>)
        [] f = "ord"  -> LET x == ParseOrdinal(cs, m) IN R(x.t, x.d, <<>>)
        [] f = "frac" -> LET x == ParseFraction(cs, m) IN R(x.t, <<>>, x.s)
Call(f, l, cs) == [f |-> f, l |-> l, i |-> cs, r |-> Answer(f, l, cs)]
Ev(x, calls, g) == [p |-> P, x |-> x, c |-> calls, g |-> g]

FlatTok(ts) == FoldLeft(LAMBDA a, t : IF a = <<>> THEN t.r ELSE a \o <<" ">> \o t.r, <<>>, ts)
RunTexts(cs, l) ==
  LET ts == NB(cs, l)
      rs == CardRuns(ts, Kinds(ts, l))
  IN  [i \in 1..Len(rs) |-> FlatTok(SubSeq(ts, rs[i].a, rs[i].b))]

Events ==
  CASE P = "C02" -> {Ev("ord", <<Call("ord", "en", T)>>, <<>>), Ev("text", <<Call("parse", "en", T)>>, <<>>),
                     Ev("none", <<Call("ord", "en", T)>>, <<>>), Ev("card", <<Call("ord", "en", T), Call("num", "en", T)>>, <<>>)}
    [] P = "C03" -> {Ev("", <<Call("num", L, T)>>, <<>>)}
    [] P = "C01" -> {Ev("", <<Call("num", L, T)>>, <<>>)}
    [] P = "C13" -> {Ev("", <<Call("num", L, T)>>, <<>>), Ev("", <<Call("parse", L, T)>>, <<>>)}
    [] P \in {"C04", "C16", "C15"} -> {Ev("", <<Call("parse", L, T)>>, <<>>)}
    [] P = "C05" -> LET c == Call("parse", L, T)
                        rt == RunTexts(T, L)
                    IN  {Ev("", <<c, Call("parse", L, c.r.s)>> \o [i \in 1..Len(rt) |-> Call("num", L, rt[i])], <<>>)}
    [] P = "C06" -> {LET A == TextOf(SubSeq(ws, 1, i), Config.pieces)
                         G == TextOf(SubSeq(ws, i + 1, j), Config.pieces)
                         B == TextOf(SubSeq(ws, j + 1, Len(ws)), Config.pieces)
                     IN  Ev("", <<Call("parse", L, A \o G \o B), Call("parse", L, A), Call("parse", L, B)>>, G)
                       : i \in 1..(Len(ws) - 2), j \in 2..(Len(ws) - 1)}
    [] P = "C07" -> {Ev("text", <<Call("parse", L, T)>>, <<>>),
                     Ev("num", <<Call("num", L, T), Call("num", L, FlatTok(SelectSeq(NB(T, L), LAMBDA t : IsCard(t, L))))>>, <<>>)}
    [] P = "C08" -> {Ev("", <<Call(f, "auto", T)>> \o [i \in 1..5 |-> Call(f, Lang[i], T)], <<>>) : f \in {"parse", "num", "ord"}}
    [] P = "C09" -> {Ev("", <<Call(f, L, T), Call(f, L, TextOf(ws, Config.alt))>>, <<>>) : f \in {"parse", "num", "ord"}}
    [] P = "C10" -> LET f == FractionAt(T)
                    IN  {Ev("", IF f.at = 0 THEN <<Call("frac", L, T)>>
                                ELSE <<Call("frac", L, T), Call("num", L, Before(T, f)), Call("num", L, After(T, f))>>, <<>>)}
    [] P = "C11" -> {Ev("total", <<Call(f, L, T)>>, <<>>) : f \in {"parse", "num", "ord", "frac"}}
    [] P = "C17" -> {Ev("num", <<Call("num", L, T)>>, <<>>), Ev("num", <<Call("ord", L, T)>>, <<>>),
                     Ev("mix", <<Call("num", L, T)>>, <<>>), Ev("text", <<Call("parse", L, T)>>, <<>>)}

(* the specification has the property *)
Holds == \A e \in Events : Verdict(e) \in {"ok", "skip"}
(* the machine and the declarative layout agree *)
LayoutAgrees == P \notin {"C04", "C16"} \/ (~OddBlank(T, L) => Parse(T, L) = LayoutParse(T, L))
(* the control of the transducer is that of module Control, whose rules TLC shows for texts of any length *)
Ctl(kn) ==
  LET F[i \in 0..Len(kn)] ==
        IF i = 0 THEN [run |-> FALSE, trail |-> FALSE, pop |-> TRUE]
        ELSE LET p == F[i - 1]  k == kn[i]
             IN  CASE k = "blank" -> [p EXCEPT !.pop = ~p.run]
                   [] k = "sep" -> [p EXCEPT !.run = FALSE, !.trail = FALSE]
                   [] k = "card" -> [run |-> TRUE, trail |-> FALSE, pop |-> TRUE]
                   [] k = "conn" /\ p.run -> [p EXCEPT !.trail = TRUE, !.pop = TRUE]
                   [] OTHER -> [run |-> FALSE, trail |-> FALSE, pop |-> TRUE]
  IN  F[Len(kn)]
ControlAgrees ==
  P \notin {"C04", "C07", "C16"} \/
    LET ts == Tokens(T, L)
        p == FoldLeft(LAMBDA q, t : PStep(q, t, L), PInit, ts)
    IN  Ctl([i \in 1..Len(ts) |-> Kind(ts[i], L)]) =
          [run |-> p.taken # <<>>, trail |-> p.taken # <<>> /\ p.taken[Len(p.taken)].k = "s", pop |-> p.pop]
(* the output is a fixed point *)
Stable == P # "C05" \/ Parse(Parse(T, L), L) = Parse(T, L)
=============================================================================
