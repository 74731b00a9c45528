--------------------------- MODULE SessionsProof ----------------------------
(* Pure for any number of threads, calls and steps, and for histories of any  *)
(* length (TLAPS): the bounds of MCSessions do not matter for the design      *)
(* "local".                                                                   *)
EXTENDS Sessions, TLAPS

ASSUME Local == Design = "local"
ASSUME Consts == NThreads \in Nat /\ NCalls \in Nat /\ MaxCalls \in Nat /\ Segments \in Nat \ {0}

State == [s : {"idle", "run"}, c : Nat, k : Nat]
Entries == Threads \X Calls \X {<<"answer", c>> : c \in Calls}
Inv == /\ pc \in [Threads -> State]
       /\ scratch \in [Threads -> SUBSET Nat]
       /\ hist \in Seq(Entries)
       /\ \A t \in Threads : pc[t].s = "run" =>
            /\ pc[t].c \in Calls
            /\ scratch[t] = IF pc[t].k = 0 THEN {} ELSE {pc[t].c}
       /\ \A i \in 1..Len(hist) : hist[i][3] = Ref(hist[i][2])

LEMMA Initially == SInit => Inv
  BY Consts DEF SInit, Inv, Idle, State, Entries, Threads

LEMMA StartKeeps == ASSUME Inv, NEW t \in Threads, NEW c \in Calls, Start(t, c) PROVE Inv'
  BY Consts DEF Inv, Start, State, Threads, Calls

LEMMA WorkKeeps == ASSUME Inv, NEW t \in Threads, Work(t) PROVE Inv'
<1>1. pc[t] \in State /\ pc[t].s = "run" /\ pc[t].c \in Calls /\ pc[t].k \in Nat /\ pc[t].k + 1 # 0 /\ pc[t].k + 1 \in Nat
  BY DEF Inv, Work, State
<1>2. pc' = [pc EXCEPT ![t] = [pc[t] EXCEPT !.k = pc[t].k + 1]] /\ pc' \in [Threads -> State]
  BY <1>1 DEF Inv, Work, State
<1>3. pc'[t].c = pc[t].c /\ pc'[t].k = pc[t].k + 1 /\ \A u \in Threads : u # t => pc'[u] = pc[u]
  BY <1>1, <1>2 DEF Inv, State
<1>4. scratch[t] \cup {pc[t].c} = {pc[t].c}
  BY <1>1 DEF Inv
<1>5. scratch' \in [Threads -> SUBSET Nat] /\ scratch'[t] = {pc[t].c} /\ \A u \in Threads : u # t => scratch'[u] = scratch[u]
  BY <1>1, <1>4 DEF Inv, Work, Calls
<1>6. hist' = hist
  BY DEF Work
<1> QED BY <1>1, <1>2, <1>3, <1>5, <1>6 DEF Inv

LEMMA ReturnKeeps == ASSUME Inv, NEW t \in Threads, Return(t) PROVE Inv'
<1> DEFINE c == pc[t].c
<1>1. c \in Calls /\ scratch[t] = {c}
  BY Consts DEF Inv, Return, State, Threads, Calls
<1>2. Answer(t) = Ref(c)
  BY <1>1, Local DEF Answer
<1>3. hist' = Append(hist, <<t, c, Ref(c)>>)
  BY <1>2 DEF Return
<1>4. <<t, c, Ref(c)>> \in Entries
  BY <1>1 DEF Entries, Ref
<1>5. hist' \in Seq(Entries)
  BY <1>3, <1>4 DEF Inv
<1>6. \A i \in 1..Len(hist') : hist'[i][3] = Ref(hist'[i][2])
  BY <1>3, <1>4 DEF Inv
<1>7. pc' \in [Threads -> State] /\ scratch' = scratch /\ pc' = [pc EXCEPT ![t] = Idle]
  BY DEF Inv, Return, State, Idle
<1>8. \A u \in Threads : pc'[u].s = "run" => u # t /\ pc'[u] = pc[u]
  BY <1>7 DEF Inv, Idle, State
<1> QED BY <1>5, <1>6, <1>7, <1>8 DEF Inv

THEOREM PureAlways == SSpec => []Pure
<1>1. Inv /\ [SNext]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [SNext]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF vars, Inv
  <2>2. CASE SNext
    BY <2>2, StartKeeps, WorkKeeps, ReturnKeeps DEF SNext
  <2> QED BY <2>1, <2>2
<1>2. Inv => Pure
  BY DEF Inv, Pure
<1> QED BY <1>1, <1>2, Initially, PTL DEF SSpec
=============================================================================
