------------------------------ MODULE Sessions -------------------------------
(* A process that uses the library: threads that make calls, one after the    *)
(* other, and a scheduler that may switch threads inside a call (C12).        *)
(*                                                                            *)
(* A call works in steps.  It first finds the tables of its language (the     *)
(* tables that were already read stay in memory: `loaded`), then works        *)
(* through its text with a scratch value (what was read so far), and returns  *)
(* an answer computed from the scratch value and the tables it sees.          *)
(*                                                                            *)
(* Design "local": scratch and tables belong to the call (what the code does) *)
(* Design "shared": one scratch value, or one set of tables, for all calls    *)
(*   (what it must not do; TLC shows that Pure fails, and by which schedules) *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Design,      \* "local", "sharedscratch", "sharedtables", "sticky"
          NThreads, NCalls, MaxCalls, Segments,
          LangOf       \* sequence: the language of each call

Threads == 1..NThreads
Calls == 1..NCalls
Ref(c) == <<"answer", c>>        \* what the call answers in a process of its own

VARIABLES pc,       \* thread -> [s: "idle"|"run"|"done", c: call, k: segments done, made: calls made]
          scratch,  \* thread -> what the call has read so far: a set of calls
          common,   \* the scratch value a shared design would use
          tables,   \* languages whose words the running calls recognise
          loaded,   \* languages read so far
          hist,     \* calls answered: <<thread, call, answer>>
          sched     \* the steps, for replay: thread numbers and started calls
vars == <<pc, scratch, common, tables, loaded, hist, sched>>

Idle == [s |-> "idle", c |-> 0, k |-> 0]
SInit == /\ pc = [t \in Threads |-> Idle]
         /\ scratch = [t \in Threads |-> {}] /\ common = {} /\ tables = {} /\ loaded = {}
         /\ hist = <<>> /\ sched = <<>>

Made(t) == Len(SelectSeq(hist, LAMBDA h : h[1] = t))
Total == Len(hist) + Cardinality({t \in Threads : pc[t].s = "run"})

Start(t, c) ==
  /\ pc[t].s = "idle" /\ Total < MaxCalls
  /\ pc' = [pc EXCEPT ![t] = [s |-> "run", c |-> c, k |-> 0]]
  /\ scratch' = [scratch EXCEPT ![t] = {}]
  /\ common' = IF Design = "sticky" THEN common ELSE {}
  /\ loaded' = loaded \cup {LangOf[c]}
  /\ tables' = IF Design = "sharedtables" THEN {LangOf[c]} ELSE tables
  /\ sched' = Append(sched, <<t, c>>)
  /\ UNCHANGED hist

Work(t) ==
  /\ pc[t].s = "run" /\ pc[t].k < Segments
  /\ pc' = [pc EXCEPT ![t].k = @ + 1]
  /\ scratch' = [scratch EXCEPT ![t] = @ \cup {pc[t].c}]
  /\ common' = common \cup {pc[t].c}
  /\ sched' = Append(sched, <<t, 0>>)
  /\ UNCHANGED <<tables, loaded, hist>>

Answer(t) ==
  LET mine == CASE Design \in {"sharedscratch", "sticky"} -> common [] OTHER -> scratch[t]
      tabs == IF Design = "sharedtables" THEN tables ELSE {LangOf[pc[t].c]}
  IN  IF mine = {pc[t].c} /\ tabs = {LangOf[pc[t].c]} THEN Ref(pc[t].c) ELSE <<"wrong", pc[t].c>>

Return(t) ==
  /\ pc[t].s = "run" /\ pc[t].k = Segments
  /\ hist' = Append(hist, <<t, pc[t].c, Answer(t)>>)
  /\ pc' = [pc EXCEPT ![t] = Idle]
  /\ UNCHANGED <<scratch, common, tables, loaded, sched>>

SNext == \E t \in Threads : (\E c \in Calls : Start(t, c)) \/ Work(t) \/ Return(t)
SSpec == SInit /\ [][SNext]_vars /\ WF_vars(\E t \in Threads : Work(t) \/ Return(t))

(*------------------------------- properties -------------------------------*)
Pure == \A i \in 1..Len(hist) : hist[i][3] = Ref(hist[i][2])
(* a call is answered while the other threads stand still: no call waits for another *)
Obstruction == \A t \in Threads : pc[t].s = "run" => (ENABLED Work(t) \/ ENABLED Return(t))
(* every call is answered *)
Answered == \A t \in Threads : (pc[t].s = "run") ~> (pc[t].s = "idle")
Done == Total = MaxCalls /\ \A t \in Threads : pc[t].s = "idle"
=============================================================================
