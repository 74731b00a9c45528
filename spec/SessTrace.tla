------------------------------ MODULE SessTrace ------------------------------
(* Validation of recorded sessions of the real code against Sessions.          *)
(* Event == [e: "new"|"start"|"ret", t: thread, c: call, r: result (string)]   *)
(* REFS: the result of each call in a process of its own.                      *)
(* The observable actions are Start and Return; the steps between them are     *)
(* internal (they are the schedule, which the harness controls).               *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC, FiniteSets

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Refs == JsonDeserialize(IOEnv.REFS)

VARIABLES i, pc, n, bad, nbad
vars == <<i, pc, n, bad, nbad>>
Threads == 1..8
AllIdle == [t \in Threads |-> 0]

TInit == i = 1 /\ pc = AllIdle /\ n = 0 /\ bad = <<>> /\ nbad = 0
E == TraceLog[i]
Is(e) == i <= Len(TraceLog) /\ E.e = e /\ i' = i + 1
Flag(why) == /\ nbad' = nbad + 1
             /\ bad' = IF Len(bad) < 30 THEN Append(bad, <<i, why>>) ELSE bad
Good == UNCHANGED <<bad, nbad>>

New    == Is("new") /\ pc' = AllIdle /\ UNCHANGED n
          /\ IF \A t \in Threads : pc[t] = 0 THEN Good ELSE Flag("a call was never answered")
Start  == Is("start") /\ pc[E.t] = 0 /\ pc' = [pc EXCEPT ![E.t] = E.c] /\ UNCHANGED n /\ Good
Return == Is("ret") /\ pc[E.t] = E.c /\ pc' = [pc EXCEPT ![E.t] = 0] /\ n' = n + 1
          /\ IF E.r = Refs[E.c] THEN Good ELSE Flag("another answer than in a fresh process")
Report == /\ i = Len(TraceLog) + 1 /\ i' = i + 1 /\ UNCHANGED <<pc, n, bad, nbad>>
          /\ PrintT("VERDICTS " \o ToJson([n |-> Len(TraceLog), returns |-> n, nbad |-> nbad, bad |-> bad]))
TNext == New \/ Start \/ Return \/ Report
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter = Len(TraceLog) + 2
=============================================================================
