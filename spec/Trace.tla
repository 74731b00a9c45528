-------------------------------- MODULE Trace --------------------------------
(* Validation of a recorded trace: one step per event; every event gets a     *)
(* verdict, so a rejected event does not hide the rest of the trace.          *)
EXTENDS Props

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, ok, skip, nbad, bad
vars == <<i, ok, skip, nbad, bad>>

TInit == i = 1 /\ ok = 0 /\ skip = 0 /\ nbad = 0 /\ bad = <<>>

Event == /\ i <= Len(TraceLog)
         /\ LET v == Verdict(TraceLog[i])
            IN  /\ ok' = ok + IF v = "ok" THEN 1 ELSE 0
                /\ skip' = skip + IF v = "skip" THEN 1 ELSE 0
                /\ nbad' = nbad + IF v \in {"ok", "skip"} THEN 0 ELSE 1
                /\ bad' = IF v \in {"ok", "skip"} \/ Len(bad) >= 30 THEN bad
                          ELSE Append(bad, <<i, v>>)
         /\ i' = i + 1

Report == /\ i = Len(TraceLog) + 1
          /\ PrintT("VERDICTS " \o ToJson([n |-> Len(TraceLog), ok |-> ok, skip |-> skip, nbad |-> nbad, bad |-> bad]))
          /\ i' = i + 1
          /\ UNCHANGED <<ok, skip, nbad, bad>>

TNext == Event \/ Report
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter = Len(TraceLog) + 2
=============================================================================
