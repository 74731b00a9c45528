------------------------------ MODULE DataProc -------------------------------
(* The process of regenerating: the script takes the source files in the      *)
(* order in which the directory lists them, reads the rules and the           *)
(* supplement of each, and writes its tables.  It may be stopped at any point *)
(* (also while it writes a file) and run again; an older tree may have other  *)
(* tables in place.  Languages are abstract here: Truth(f) stands for the     *)
(* tables that DataGen!Generate defines for f.                                *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Files, NoRules, MaxRuns, Design   \* Design "fresh" or "carry" (tables kept from file to file)
VARIABLES phase, todo, data, target, runs, plan
vars == <<phase, todo, data, target, runs, plan>>
Truth(f) == {f}
Old == {"old"}
Init == phase = "stopped" /\ todo = {} /\ data = {} /\ target = [f \in Files |-> Old] /\ runs = 0 /\ plan = <<>>
Run == /\ phase = "stopped" /\ runs < MaxRuns /\ todo' = Files /\ phase' = "running" /\ runs' = runs + 1 /\ data' = {}
       /\ plan' = Append(plan, <<"run", "">>) /\ UNCHANGED target
Read(f) == /\ phase = "running" /\ f \in todo
           /\ plan' = Append(plan, <<"file", f>>)
           /\ IF f \in NoRules THEN todo' = todo \ {f} /\ UNCHANGED <<phase, data, target, runs>>
              ELSE /\ data' = IF Design = "carry" THEN data \cup {f} ELSE {f}
                   /\ phase' = "writing" /\ todo' = todo \ {f}
                   /\ target' = [target EXCEPT ![f] = {"partial"}]
                   /\ UNCHANGED runs
Write == /\ phase = "writing" /\ phase' = "running"
         /\ \E f \in Files : plan[Len(plan)] = <<"file", f>> /\ target' = [target EXCEPT ![f] = data]
         /\ UNCHANGED <<todo, data, runs, plan>>
Stop == /\ (phase = "writing" \/ (phase = "running" /\ todo # {})) /\ phase' = "stopped" /\ plan' = Append(plan, <<"stop", "">>) /\ UNCHANGED <<todo, data, target, runs>>
Finish == /\ phase = "running" /\ todo = {} /\ phase' = "finished" /\ UNCHANGED <<todo, data, target, runs, plan>>
Again == /\ phase = "finished" /\ runs < MaxRuns /\ phase' = "stopped" /\ UNCHANGED <<todo, data, target, runs, plan>>
Next == Run \/ (\E f \in Files : Read(f)) \/ Write \/ Stop \/ Finish \/ Again
DPSpec == Init /\ [][Next]_vars
(* whatever happened before, a finished run leaves the tables of every language with rules, and only those *)
Reproduced == phase = "finished" => \A f \in Files : target[f] = (IF f \in NoRules THEN Old ELSE Truth(f))
(* at any time, no file holds the words of another language *)
NoMixture == \A f \in Files : target[f] \in {Old, {"partial"}, Truth(f)}
=============================================================================
