------------------------------ MODULE DataTrace ------------------------------
(* Validates what the data script wrote: one event per language,              *)
(*   k = "lang": source rules and supplement with the tables written          *)
(*   k = "none": a source without spell-out rules: nothing may be written     *)
(*   k = "same": two writings of the same language (shipped and regenerated,  *)
(*               first and second run, other directory order)                 *)
EXTENDS DataGen, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
DInit == i = 0 /\ bad = <<>>
Verdict(e) ==
  CASE e.k = "lang" -> Judge(e.sets, e.supp, e.out)
    [] e.k = "none" -> IF e.out.state = "untouched" THEN "ok" ELSE "written without rules"
    [] e.k = "same" -> IF e.a = e.b THEN "ok" ELSE "different"
DNext == /\ i < Len(Events) /\ i' = i + 1
         /\ LET v == Verdict(Events[i + 1]) IN bad' = IF v = "ok" THEN bad ELSE Append(bad, <<i + 1, v>>)
DSpec == DInit /\ [][DNext]_<<i, bad>> /\ WF_<<i, bad>>(DNext)
Report == i = Len(Events) => PrintT("VERDICTS " \o ToJson([n |-> i, bad |-> bad]))
=============================================================================
