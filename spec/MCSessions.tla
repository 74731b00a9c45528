----------------------------- MODULE MCSessions ------------------------------
(* Bounds for Sessions; the complete behaviours are dumped and replayed.      *)
EXTENDS Sessions
MCLangOf == [c \in 1..NCalls |-> (c % 3) + 1]
=============================================================================
