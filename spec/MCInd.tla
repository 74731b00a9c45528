------------------------------- MODULE MCInd -------------------------------
(* BuilderInd with the scales of the languages, for Apalache (--cinit) *)
EXTENDS BuilderInd
\* English, Russian, Ukrainian
ShortScale == Long = FALSE /\ Top = 10^40 /\ Scales = {1000, 1000000, 1000000000, 1000000000000, 1000000000000000, 1000000000000000000, 10^21, 10^24, 10^27}
\* Spanish
LongScale  == Long = TRUE /\ Top = 10^40 /\ Scales = {1000, 1000000, 1000000000000, 1000000000000000000, 10^24, 10^30, 10^36}
\* Hindi
Indian     == Long = FALSE /\ Top = 10^40 /\ Scales = {1000, 100000, 10000000, 1000000000, 100000000000}
=============================================================================
