------------------------------- MODULE MCRules -------------------------------
(* Rule texts, built piece by piece, and the entries they define for keys of  *)
(* every kind.  The states are dumped, put into source files and given to the *)
(* real script.                                                               *)
EXTENDS DataGen
CONSTANTS MaxPieces
VARIABLES rule
W == 119     \* "w" stands for a word; the harness writes a different word in each rule
V == 118
Pieces == << <<W>>, <<SPACE>>, <<LT, LT>>, <<LT, 37, 114, LT>>, <<GT, GT>>, <<GT, 37, 114, GT>>, <<LBRACKET>>, <<93>>, <<SEMI>>, <<SHY>>,
             <<DOLLAR, 40, 99, 44, 111, LBRACE, W, RBRACE, 116, LBRACE, V, RBRACE, 41, DOLLAR>>, <<EQ, 37, 114, EQ>> >>
Text(r) == FlattenSeq([i \in 1..Len(r) |-> Pieces[r[i]]])
N(r, P) == Cardinality({i \in 1..Len(r) : r[i] \in P})
At(r, P) == CHOOSE i \in 1..Len(r) : r[i] \in P
(* the syntax of spell-out rules: the multiplier, then its word, then an optional remainder in brackets *)
Syntax(r) ==
  /\ N(r, {3, 4}) <= 1 /\ N(r, {5, 6}) <= 1 /\ N(r, {7}) <= 1 /\ N(r, {8}) <= N(r, {7}) /\ N(r, {9}) <= 1 /\ N(r, {10}) <= 1 /\ N(r, {11}) <= 1 /\ N(r, {12}) <= 1
  /\ (N(r, {9}) = 1 => r[Len(r)] = 9)
  /\ (N(r, {8}) = 1 => At(r, {7}) < At(r, {8}))
  /\ (N(r, {7}) = 1 /\ N(r, {5, 6}) = 1) => At(r, {7}) < At(r, {5, 6}) /\ (N(r, {8}) = 1 => At(r, {5, 6}) < At(r, {8}))
  /\ (N(r, {3, 4}) = 1 /\ N(r, {7}) = 1) => (At(r, {3, 4}) < At(r, {7}) \/ (N(r, {8}) = 1 /\ At(r, {8}) < At(r, {3, 4})))
  /\ (N(r, {11}) = 1 => N(r, {3, 4}) = 1 /\ At(r, {3, 4}) < At(r, {11}))
  /\ (N(r, {11}) = 1 /\ N(r, {7}) = 1 => At(r, {11}) < At(r, {7}))
  /\ \A i \in 1..(Len(r) - 1) : ~(r[i] = 2 /\ r[i + 1] = 2)
Complete(r) == N(r, {7}) = N(r, {8})
Init == rule = <<>>
Next == Len(rule) < MaxPieces /\ \E p \in 1..Len(Pieces) : rule' = Append(rule, p) /\ Syntax(rule')
RSpec == Init /\ [][Next]_rule

Keys == { <<48>>, <<53>>, <<49, 49>>, <<51, 48>>, <<49, 48, 48>>, <<55, 48, 48>>, <<50, 48, 48, 48>>, <<49>> \o [i \in 1..24 |-> 48], <<50, 48, 47, 49>> }
Es(k) == OfRule(k, Text(rule))
(* punctuation and soft hyphens are no part of a rule *)
CleanLaw == \A k \in Keys : OfRule(k, Clean(Text(rule))) = Es(k)
(* the words hold no rule syntax, and are not blank when they come from a compound or multiplier *)
WordLaw == Complete(rule) => \A k \in Keys : \A j \in 1..Len(Es(k)) :
             LET w == Es(k)[j][2] IN /\ w # <<>> /\ \A c \in {LT, GT, EQ, SEMI, SHY, LBRACE, RBRACE, DOLLAR} : ~Has(w, c)
                                     /\ Es(k)[j][1] \in {"TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"} => ~Has(w, LBRACKET)
(* each table holds numbers of its kind *)
KindLaw == \A k \in Keys : \A j \in 1..Len(Es(k)) :
             LET e == Es(k)[j] IN
             CASE e[1] = "UNIT_NUMBERS" -> Len(e[3]) = 1
               [] e[1] = "DIRECT_NUMBERS" -> Len(e[3]) = 2
               [] e[1] = "TENS" -> Len(e[3]) = 2 /\ e[3][1] > 1 /\ e[3][2] = 0
               [] e[1] = "HUNDREDS" -> Len(e[3]) = 3 /\ e[3][1] > 1 /\ e[3][2] = 0 /\ e[3][3] = 0
               [] e[1] = "BIG_POWERS_OF_TEN" -> Len(e[3]) > 2 /\ Zeroes(e[3]) = Len(e[3]) - 1 /\ e[3][1] = 1 /\ Zeroes(e[3]) = Zeroes(Digits(k))
(* a rule defines words of one kind for one number *)
OneKind == \A k \in Keys : \A a, b \in 1..Len(Es(k)) : Es(k)[a][1] = Es(k)[b][1] /\ Es(k)[a][3] = Es(k)[b][3]
(* a reference to another rule set defines nothing *)
RefLaw == N(rule, {12}) = 1 => \A k \in Keys : Es(k) = <<>>
=============================================================================
