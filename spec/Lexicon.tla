------------------------------ MODULE Lexicon ------------------------------
(* The vocabularies of the five languages and the character table.          *)
(* VOCAB (committed, see vocab/) maps a folded word to its class and value. *)
(* CHARS describes each character that occurs in the trace (Unicode data):  *)
(*   w  word character        s  white space      z  soft hyphen            *)
(*   f  its fold: lower case without non-spacing marks                      *)
(*   b  the fold is blank     q  apostrophe       v  decimal digit value,-1 *)
(*   l  lower case letter                                                   *)
EXTENDS Builder, Json, IOUtils, TLC, FiniteSets, Functions

Lang == <<"en", "es", "hi", "ru", "uk">>       \* order of preference

VocabFile == IOEnv.VOCAB
CharsFile == IOEnv.CHARS

Vocab == JsonDeserialize(VocabFile)
Words == [l \in {"en","es","hi","ru","uk"} |-> Vocab[l].words]
WDom  == [l \in {"en","es","hi","ru","uk"} |-> DOMAIN Vocab[l].words]
Conn  == [l \in {"en","es","hi","ru","uk"} |-> Range(Vocab[l].skip)]
Long  == [l \in {"en","es","hi","ru","uk"} |-> Vocab[l].long]

NoWord == Word("none", <<>>, 0)

(*-------------------------- English ordinal words -------------------------*)
Irregular == [first |-> "one", second |-> "two", third |-> "three", fifth |-> "five",
              eighth |-> "eight", ninth |-> "nine", twelfth |-> "twelve"]
TensStem  == {"twent", "thirt", "fort", "fift", "sixt", "sevent", "eight", "ninet"}
(* the words that take a plain -th *)
PlainTh   == {w \in DOMAIN Vocab["en"].words :
                /\ w \notin Range([x \in DOMAIN Irregular |-> Irregular[x]])
                /\ w \notin {s \o "y" : s \in TensStem}}
OrdPairs  == {<<x, Irregular[x]>> : x \in DOMAIN Irregular}
               \cup {<<s \o "ieth", s \o "y">> : s \in TensStem}
               \cup {<<w \o "th", w>> : w \in PlainTh}
OrdDom    == {p[1] : p \in OrdPairs}
OrdOf     == [o \in OrdDom |-> (CHOOSE p \in OrdPairs : p[1] = o)[2]]

Chars == JsonDeserialize(CharsFile)
=============================================================================
