------------------------------ MODULE MC_Wild ------------------------------
(***************************************************************************)
(* Everything a few characters can be: every short string over characters  *)
(* that mean something somewhere (selectors and digits of codes, the pads, *)
(* path and version separators, JSON and number punctuation, halves of a   *)
(* multi-byte character), and canonical heads of every code cut at every   *)
(* length.  Each is handed to every public entry point.                    *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils, TLC
VARIABLES text, kind
Full == IOEnv.FULL = "1"
Out(x) == PrintT("OP " \o ToJson(x))
Letters == {0, 34, 43, 45, 46, 47, 48, 49, 52, 54, 55, 65, 66, 77, 91, 95, 97, 122, 123, 169, 195, 255}
Most == IF Full THEN 3 ELSE 2
\* heads: a code, its soft part at its limits, and a little material
Codes == DOMAIN MatterSz \cup DOMAIN IndexerSz \cup DOMAIN CounterSz
Softs == {<< >>, B("A"), B("AA"), B("AB"), B("__"), B("AAAA"), B("AAAB"), B("____"), B("AAAAAA"), B("______"), B("AAA_"), B("_AAA")}
Ends == {<< >>, B("A"), B("AA"), B("AAA"), B("AAAA"), B("____"), Rep(65, 43), <<195, 169>>, <<195>>}
Init == text = << >> /\ kind = "free"
Grow == /\ kind = "free" /\ Len(text) < Most
        /\ \E c \in Letters : text' = Append(text, c)
        /\ UNCHANGED kind
Front == /\ kind = "free" /\ text = << >>
        /\ \E c \in Codes, s \in Softs : text' = B(c) \o s
        /\ kind' = "head"
More == /\ kind = "head" /\ kind' = "done"
        /\ \E z \in Ends : text' = text \o z
Next == (Grow \/ Front \/ More) /\ Out([w |-> text'])
Spec == Init /\ [][Next]_<<text, kind>>
\* a parse says whether, and never consumes more than there is
Sound == LET m == MatterParse("qb64b", text)  i == IndexerParse("qb64b", text)  c == CounterParse("qb64b", text) IN
    /\ IsOk(m) => MatterFull(m.v) <= Len(text)
    /\ IsOk(i) => IndexerFull(i.v) <= Len(text)
    /\ IsOk(c) => CounterFull(c.v) <= Len(text)
=============================================================================
