------------------------------ MODULE MC_Fresh -------------------------------
(* Keys and salts drawn, and messages signed, here, by threads at once and by  *)
(* processes just begun, against one source that does not repeat itself.       *)
(* What makes a signature unique is drawn from the source as well, or is made  *)
(* of the key and the message and nothing else.                                *)
EXTENDS Bytes, Json, IOUtils
VARIABLES source, drawn, made, hist
vars == <<source, drawn, made, hist>>
Full == IOEnv.FULL = "1"
Depth == IF Full THEN 3 ELSE 2
Places == {"here", "threads", "processes"}
Times(w) == CASE w = "here" -> 2 [] w = "threads" -> 8 [] w = "processes" -> 4
Vias == {"core", "wasm"}
Codes == {"A", "J", "Q"}
Keys == {Tup([i \in 1 .. 32 |-> i]), Rep(7, 32)}
Msgs == <<B("one"), B("two")>>
Init == source = 0 /\ drawn = << >> /\ made = {} /\ hist = <<[op |-> "fr.open", new |-> TRUE]>>
Went(op) == hist' = Append(hist, op)
Draw == \E what \in {"signer", "salter"}, c \in Codes, tr \in {<< >>, <<FALSE>>}, w \in Places, v \in Vias :
    /\ what = "salter" => c = "A" /\ tr = << >>
    /\ drawn' = drawn \o Tup([i \in 1 .. Times(w) |-> source + i])
    /\ source' = source + Times(w)
    /\ UNCHANGED made
    /\ Went([op |-> "fr.draw", what |-> what, code |-> <<B(c)>>, tr |-> tr, via |-> v, where |-> w, n |-> <<2>>])
\* at: what the signature starts with; the source counts up, what is made of key and message does not
Sign == \E what \in {"plain", "indexed"}, c \in Codes, k \in Keys, w \in Places, v \in Vias, drawing \in BOOLEAN :
    /\ drawing = (c # "A")
    /\ made' = made \cup {[at |-> IF drawing THEN <<source + i>> ELSE <<c, k, m>>, key |-> <<c, k>>, msg |-> Msgs[m]] : i \in 1 .. 2 * Times(w), m \in {1}} 
                    \cup {[at |-> IF drawing THEN <<source + 2 * Times(w) + i>> ELSE <<c, k, m>>, key |-> <<c, k>>, msg |-> Msgs[m]] : i \in 1 .. 2 * Times(w), m \in {2}}
    /\ source' = source + 4 * Times(w)
    /\ UNCHANGED drawn
    /\ Went([op |-> "fr.sign", what |-> what, code |-> <<B(c)>>, tr |-> <<TRUE>>, via |-> v, where |-> w, n |-> <<2>>, seed |-> k, msgs |-> Msgs])
Next == Len(hist) <= Depth /\ (Draw \/ Sign) /\ (Len(hist') > Depth => PrintT("OP " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Distinct == Cardinality({drawn[i] : i \in DOMAIN drawn}) = Len(drawn)
\* no key is given away by two signatures that start alike over different messages
Unrecoverable == \A x, y \in made : Len(x.at) = Len(y.at) /\ x.at = y.at => x.key = y.key /\ x.msg = y.msg
=============================================================================
