-------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* What is drawn afresh is never drawn again: seeds, salts, and what makes  *)
(* a signature different from all others.                                  *)
(***************************************************************************)
EXTENDS Sign

\* Eight bytes at a time: no two pieces of anything drawn are alike (they would be by chance once in
\* 2^64), so nothing is repeated, constant, counted up, or made of one smaller draw.
Pieces(raw) == {SubSeq(raw, 8 * i - 7, 8 * i) : i \in 1 .. (Len(raw) \div 8)}
PiecesOf(raws) == UNION {Pieces(raws[i]) : i \in DOMAIN raws}
NeverSeen(raws, seen) == LET p == PiecesOf(raws) IN
    /\ \A i \in DOMAIN raws : Len(raws[i]) = Len(raws[1])
    /\ Cardinality(p) = Len(raws) * (Len(raws[1]) \div 8)
    /\ p \cap seen = {}
\* Every bit is at times set and at times not
BitOf(b, i) == (b \div 2^i) % 2
EveryBit(raws) == \A i \in 1 .. Len(raws[1]), b \in 0 .. 7 : Cardinality({BitOf(raws[n][i], b) : n \in DOMAIN raws}) = 2

\* A signature over (key, msg) starts with what it was made unique by.  Two that start alike are one:
\* the same key, message and signature.  (Two of one key over different messages would give it away.)
Sig(key, msg, raw) == [at |-> Take(raw, 32), key |-> key, msg |-> msg, raw |-> raw]
Unlike(sigs) == Cardinality({s.at : s \in sigs}) = Cardinality(sigs)
=============================================================================
