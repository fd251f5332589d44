------------------------------- MODULE T_Fresh -------------------------------
EXTENDS Fresh, T_Cred

FrSession == {"fr.open", "fr.draw", "fr.sign", "fr.end"}
\* a session remembers the pieces drawn, the signatures made, and what was drawn of each kind
FrOpen == [seen |-> {}, made |-> {}, raws |-> << >>]
FrKind(e) == IF e.what = "salter" THEN "salter" ELSE SeedCode(e)
FrLen(e) == IF e.what = "salter" THEN 16 ELSE 32
FrTimes(e) == BnInt(e.n) * (CASE e.where = "here" -> 1 [] e.where = "threads" -> 4 [] e.where = "processes" -> 2)
FrSigs(e, v) == {Sig(<<SeedCode(e), e.seed>>, e.msgs[((i - 1) % Len(e.msgs)) + 1], v[i]) : i \in DOMAIN v}
FrStep(e, s) ==
    CASE e.op = "fr.open" -> [x |-> Ok(TRUE), s |-> FrOpen]
      [] e.op = "fr.draw" ->
            IF e.r.k # "ok" THEN [x |-> Holds(FALSE, "fresh material"), s |-> s]
            ELSE LET v == e.r.v
                     fine == Len(v) = FrTimes(e) /\ (\A i \in DOMAIN v : Len(v[i]) = FrLen(e)) /\ NeverSeen(v, s.seen)
                     k == FrKind(e)
                     all == IF k \in DOMAIN s.raws THEN s.raws[k] \o v ELSE v
                 IN [x |-> Holds(fine, "nothing that was drawn before"),
                     s |-> [s EXCEPT !.seen = @ \cup PiecesOf(v), !.raws = [n \in DOMAIN @ \cup {k} |-> IF n = k THEN all ELSE @[n]]]]
      [] e.op = "fr.sign" ->
            IF e.r.k # "ok" THEN [x |-> Holds(FALSE, "signatures"), s |-> s]
            ELSE LET v == e.r.v
                     now == s.made \cup FrSigs(e, v)
                 IN [x |-> Holds(Len(v) = FrTimes(e) * Len(e.msgs) /\ Unlike(now), "signatures with nothing in common"), s |-> [s EXCEPT !.made = now]]
      [] e.op = "fr.end" -> [x |-> Holds(\A k \in DOMAIN s.raws : Len(s.raws[k]) >= 128 => EveryBit(s.raws[k]), "every bit takes both values"), s |-> s]
=============================================================================
