------------------------------ MODULE MC_Salter ------------------------------
(* A salter asked for seeds, signers and windows of signers in any order, with *)
(* everything it gave remembered.                                              *)
EXTENDS Salter, Json, IOUtils
VARIABLES given, hist
vars == <<given, hist>>
Full == IOEnv.FULL = "1"
Salts == IF Full THEN {Rep(0, 16), Tup([i \in 1 .. 16 |-> i])} ELSE {Tup([i \in 1 .. 16 |-> i])}
MaxAsks == IF Full THEN 3 ELSE 2
PathSet == {<< >>, B("1"), B("a"), B("1f")}
Starts == {0, 1, 9, 15, 16}
Counts == {0, 1, 2, 3}
\* given: [salt, path (whole), tier, code, raw]
Init == /\ given = {}
        /\ \E s \in Salts : hist = <<[op |-> "so.open", new |-> TRUE, salt |-> s, own |-> << >>]>>
TheSalt == hist[1].salt
AskOne == \E p \in PathSet, c \in {"A", "Q"} :
    LET r == SaltedSigner(TheSalt, p, c, "min") IN
    /\ given' = given \cup {[path |-> p, tier |-> "min", code |-> c, raw |-> r.v.raw]}
    /\ hist' = Append(hist, [op |-> "so.signer", path |-> <<p>>, at |-> << >>, temp |-> <<TRUE>>, code |-> <<B(c)>>, tr |-> << >>])
AskMany == \E p \in PathSet, s \in Starts, n \in Counts :
    LET r == SaltedSigners(TheSalt, p, "A", "min", BnOfInt(s), n) IN
    /\ given' = given \cup {[path |-> PathAt(p, BnOfInt(s + i - 1)), tier |-> "min", code |-> "A", raw |-> r.v[i].raw] : i \in 1 .. n}
    /\ Len(r.v) = n
    /\ hist' = Append(hist, [op |-> "so.signers", path |-> <<p>>, at |-> <<B("min")>>, temp |-> << >>, code |-> << >>, tr |-> <<FALSE>>, start |-> <<BnOfInt(s)>>, count |-> <<BnOfInt(n)>>])
AskSeed == \E p \in PathSet, z \in {32, 4, 3} :
    LET r == StretchTo(TheSalt, p, z, "min") IN
    /\ IsOk(r) = (z >= 4)
    /\ given' = IF z = 32 THEN given \cup {[path |-> p, tier |-> "min", code |-> "A", raw |-> r.v]} ELSE given
    /\ hist' = Append(hist, [op |-> "so.stretch", path |-> <<p>>, at |-> <<B("high")>>, temp |-> <<TRUE>>, size |-> <<BnOfInt(z)>>])
Ask == Len(hist) <= MaxAsks /\ (AskOne \/ AskMany \/ AskSeed) /\ (Len(hist') > MaxAsks => PrintT("OP " \o ToJson(hist')))
Next == Ask
Spec == Init /\ [][Next]_vars
\* one seed for each whole path, however it came to be asked for, and one path for each seed
Agrees == \A x, y \in given : (x.path = y.path) = (x.raw = y.raw)
=============================================================================
