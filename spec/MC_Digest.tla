------------------------------ MODULE MC_Digest ------------------------------
(* Digests of a few messages under every code, verified and compared in all   *)
(* pairs, honest and forged, with the real algorithms.                        *)
EXTENDS Sign, Json, IOUtils
VARIABLES a, b, msg, stage
vars == <<a, b, msg, stage>>
Line(o) == PrintT("OP " \o ToJson(o))
Full == IOEnv.FULL = "1"
Msgs == {<< >>, <<97>>} \cup (IF Full THEN {<<97, 98>>, <<0>>} ELSE {})
Honest == {[by |-> m, d |-> DigestOf(c, m).v] : c \in DigestCodes, m \in Msgs}
Flip(d) == [d EXCEPT !.raw = Take(d.raw, Len(d.raw) - 1) \o <<(d.raw[Len(d.raw)] + 1) % 256>>]
Front(d) == [d EXCEPT !.raw = <<(d.raw[1] + 128) % 256>> \o Tail(d.raw)]
\* a digest relabelled with another code of the same length
Relabel(d) == {[d EXCEPT !.code = c] : c \in {c \in DigestCodes : c # d.code /\ MatterSz[c].fs = MatterSz[d.code].fs}}
Forged == {[by |-> <<999>>, d |-> Flip(h.d)] : h \in Honest} \cup {[by |-> <<999>>, d |-> Front(h.d)] : h \in Honest}
          \cup UNION {{[by |-> <<999>>, d |-> x] : x \in Relabel(h.d)} : h \in {h \in Honest : h.by = <<97>>}}
Init == a \in Honest \cup Forged /\ b = a /\ msg = << >> /\ stage = "made"
Verify(m) == stage = "made" /\ msg' = m /\ stage' = "verified" /\ Line([op |-> "h.ver", dig |-> MatterText(a.d), ser |-> m]) /\ UNCHANGED <<a, b>>
Compare(x, m) == /\ stage = "made" /\ b' = x /\ msg' = m /\ stage' = "compared"
                 /\ \A f \in {"dig", "diger"} : Line([op |-> "h.cmp", a |-> MatterText(a.d), b |-> MatterText(x.d), ser |-> m, form |-> f])
                 /\ UNCHANGED a
Next == \/ \E m \in Msgs : Verify(m)
        \/ \E x \in Honest \cup (IF Full THEN Forged ELSE {f \in Forged : f.d.code = a.d.code}) : \E m \in Msgs : Compare(x, m)
Spec == Init /\ [][Next]_vars
Accepts == stage = "verified" => (DigestVerifies(a.d, msg) <=> a.by = msg)
Agree == stage = "compared" => (DigestsAgree(a.d, b.d, msg) <=> (a = b \/ a.d = b.d \/ (a.by = msg /\ b.by = msg)))
Symmetric == stage = "compared" => DigestsAgree(a.d, b.d, msg) = DigestsAgree(b.d, a.d, msg)
=============================================================================
