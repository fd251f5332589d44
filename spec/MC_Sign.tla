------------------------------- MODULE MC_Sign -------------------------------
(* Signing for every suite and every position at and around the limits, and   *)
(* delivery of a signature to a verifier with one of key, message, signature  *)
(* or suite exchanged.                                                         *)
EXTENDS Sign, Json, IOUtils
VARIABLES code, only, index, ondex, got, stage
vars == <<code, only, index, ondex, got, stage>>
Line(o) == PrintT("OP " \o ToJson(o))
Full == IOEnv.FULL = "1"
Seed == Tup([i \in 1 .. 32 |-> (i * 37 + 11) % 256])
Ix == IF Full THEN (0 .. 70) \cup {127, 128, 4032, 4094, 4095, 4096, 4097, 262143, 262144}
      ELSE {0, 1, 2, 31, 62, 63, 64, 65, 127, 4094, 4095, 4096, 262144}
Init == /\ code \in SeedCodes /\ only \in BOOLEAN /\ index \in Ix /\ ondex \in {<< >>} \cup {<<i>> : i \in Ix}
        /\ got = [k |-> "none"] /\ stage = "asked"
SignIt == /\ stage = "asked" /\ stage' = "signed" /\ got' = SignAt(code, only, index, ondex)
          /\ Line([op |-> "g.idx", code |-> B(code), seed |-> Seed, tr |-> TRUE, msg |-> <<109>>, only |-> only, index |-> BnOfInt(index),
                   ondex |-> IF ondex = << >> THEN << >> ELSE <<BnOfInt(ondex[1])>>])
          /\ UNCHANGED <<code, only, index, ondex>>
Next == SignIt
Spec == Init /\ [][Next]_vars
Want == IF only THEN 0 ELSE IF ondex = << >> THEN index ELSE ondex[1]
Made == stage = "signed" /\ IsOk(got)
\* the request is stated exactly
States == Made => got.v.index = index /\ got.v.ondex = Want
\* by a code of the suite, for the lists asked for
Lists == Made => /\ got.v.code \in TypeCodes["Siger"]
                 /\ (got.v.code \in CurrentCodes) = only
                 /\ (got.v.code \in BothCodes) = ~ only
OfSuite == Made => SubSeq(got.v.code, Len(got.v.code), Len(got.v.code)) \in
                   (CASE code = "A" -> {"A", "B"} [] code = "J" -> {"C", "D"} [] code = "Q" -> {"E", "F"})
\* the smallest code that can say it
Least == Made => LET small == index < 64 /\ (only \/ Want = index) IN Len(got.v.code) = (IF small THEN 1 ELSE 2)
\* and it survives serialisation
Survives == Made => LET x == [code |-> got.v.code, index |-> got.v.index, ondex |-> got.v.ondex, raw |-> Zeros(64)]
                    IN /\ IndexerParseText(IndexerText(x)) = Ok(x)
                       /\ IndexerParseBin(IndexerBin(x)) = Ok(x)
RefusedOnly == (stage = "signed" /\ ~ IsOk(got)) => index > 4095 \/ (~ only /\ ondex # << >> /\ ondex[1] > 4095)
=============================================================================
