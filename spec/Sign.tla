-------------------------------- MODULE Sign --------------------------------
(***************************************************************************)
(* Digests, signing keys, signatures and indexed signatures.               *)
(***************************************************************************)
EXTENDS Typed

\* ----------------------------------------------------------------- digests
DigestOf(code, ser) == IF code \notin DigestCodes THEN Err ELSE Ok([code |-> code, size |-> 0, raw |-> HashBytes(code, ser)])
DigestVerifies(d, ser) == HashBytes(d.code, ser) = d.raw
\* two digests agree on a message: they are the same one, or both digest it under different algorithms
DigestsAgree(a, b, ser) == \/ a = b
                           \/ a.code # b.code /\ DigestVerifies(a, ser) /\ DigestVerifies(b, ser)

\* ------------------------------------------------------------------ signing
SeedCodes == {"A", "J", "Q"}
VerferCode(seedcode, transferable) ==
    CASE seedcode = "A" -> IF transferable THEN "D" ELSE "B"
      [] seedcode = "J" -> IF transferable THEN "1AAB" ELSE "1AAA"
      [] seedcode = "Q" -> IF transferable THEN "1AAJ" ELSE "1AAI"
CigarCode(seedcode) == CASE seedcode = "A" -> "0B" [] seedcode = "J" -> "0C" [] seedcode = "Q" -> "0I"
VerferOf(signer, transferable) == [code |-> VerferCode(signer.code, transferable), size |-> 0,
                                   raw |-> PublicKey(Suite(signer.code), signer.raw)]
\* does this signature verify under this key for this message
Verifies(verfer, sig, msg) == SigValid(Suite(verfer.code), verfer.raw, msg, sig)

\* ---------------------------------------------------------- indexed signing
SmallBoth(sc) == CASE sc = "A" -> "A" [] sc = "J" -> "C" [] sc = "Q" -> "E"
SmallCrt(sc) == CASE sc = "A" -> "B" [] sc = "J" -> "D" [] sc = "Q" -> "F"
BigBoth(sc) == "2" \o SmallBoth(sc)
BigCrt(sc) == "2" \o SmallCrt(sc)
\* ondex: << >> when not given.  What the indexed signature says (its raw is the signature)
SignAt(sc, only, index, ondex) ==
    IF only
    THEN IF index > 4095 THEN Err
         ELSE Ok([code |-> IF index < 64 THEN SmallCrt(sc) ELSE BigCrt(sc), index |-> index, ondex |-> 0])
    ELSE LET o == IF ondex = << >> THEN index ELSE ondex[1] IN
         IF index > 4095 \/ o > 4095 THEN Err
         ELSE Ok([code |-> IF index = o /\ index < 64 THEN SmallBoth(sc) ELSE BigBoth(sc), index |-> index, ondex |-> o])
=============================================================================
