------------------------------ MODULE T_Salter ------------------------------
EXTENDS Salter, T_Event

SlOps == {"sl.make", "sl.stretch", "sl.signer", "sl.signers"}
OwnBytes(e) == IF e.own = << >> THEN B("low") ELSE e.own[1]
OwnTier(e) == IF e.own = << >> THEN "low" ELSE Str(e.own[1])
AtTier(e, own) == TierOf(own, OptS(e.at), Default(e.temp, FALSE))
PathIs(e) == IF e.path = << >> THEN << >> ELSE e.path[1]
SlMaterial(e) == IF e.via = "raw" THEN OfType("Salter", MatterFromRaw("0A", e.in)) ELSE TypedParse("Salter", e.via, e.in)
\* salter: [raw, own]
Stretched(e, s) == StretchTo(s.raw, PathIs(e), IF e.size = << >> THEN 32 ELSE BnInt(e.size[1]), AtTier(e, s.own))
SeedCode(e) == IF e.code = << >> THEN "A" ELSE Str(e.code[1])
SlSigner(e, s) == LET r == SaltedSigner(s.raw, PathIs(e), SeedCode(e), AtTier(e, s.own)) IN
                  IF IsOk(r) THEN Ok(GObs(r.v, Default(e.tr, TRUE))) ELSE Err
SlSigners(e, s) == LET r == SaltedSigners(s.raw, PathIs(e), SeedCode(e), AtTier(e, s.own), IF e.start = << >> THEN << >> ELSE e.start[1], IF e.count = << >> THEN 1 ELSE BnInt(e.count[1])) IN
                   IF IsOk(r) THEN Ok(Tup([i \in 1 .. Len(r.v) |-> GObs(r.v[i], Default(e.tr, TRUE))])) ELSE Err
Asked(e, s) == CASE e.op \in {"sl.stretch", "so.stretch"} -> Stretched(e, s)
                 [] e.op \in {"sl.signer", "so.signer"} -> SlSigner(e, s)
                 [] e.op \in {"sl.signers", "so.signers"} -> SlSigners(e, s)
SlExpect(e) ==
    IF e.op = "sl.make"
    THEN IF e.code # << >> /\ Str(e.code[1]) # "0A" THEN Err
         ELSE IF e.via = "none"
         THEN IF e.r.k # "ok" THEN Holds(FALSE, "a fresh salt")
              ELSE IF Len(e.r.v.raw) # 16 THEN Holds(FALSE, "a fresh salt of sixteen bytes")
              ELSE Ok(MObs([code |-> "0A", size |-> 0, raw |-> e.r.v.raw]) @@ [tier |-> OwnBytes(e)])
         ELSE LET m == SlMaterial(e) IN IF IsOk(m) THEN Ok(MObs(m.v) @@ [tier |-> OwnBytes(e)]) ELSE Err
    ELSE IF Len(e.salt) < 16 THEN Err ELSE Asked(e, [raw |-> Take(e.salt, 16), own |-> OwnTier(e)])
SlSession == {"so.open", "so.stretch", "so.signer", "so.signers"}
SlStep(e, s) == IF e.op = "so.open" THEN LET n == [raw |-> e.salt, own |-> OwnTier(e)] IN [x |-> Ok(e.salt), s |-> n]
                ELSE [x |-> Asked(e, s), s |-> s]
=============================================================================
