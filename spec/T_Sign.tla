------------------------------- MODULE T_Sign -------------------------------
EXTENDS Sign, T_Stream

Holds(p, x) == [k |-> "holds", p |-> p, v |-> x]      \* a condition on the recorded value itself
Bool(b) == Ok(b)
SignOps == {"h.ser", "h.any", "h.ver", "h.cmp", "g.new", "g.gen", "g.sign", "g.ver", "g.chk", "g.idx", "g.idxchk"}

SignerRaw(e) == IF ~ SeedOk(Suite(Str(e.code)), e.seed) THEN Err ELSE OfType("Signer", MatterFromRaw(Str(e.code), e.seed))
GObs(s, tr) == MObs(s) @@ [verfer |-> MObs(VerferOf(s, tr))]
Default(o, d) == IF o = << >> THEN d ELSE o[1]
AsDiger(t) == OfType("Diger", MatterParseText(t))

SignExpect(e) ==
    CASE e.op = "h.ser" -> Map(MObs, DigestOf(IF e.code = << >> THEN "E" ELSE Str(e.code[1]), e.ser))
      \* all arguments at once: material wins; without usable material the message is digested
      [] e.op = "h.any" -> LET m == MatterAny(e)  d == IF e.ser = << >> THEN Err ELSE DigestOf(IF e.code = << >> THEN "E" ELSE Str(e.code[1]), e.ser[1])
                               given == e.raw # << >> \/ e.qb64 # << >> \/ e.qb64b # << >> \/ e.qb2 # << >>
                           IN IF IsOk(m) THEN Map(MObs, OfType("Diger", m))
                              ELSE IF ~ IsOk(d) THEN Err
                              ELSE IF given THEN [k |-> "maybe", v |-> MObs(d.v)] ELSE Ok(MObs(d.v))
      [] e.op = "h.ver" -> LET d == AsDiger(e.dig) IN IF IsOk(d) THEN Ok(DigestVerifies(d.v, e.ser)) ELSE Err
      [] e.op = "h.cmp" -> LET a == AsDiger(e.a)  b == AsDiger(e.b) IN
            IF ~ IsOk(a) THEN Err
            ELSE IF IsOk(b) /\ e.b # MatterText(b.v) THEN [k |-> "any"]        \* followed by other material: left open
            ELSE Ok(IsOk(b) /\ DigestsAgree(a.v, b.v, e.ser))
      [] e.op = "g.new" -> LET r == IF e.via = "raw" THEN SignerRaw(e)
                                    ELSE TypedParse("Signer", e.via, e.in)
                           IN IF IsOk(r) THEN Ok(GObs(r.v, Default(e.tr, TRUE))) ELSE Err
      \* a fresh signer: any valid seed, with its own public key
      [] e.op = "g.gen" -> LET c == IF e.code = << >> THEN "A" ELSE Str(e.code[1]) IN
            IF c \notin SeedCodes THEN Err
            ELSE IF e.r.k # "ok" THEN Holds(FALSE, "a fresh signer")
            ELSE LET s == [code |-> c, size |-> 0, raw |-> e.r.v.raw] IN
                 IF Len(s.raw) = 32 /\ SeedOk(Suite(c), s.raw) THEN Ok(GObs(s, Default(e.tr, TRUE)))
                 ELSE Holds(FALSE, "a fresh signer with a valid seed")
      [] e.op = "g.sign" -> LET s == SignerRaw(e) IN
            IF ~ IsOk(s) THEN Err
            ELSE IF e.r.k # "ok" THEN Holds(FALSE, "a signature")
            ELSE LET v == VerferOf(s.v, e.tr)
                     sig == [code |-> CigarCode(s.v.code), size |-> 0, raw |-> e.r.v.raw]
                 IN IF Len(sig.raw) = 64 /\ Verifies(v, sig.raw, e.msg) THEN Ok(MObs(sig) @@ [verfer |-> MObs(v)])
                    ELSE Holds(FALSE, "a signature an independent verifier accepts")
      [] e.op = "g.ver" -> LET v == TypedParse("Verfer", "qb64", e.key) IN
            IF IsOk(v) THEN Ok(Verifies(v.v, e.sig, e.msg)) ELSE Err
      \* sign, alter, verify: the key, message and signature that were verified are recorded
      [] e.op = "g.chk" -> IF e.r.k # "ok" THEN Holds(FALSE, "a verdict")
            ELSE LET v == TypedParse("Verfer", "qb64", e.r.v.key)
                     yes == IsOk(v) /\ Verifies(v.v, e.r.v.sig, e.r.v.msg)
                 \* and the genuine one verifies before and after
                 IN Holds(e.r.v.yes = yes /\ (e.what = "none" => yes) /\ e.r.v.around = <<TRUE, TRUE>>, [yes |-> yes])
      [] e.op = "g.idx" -> LET s == SignerRaw(e)
                               a == SignAt(Str(e.code), e.only, BnInt(e.index), IF e.ondex = << >> THEN << >> ELSE <<BnInt(e.ondex[1])>>) IN
            IF ~ IsOk(s) \/ ~ IsOk(a) THEN Err
            ELSE IF e.r.k # "ok" THEN Holds(FALSE, [code |-> B(a.v.code), index |-> BnOfInt(a.v.index), ondex |-> BnOfInt(a.v.ondex)])
            ELSE LET v == VerferOf(s.v, e.tr)
                     g == [code |-> a.v.code, index |-> a.v.index, ondex |-> a.v.ondex, raw |-> e.r.v.raw]
                 IN IF Len(g.raw) = 64 /\ Verifies(v, g.raw, e.msg)
                    THEN Ok(IObs(g) @@ [verfer |-> MObs(v), verifies |-> Ok(TRUE)])
                    ELSE Holds(FALSE, "a signature an independent verifier accepts")
=============================================================================
