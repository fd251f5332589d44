-------------------------------- MODULE T_Sad --------------------------------
EXTENDS Sad, T_Threshold

OptS(o) == IF o = << >> THEN << >> ELSE <<Str(o[1])>>
Labels(o) == IF o = << >> THEN {} ELSE {o[1][i] : i \in 1 .. Len(o[1])}
Label(e) == IF e.label = << >> THEN LD ELSE e.label[1]
VsObs(p) == [ident |-> p.ident, kind |-> p.kind, major |-> p.major, minor |-> p.minor, size |-> BnOfInt(p.size)]
FObs(f) == [raw |-> f.raw, ked |-> JPrint(f.ked), ident |-> f.ident, kind |-> B("JSON"), size |-> BnOfInt(Len(f.raw)), major |-> 1, minor |-> 0,
            code |-> B(f.said.code), said |-> Ok(MatterText(f.said)), saidb |-> Ok(MatterText(f.said)), saider |-> MObs(f.said)]
Ident(e) == IF e.as = "creder" THEN B("ACDC") ELSE B("KERI")
FCode(e) == IF e.code = << >> THEN "E" ELSE Str(e.code[1])
SaidObs(r) == IF IsOk(r) THEN Ok([id |-> MObs(r.v.id), sad |-> JPrint(r.v.sad)]) ELSE Err

SadOps == {"v.de", "v.mk", "v.size", "v.sniff", "sd.said", "sd.new", "sd.ver", "sr.raw", "sr.ked", "sr.life"}
SadExpect(e) ==
    CASE e.op = "v.de" -> LET r == Deversify(e.in) IN IF IsOk(r) THEN Ok(VsObs(r.v)) ELSE Err
      [] e.op = "v.mk" -> Versify(IF e.ident = << >> THEN B("KERI") ELSE e.ident[1],
                                  IF e.version = << >> THEN 1 ELSE e.version[1][1], IF e.version = << >> THEN 0 ELSE e.version[1][2],
                                  IF e.kind = << >> THEN B("JSON") ELSE e.kind[1], IF e.size = << >> THEN << >> ELSE e.size[1])
      [] e.op = "v.size" -> LET r == Sizeify(Parsed(e), e.kind) IN
                            IF IsOk(r) THEN Ok([raw |-> r.v.raw, ked |-> JPrint(r.v.ked), ident |-> r.v.ident, kind |-> B("JSON"), major |-> 1, minor |-> 0]) ELSE Err
      [] e.op = "v.sniff" -> LET r == Sniff(e.in) IN IF IsOk(r) THEN Ok(VsObs(r.v)) ELSE Err
      [] e.op = "sd.said" -> SaidObs(Saidify(Parsed(e), IF e.code = << >> THEN "E" ELSE Str(e.code[1]), e.kind, Label(e), Labels(e.ignore)))
      [] e.op = "sd.new" -> Map(MObs, SaidOf(Parsed(e), OptS(e.code), e.kind, Label(e), Labels(e.ignore)))
      [] e.op = "sd.ver" -> LET m == TypedParse("Saider", "qb64", e.id) IN
                            IF ~ IsOk(m) THEN Err
                            ELSE Ok(SaidVerifies(m.v, Parsed(e), e.prefixed # << >> /\ e.prefixed[1], e.versioned = << >> \/ e.versioned[1],
                                                 e.kind, Label(e), Labels(e.ignore)))
      [] e.op = "sr.raw" -> IF InhaleOpen(e.in) THEN [k |-> "any"] ELSE Map(FObs, Inhale(e.in, FCode(e), Ident(e)))
      [] e.op = "sr.ked" -> Map(FObs, Exhale(Parsed(e), e.kind, FCode(e), Ident(e)))
      \* written, followed by other bytes, read back
      [] e.op = "sr.life" -> LET r == Exhale(Parsed(e), << >>, FCode(e), Ident(e)) IN
                             IF IsOk(r) THEN Ok([made |-> FObs(r.v), read |-> Ok(FObs(r.v)), short |-> Err]) ELSE Err

\* an identifier with one bit altered, or read as of another code
FlipBit(b, k) == LET p == 2 ^ k IN IF (b \div p) % 2 = 1 THEN b - p ELSE b + p
AlteredRaw(e, raw) == IF "alt" \notin DOMAIN e \/ e.alt = << >> THEN raw
                      ELSE LET i == (e.alt[1][1] % Len(raw)) + 1 IN [raw EXCEPT ![i] = FlipBit(raw[i], e.alt[1][2])]
AlteredId(type, e, m) == IF ("alt" \notin DOMAIN e \/ e.alt = << >>) /\ ("recode" \notin DOMAIN e \/ e.recode = << >>) THEN Ok(m)
                         ELSE OfType(type, MatterFromRaw(IF "recode" \in DOMAIN e /\ e.recode # << >> THEN Str(e.recode[1]) ELSE m.code, AlteredRaw(e, m.raw)))
\* a document under edit: [doc, id]
SadSession == {"ds.open", "ds.set", "ds.del", "ds.said", "ds.ver"}
SadStep(e, s) ==
    CASE e.op = "ds.open" -> LET v == Parsed(e) IN [x |-> Ok(JPrint(v)), s |-> [doc |-> v, id |-> << >>]]
      [] e.op = "ds.set" -> LET v == With(s.doc, e.at, JParse(e.val).v) IN [x |-> Ok(JPrint(v)), s |-> [s EXCEPT !.doc = v]]
      [] e.op = "ds.del" -> LET v == Without(s.doc, {e.at}) IN [x |-> Ok(JPrint(v)), s |-> [s EXCEPT !.doc = v]]
      [] e.op = "ds.said" -> LET r == Saidify(s.doc, IF e.code = << >> THEN "E" ELSE Str(e.code[1]), << >>, Label(e), Labels(e.ignore)) IN
                             [x |-> SaidObs(r), s |-> IF IsOk(r) THEN [doc |-> r.v.sad, id |-> <<r.v.id>>] ELSE s]
      [] e.op = "ds.ver" -> [x |-> IF s.id = << >> THEN Err
                                   ELSE LET m == AlteredId("Saider", e, s.id[1]) IN
                                        Ok(IsOk(m) /\ SaidVerifies(m.v, s.doc, e.prefixed # << >> /\ e.prefixed[1], e.versioned = << >> \/ e.versioned[1],
                                                        << >>, Label(e), Labels(e.ignore))), s |-> s]
=============================================================================
