------------------------------- MODULE T_Any -------------------------------
(***************************************************************************)
(* General constructors, given any combination of their arguments, and the *)
(* WebAssembly bindings: a binding returns what the core call it stands    *)
(* for returns (w.call), whatever that is specified to be.                 *)
(***************************************************************************)
EXTENDS T_Fresh

AnyMaterial(e) == e.raw # << >> \/ e.qb64b # << >> \/ e.qb64 # << >> \/ e.qb2 # << >>
\* the material looked at: raw first, then text as bytes, text, binary
AnyRead(t, e) ==
    IF e.raw # << >>
    THEN IF t # "Siger" THEN TypedRaw(t, OptStr(e.code), e.raw[1])
         ELSE IF e.code = << >> THEN Err
         ELSE OfType(t, IndexerFromRaw(Str(e.code[1]), e.raw[1], IF e.index = << >> THEN 0 ELSE BnInt(e.index[1]),
                                       IF e.ondex = << >> THEN << >> ELSE <<BnInt(e.ondex[1])>>))
    ELSE IF e.qb64b # << >> THEN TypedParse(t, "qb64b", e.qb64b[1])
    ELSE IF e.qb64 # << >> THEN TypedParse(t, "qb64", e.qb64[1])
    ELSE TypedParse(t, "qb2", e.qb2[1])
\* made from a value, or from nothing at all
AnyValue(t, e) ==
    CASE t = "Number" -> IF e.num # << >> THEN NumberOf(e.num[1]) ELSE IF e.txt # << >> THEN NumberOfHex(e.txt[1]) ELSE NumberOf(<< >>)
      [] t = "Seqner" -> IF e.num # << >> THEN SeqnerOf(e.num[1]) ELSE IF e.txt # << >> THEN SeqnerOfHex(e.txt[1]) ELSE SeqnerOf(<< >>)
      [] t = "Dater" -> IF e.txt # << >> THEN DaterOf(e.txt[1]) ELSE Err
      [] t \in {"Bexter", "Pather"} -> IF e.txt # << >> THEN OfType(t, BexterOf(IF e.code = << >> THEN "4A" ELSE Str(e.code[1]), e.txt[1])) ELSE Err
      [] t = "Diger" -> IF e.ser # << >> THEN DigestOf(IF e.code = << >> THEN "E" ELSE Str(e.code[1]), e.ser[1]) ELSE Err
      [] OTHER -> Err
AnyObs(t, e, r) ==
    LET key == IF e.key = << >> THEN << >> ELSE <<TypedParse("Verfer", "qb64", e.key[1])>>
    IN IF ~ IsOk(r) THEN r
       ELSE CASE t \in {"Number", "Seqner", "Dater", "Bexter"} -> SomeTyped(t, r)
              [] t = "Signer" -> Ok(GObs(r.v, Default(e.tr, TRUE)))
              [] t = "Salter" -> Ok(MObs(r.v) @@ [tier |-> IF e.tier = << >> THEN B("low") ELSE e.tier[1]])
              [] t \in {"Cigar", "Siger"} /\ key # << >> ->
                    Ok((IF t = "Siger" THEN IObs(r.v) ELSE MObs(r.v)) @@ [verfer |-> MObs(key[1].v)])
              [] OTHER -> TObs(t, r)
---------------------------------------------------------------------------
(* When a date-time was: seconds since 1970, up to 2037.                   *)
DaysTo(y) == (y - 1970) * 365 + ((y - 1) \div 4 - 1969 \div 4) - ((y - 1) \div 100 - 1969 \div 100) + ((y - 1) \div 400 - 1969 \div 400)
RECURSIVE DaysIn(_, _)
DaysIn(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + MonthDays(y, m - 1)
Epoch(s) == LET off == Two(s, 28) * 3600 + Two(s, 31) * 60
                local == (DaysTo(Year(s)) + DaysIn(Year(s), Two(s, 6)) + Two(s, 9) - 1) * 86400 + Two(s, 12) * 3600 + Two(s, 15) * 60 + Two(s, 18)
            IN IF s[27] = 45 THEN local + off ELSE local - off
\* a date-time made without arguments: now
Now(e) == LET v == e.r.v IN
          /\ e.r.k = "ok" /\ v.dts.k = "ok" /\ DtsValid(v.dts.v)
          /\ v = DObs(DaterOf(v.dts.v).v) @@ [since |-> v.since, until |-> v.until]
          /\ Year(v.dts.v) \in 1970 .. 2037
          /\ BnInt(v.since) <= Epoch(v.dts.v) /\ Epoch(v.dts.v) <= BnInt(v.until)

---------------------------------------------------------------------------
(* What is made from documents: the buffer goes before the content and     *)
(* that before another event; raw material with its code, then a document, *)
(* then other material, makes an identifier; material goes before the      *)
(* event a prefix is derived from; of several threshold expressions, all   *)
(* must be valid and the last one holds.                                   *)
EventAny(e) ==
    LET f == IF e.from = << >> THEN Ok(<< >>)
             ELSE Exhale(JParse(e.from[1]).v, << >>, IF e.fcode = << >> THEN "E" ELSE Str(e.fcode[1]), Ident(e))
    IN IF ~ IsOk(f) THEN Err
       ELSE IF e.raw # << >> THEN (IF InhaleOpen(e.raw[1]) THEN [k |-> "any"] ELSE Map(FObs, Inhale(e.raw[1], FCode(e), Ident(e))))
       ELSE IF e.doc # << >> THEN Map(FObs, Exhale(JParse(e.doc[1]).v, e.kind, FCode(e), Ident(e)))
       ELSE IF e.from # << >> THEN Map(FObs, f) ELSE Err
SaiderAny(e) ==
    IF e.raw # << >> /\ e.code # << >> THEN Map(MObs, TypedRaw("Saider", OptStr(e.code), e.raw[1]))
    ELSE IF e.doc # << >> THEN Map(MObs, SaidOf(JParse(e.doc[1]).v, OptS(e.code), e.kind, Label(e), {}))
    ELSE IF e.raw # << >> \/ ~ AnyMaterial(e) THEN Err
    ELSE Alongside("Saider", e, Map(MObs, AnyRead("Saider", e)))
PrefixerAny(e) ==
    IF AnyMaterial(e) THEN LET r == Map(MObs, AnyRead("Prefixer", e)) IN IF e.raw # << >> THEN r ELSE Alongside("Prefixer", e, r)
    ELSE IF e.doc # << >> THEN Map(MObs, PrefixOf(JParse(e.doc[1]).v, OptS(e.code), << >>)) ELSE Err
TholderAny(e) ==
    LET given == (IF e.thold = << >> THEN << >> ELSE <<[form |-> "thold", doc |-> e.thold[1]]>>)
                 \o (IF e.limen = << >> THEN << >> ELSE <<[form |-> "limen", limen |-> e.limen[1]]>>)
                 \o (IF e.sith = << >> THEN << >> ELSE <<[form |-> "sith", doc |-> e.sith[1]]>>)
        made == Tup([i \in 1 .. Len(given) |-> ThFrom(given[i])])
    \* an empty text may count as given or not
    IN IF e.limen = <<<< >>>> \/ \E i \in 1 .. Len(given) : ThOpen(given[i]) THEN [k |-> "any"]
       ELSE IF given = << >> \/ \E i \in 1 .. Len(given) : ~ IsOk(made[i]) THEN Err
       ELSE Ok(ThObs(made[Len(made)].v))

AnyOps == {"t.any", "t.key", "sr.any", "sd.any", "px.any", "th.any"}
KeyObs(e) == LET t == e.type
                 r == IF e.via = "raw" THEN AnyRead(t, [e EXCEPT !.raw = <<e.in>>]) ELSE TypedParse(t, e.via, e.in)
             IN AnyObs(t, [e EXCEPT !.key = <<e.key>>], r)
AnyExpect(e) ==
    CASE e.op = "t.key" -> KeyObs(e)
      [] e.op = "sr.any" -> EventAny(e)
      [] e.op = "sd.any" -> SaiderAny(e)
      [] e.op = "px.any" -> PrefixerAny(e)
      [] e.op = "th.any" -> TholderAny(e)
      [] OTHER -> LET t == e.type IN
    IF AnyMaterial(e)
    THEN LET r == AnyRead(t, e) IN
         \* Base64 text given as such goes before the material
         IF t \in {"Bexter", "Pather"} /\ e.txt # << >> THEN [k |-> "any"]
         ELSE IF t = "Diger" /\ ~ IsOk(r) /\ e.ser # << >> THEN [k |-> "any"]
         \* raw material goes first, but the code it has by itself may not be the one meant alongside other material
         ELSE IF t = "Signer" /\ e.raw # << >> /\ e.code = << >> /\ (e.qb64b # << >> \/ e.qb64 # << >> \/ e.qb2 # << >>)
              THEN LET o == AnyObs(t, e, r) IN IF IsOk(o) THEN [k |-> "maybe", v |-> o.v] ELSE o
         ELSE IF e.raw # << >> THEN AnyObs(t, e, r) ELSE Alongside(t, e, AnyObs(t, e, r))
    ELSE CASE t = "Dater" /\ e.txt = << >> -> Holds(Now(e), "the time between since and until")
           [] t = "Salter" -> SlExpect([e EXCEPT !.op = "sl.make"] @@ [via |-> "none", own |-> e.tier])
           [] t = "Signer" -> SignExpect([e EXCEPT !.op = "g.gen"])
           [] t \in {"Number", "Seqner", "Dater"} -> Alongside(t, e, AnyObs(t, e, AnyValue(t, e)))
           [] OTHER -> AnyObs(t, e, AnyValue(t, e))
---------------------------------------------------------------------------
WasmOps == {"w.num", "w.val", "w.codes"}
WasmMatter == [Ed25519Seed |-> "A", Ed25519N |-> "B", X25519 |-> "C", Ed25519 |-> "D", Blake3_256 |-> "E", Blake2b_256 |-> "F", Blake2s_256 |-> "G",
    SHA3_256 |-> "H", SHA2_256 |-> "I", ECDSA_256k1_Seed |-> "J", Ed448_Seed |-> "K", X448 |-> "L", Short |-> "M", Big |-> "N", X25519_Private |-> "O",
    X25519_Cipher_Seed |-> "P", Salt_128 |-> "0A", Ed25519_Sig |-> "0B", ECDSA_256k1_Sig |-> "0C", Blake3_512 |-> "0D", Blake2b_512 |-> "0E",
    SHA3_512 |-> "0F", SHA2_512 |-> "0G", Long |-> "0H", ECDSA_256k1N |-> "1AAA", ECDSA_256k1 |-> "1AAB", Ed448N |-> "1AAC", Ed448 |-> "1AAD",
    Ed448_Sig |-> "1AAE", Tern |-> "1AAF", DateTime |-> "1AAG", X25519_Cipher_Salt |-> "1AAH", TBD1 |-> "2AAA", TBD2 |-> "3AAA",
    StrB64_L0 |-> "4A", StrB64_L1 |-> "5A", StrB64_L2 |-> "6A", StrB64_Big_L0 |-> "7AAA", StrB64_Big_L1 |-> "8AAA", StrB64_Big_L2 |-> "9AAA",
    Bytes_L0 |-> "4B", Bytes_L1 |-> "5B", Bytes_L2 |-> "6B", Bytes_Big_L0 |-> "7AAB", Bytes_Big_L1 |-> "8AAB", Bytes_Big_L2 |-> "9AAB"]
WasmIndexer == [Ed25519 |-> "A", Ed25519_Crt |-> "B", ECDSA_256k1 |-> "C", ECDSA_256k1_Crt |-> "D", Ed448 |-> "0A", Ed448_Crt |-> "0B",
    Ed25519_Big |-> "2A", Ed25519_Big_Crt |-> "2B", ECDSA_256k1_Big |-> "2C", ECDSA_256k1_Big_Crt |-> "2D", Ed448_Big |-> "3A", Ed448_Big_Crt |-> "3B",
    TBD0 |-> "0z", TBD1 |-> "1z", TBD4 |-> "4z"]
CodesOf(t) == [n \in DOMAIN t |-> B(t[n])]
WasmExpect(e) ==
    CASE e.op = "w.num" -> Ok(e.num)
      [] e.op = "w.val" -> LET d == DocExpect([op |-> "j.parse", in |-> e.in]) IN
                           IF ~ IsOk(d) THEN Err ELSE Ok([text |-> e.in, json |-> Ok(d.v.json), same |-> TRUE])
      [] e.op = "w.codes" -> Ok([matter |-> CodesOf(WasmMatter), indexer |-> CodesOf(WasmIndexer)])
=============================================================================
