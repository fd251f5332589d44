------------------------------ MODULE T_Codec ------------------------------
(* What the specification says each recorded codec call must have returned. *)
EXTENDS Codec

MObs(m) == [code |-> B(m.code), size |-> BnOfInt(m.size), raw |-> m.raw,
            qb64 |-> Ok(MatterText(m)), qb64b |-> Ok(MatterText(m)), qb2 |-> Ok(MatterBin(m)),
            fs |-> Ok(BnOfInt(MatterFull(m))),
            dig |-> m.code \in DigestCodes, trn |-> m.code \notin NonTransferable]
IObs(x) == [code |-> B(x.code), index |-> BnOfInt(x.index), ondex |-> BnOfInt(x.ondex), raw |-> x.raw,
            qb64 |-> Ok(IndexerText(x)), qb64b |-> Ok(IndexerText(x)), qb2 |-> Ok(IndexerBin(x)),
            fs |-> Ok(BnOfInt(IndexerFull(x)))]
CObs(c) == [code |-> B(c.code), count |-> BnOfInt(c.count),
            qb64 |-> Ok(CounterText(c)), qb64b |-> Ok(CounterText(c)), qb2 |-> Ok(CounterBin(c)),
            fs |-> Ok(BnOfInt(CounterFull(c))),
            b64 |-> Ok(IntB64(c.count, CounterSz[c.code].ss))]

Map(Obs(_), r) == IF IsOk(r) THEN Ok(Obs(r.v)) ELSE Err

\* general constructor: material takes precedence in this order
MatterAny(e) ==
    IF e.raw # << >> THEN IF e.code = << >> THEN Err ELSE MatterFromRaw(Str(e.code[1]), e.raw[1])
    ELSE IF e.qb64b # << >> THEN MatterParse("qb64b", e.qb64b[1])
    ELSE IF e.qb64 # << >> THEN MatterParse("qb64", e.qb64[1])
    ELSE IF e.qb2 # << >> THEN MatterParse("qb2", e.qb2[1])
    ELSE Err

\* a code with a count (a number, or its digits; one if not said) takes precedence over material
RECURSIVE NoAs(_)
NoAs(t) == IF t # << >> /\ t[1] = 65 THEN NoAs(Tail(t)) ELSE t
CounterDigits(code, t) == IF IsB64(t) /\ Len(NoAs(t)) <= 5 THEN CounterNew(code, B64Int(NoAs(t))) ELSE Err
CounterAny(e) ==
    IF e.code # << >>
    THEN IF e.count # << >> THEN CounterNew(Str(e.code[1]), BnInt(e.count[1]))
         ELSE IF e.b64 = << >> THEN CounterNew(Str(e.code[1]), 1)
         ELSE CounterDigits(Str(e.code[1]), e.b64[1])
    ELSE IF e.qb64b # << >> THEN CounterParse("qb64b", e.qb64b[1])
    ELSE IF e.qb64 # << >> THEN CounterParse("qb64", e.qb64[1])
    ELSE IF e.qb2 # << >> THEN CounterParse("qb2", e.qb2[1])
    ELSE Err

CodecOps == {"m.raw", "m.par", "m.any", "i.raw", "i.par", "c.any", "c.new", "c.b64new", "c.b64", "c.par", "v.str", "v.parts",
             "mh.open", "mh.fill", "mh.set", "ih.fill", "ih.set"}
CodecExpect(e) ==
    CASE e.op = "m.raw" -> Map(MObs, MatterFromRaw(Str(e.code), e.raw))
      [] e.op = "m.par" -> Map(MObs, MatterParse(e.via, e.in))
      [] e.op = "m.any" -> Map(MObs, MatterAny(e))
      [] e.op = "i.raw" -> Map(IObs, IndexerFromRaw(Str(e.code), e.raw, BnInt(e.index),
                                                    IF e.ondex = << >> THEN << >> ELSE <<BnInt(e.ondex[1])>>))
      [] e.op = "i.par" -> Map(IObs, IndexerParse(e.via, e.in))
      [] e.op = "c.any" -> Map(CObs, CounterAny(e))
      [] e.op = "c.new" -> Map(CObs, CounterNew(Str(e.code), BnInt(e.count)))
      [] e.op = "c.b64new" -> Map(CObs, IF e.b64 = << >> THEN CounterNew(Str(e.code), 1) ELSE CounterDigits(Str(e.code), e.b64[1]))
      [] e.op = "c.b64" -> LET c == CounterNew(Str(e.code), BnInt(e.count)) IN
                           IF IsOk(c) THEN Ok(IntB64(c.v.count, e.len)) ELSE Err
      [] e.op = "c.par" -> Map(CObs, CounterParse(e.via, e.in))
      \* a primitive filled again holds what it is filled with and nothing of what it held
      [] e.op = "mh.open" -> Ok(TRUE)
      [] e.op = "mh.fill" -> Map(MObs, MatterParse(e.via, e.in))
      [] e.op = "ih.fill" -> Map(IObs, IndexerParse(e.via, e.in))
      \* set field by field to a value there is
      [] e.op = "mh.set" -> LET m == MatterFromRaw(Str(e.code), e.raw) IN
                            IF IsOk(m) /\ m.v.code = Str(e.code) /\ m.v.size = BnInt(e.size) THEN Map(MObs, m) ELSE [k |-> "any"]
      [] e.op = "ih.set" -> LET x == IndexerFromRaw(Str(e.code), e.raw, BnInt(e.index), <<BnInt(e.ondex)>>) IN
                            IF IsOk(x) /\ x.v.ondex = BnInt(e.ondex) THEN Map(IObs, x) ELSE [k |-> "any"]
      [] e.op = "v.str" -> SemVerStr(e.in)
      [] e.op = "v.parts" -> SemVer(e.in)
=============================================================================
