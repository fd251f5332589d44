------------------------------ MODULE T_Typed ------------------------------
EXTENDS Typed, T_Codec

NObs(m) == MObs(m) @@ [num |-> Ok(NumVal(m)), numh |-> Ok(BnHex(NumVal(m))), pos |-> Ok(NumVal(m) # << >>)]
SObs(m) == MObs(m) @@ [sn |-> Ok(NumVal(m)), snh |-> Ok(BnHex(NumVal(m)))]
DObs(m) == MObs(m) @@ [dts |-> Ok(Dts(m)), dtsb |-> Ok(Dts(m))]
BObs(m) == MObs(m) @@ [bext |-> Ok(Bext(m))]

OptStr(o) == IF o = << >> THEN << >> ELSE <<Str(o[1])>>
\* a code handed along with other material has no say; a foreign one may also be refused
Alongside(t, e, r) == IF e.code = << >> \/ Str(e.code[1]) \in TypeCodes[t] THEN r
                      ELSE IF IsOk(r) THEN [k |-> "maybe", v |-> r.v] ELSE r
TObs(t, r) == IF t = "Siger" THEN Map(IObs, r) ELSE Map(MObs, r)
SomeTyped(t, r) == CASE t = "Number" -> Map(NObs, r) [] t = "Seqner" -> Map(SObs, r) [] t = "Dater" -> Map(DObs, r)
                     [] t = "Bexter" -> Map(BObs, r)
Plus(s) == s # << >> /\ s[1] = 43            \* a leading + sign is left open

TypedOps == {"t.raw", "t.par", "n.num", "n.numh", "n.raw", "n.par", "n.none", "s.sn", "s.snh", "s.raw", "s.par", "s.none", "d.dts", "d.raw", "d.par",
             "b.bext", "b.raw", "b.par"}
ValType(op) == CASE op \in {"n.raw", "n.par"} -> "Number" [] op \in {"s.raw", "s.par"} -> "Seqner"
                 [] op \in {"d.raw", "d.par"} -> "Dater" [] op \in {"b.raw", "b.par"} -> "Bexter"
TypedExpect(e) ==
    CASE e.op = "t.raw" -> TObs(e.type, TypedRaw(e.type, OptStr(e.code), e.raw))
      [] e.op = "t.par" -> LET r == TObs(e.type, TypedParse(e.type, e.via, e.in)) IN Alongside(e.type, e, r)
      [] e.op = "n.num" -> Map(NObs, NumberOf(e.num))
      [] e.op = "n.numh" -> IF Plus(e.in) THEN [k |-> "any"] ELSE Map(NObs, NumberOfHex(e.in))
      [] e.op = "n.none" -> Map(NObs, NumberOf(<< >>))
      [] e.op = "s.sn" -> Map(SObs, SeqnerOf(e.num))
      [] e.op = "s.snh" -> IF Plus(e.in) THEN [k |-> "any"] ELSE Map(SObs, SeqnerOfHex(e.in))
      [] e.op = "s.none" -> Map(SObs, SeqnerOf(<< >>))
      [] e.op = "d.dts" -> IF DtsOpen(e.in) THEN [k |-> "any"] ELSE Map(DObs, DaterOf(e.in))
      [] e.op = "b.bext" -> Map(BObs, BexterOf("4A", e.in))
      [] e.op \in {"n.raw", "s.raw", "d.raw", "b.raw"} -> SomeTyped(ValType(e.op), TypedRaw(ValType(e.op), OptStr(e.code), e.raw))
      [] e.op \in {"n.par", "s.par", "d.par", "b.par"} -> SomeTyped(ValType(e.op), TypedParse(ValType(e.op), e.via, e.in))
=============================================================================
