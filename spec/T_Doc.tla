-------------------------------- MODULE T_Doc --------------------------------
(* JSON values: reading, writing, converting, and editing in place. *)
EXTENDS T_Sad

VObs(v) == [v |-> v, json |-> JPrint(v), show |-> JPrint(v), again |-> Ok(v)]
\* the integer part of a double below 2^63 in size; beyond that it is left open
DblExp(h) == (h[1] % 128) * 16 + h[2] \div 16
DblMant(h) == BnStrip(<<(IF DblExp(h) = 0 THEN 0 ELSE 16) + (h[2] % 16)>> \o SubSeq(h, 3, 8))
ShiftUp(b, k) == IF b = << >> THEN b ELSE BnMulAdd(b, Pow(2, k % 8), 0) \o Zeros(k \div 8)
ShiftDown(b, k) == LET x == BnMulAdd(b, Pow(2, 8 - (k % 8)), 0)
                       n == k \div 8 + 1
                   IN IF Len(x) <= n THEN << >> ELSE Take(x, Len(x) - n)
DblWhole(h) == LET e == DblExp(h) - 1075
                   v == IF DblExp(h) < 1023 THEN << >> ELSE IF e >= 0 THEN ShiftUp(DblMant(h), e) ELSE ShiftDown(DblMant(h), -e)
               IN IF DblExp(h) >= 1086 THEN [k |-> "any"]
                  ELSE Ok((IF h[1] >= 128 /\ v # << >> THEN <<45>> ELSE << >>) \o BnDec(v))
\* the same content; the order of fields is of no account, and the two zeros are left open
RECURSIVE SameDoc(_, _), Zeroes(_)
Zeroes(v) == CASE v.t = "flt" -> DblExp(v.h) = 0 /\ DblMant(v.h) = << >>
               [] v.t = "arr" -> \E i \in 1 .. Len(v.a) : Zeroes(v.a[i])
               [] v.t = "obj" -> \E i \in 1 .. Len(v.o) : Zeroes(v.o[i].v)
               [] OTHER -> FALSE
SameDoc(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in 1 .. Len(a.a) : SameDoc(a.a[i], b.a[i])
         [] a.t = "obj" -> Len(a.o) = Len(b.o) /\ \A i \in 1 .. Len(a.o) : \E j \in 1 .. Len(b.o) : a.o[i].k = b.o[j].k /\ SameDoc(a.o[i].v, b.o[j].v)
         [] OTHER -> a = b
Conv(v) ==
    [bool |-> IF v.t = "bool" THEN Ok(v.b) ELSE Err, str |-> IF v.t = "str" THEN Ok(v.s) ELSE Err,
     i64 |-> IF v.t = "int" THEN Ok(v.n) ELSE Err, f64 |-> IF v.t = "flt" THEN Ok(v.h) ELSE Err,
     vec |-> IF v.t = "arr" THEN Ok(v.a) ELSE Err, map |-> IF v.t = "obj" THEN Ok(v.o) ELSE Err,
     tbool |-> IF v.t = "bool" THEN Ok(v.b) ELSE Err, tstr |-> IF v.t = "str" THEN Ok(v.s) ELSE Err,
     ti64 |-> IF v.t = "int" THEN Ok(v.n) ELSE IF v.t = "flt" THEN DblWhole(v.h) ELSE Err,
     tf64 |-> IF v.t = "int" THEN Ok(DoubleBits(v.n)) ELSE IF v.t = "flt" THEN Ok(v.h) ELSE Err,
     tvec |-> IF v.t = "arr" THEN Ok(v.a) ELSE Err, tmap |-> IF v.t = "obj" THEN Ok(v.o) ELSE Err]
DocOps == {"j.parse", "j.deep", "j.build", "j.lit", "j.from", "j.conv", "j.eq", "j.hash"}
DocExpect(e) ==
    CASE e.op \in {"j.parse", "j.lit"} -> Map(VObs, JParse(e.in))
      [] e.op = "j.deep" -> Map(JPrint, JParse(e.in))
      [] e.op = "j.build" -> Ok(VObs(e.val))
      [] e.op = "j.from" -> Ok(VObs(IF e.kind \in {"f64", "f32"} THEN JFlt(DoubleBits(e.num)) ELSE JInt(e.num)))
      [] e.op = "j.conv" -> [k |-> "rec", v |-> [f \in DOMAIN Conv(Parsed(e)) |-> Conv(Parsed(e))[f]]]
      [] e.op = "j.eq" -> LET a == Parsed(e)
                              b == JParse(e.other).v
                          IN IF Zeroes(a) /\ Zeroes(b) THEN [k |-> "any"] ELSE Ok(SameDoc(a, b))
      [] e.op = "j.hash" -> Ok([n |-> Len(e.o), v |-> [i \in 1 .. Len(e.o) |-> e.o[i].v] \o << >>])

\* paths: sequences of [l |-> label] or [p |-> position from 0]
IsLabel(s) == "l" \in DOMAIN s
Child(v, s) == IF IsLabel(s) THEN FieldOf(v, s.l) ELSE IF IsArr(v) THEN v.a[s.p + 1] ELSE v.o[s.p + 1].v
SetChild(v, s, x) == IF IsLabel(s) THEN With(v, s.l, x)
                     ELSE IF IsArr(v) THEN JArr([v.a EXCEPT ![s.p + 1] = x]) ELSE JObj([v.o EXCEPT ![s.p + 1] = JF(@.k, x)])
RECURSIVE Reach(_, _, _), SetAt(_, _, _, _)
Reach(v, p, i) == IF i > Len(p) THEN v ELSE Reach(Child(v, p[i]), p, i + 1)
SetAt(v, p, i, x) == IF i > Len(p) THEN x ELSE
                     \* a new label starts out empty
                     SetChild(v, p[i], IF i = Len(p) THEN x ELSE SetAt(Child(v, p[i]), p, i + 1, x))
DocSession == {"je.open", "je.get", "je.put", "je.del", "je.push"}
DocStep(e, s) ==
    CASE e.op = "je.open" -> [x |-> Ok(JPrint(Parsed(e))), s |-> Parsed(e)]
      [] e.op = "je.get" -> [x |-> Ok(JPrint(Reach(s, e.path, 1))), s |-> s]
      [] e.op = "je.put" -> LET v == SetAt(s, e.path, 1, JParse(e.val).v) IN [x |-> Ok(JPrint(v)), s |-> v]
      [] e.op = "je.del" -> LET at == Reach(s, e.path, 1) IN
                            IF ~ IsObj(at) THEN [x |-> Err, s |-> s]
                            ELSE LET v == SetAt(s, e.path, 1, Without(at, {e.at})) IN [x |-> Ok(JPrint(v)), s |-> v]
      [] e.op = "je.push" -> LET at == Reach(s, e.path, 1) IN
                             IF ~ IsArr(at) THEN [x |-> Err, s |-> s]
                             ELSE LET v == SetAt(s, e.path, 1, JArr(Append(at.a, JParse(e.val).v))) IN [x |-> Ok(JPrint(v)), s |-> v]
=============================================================================
