-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* JSON documents (RFC 8259) as values, and their compact text.            *)
(*                                                                         *)
(*   [t|->"null"]   [t|->"bool", b]   [t|->"int", n]    n: decimal text     *)
(*   [t|->"flt", h]   h: the eight bytes of an IEEE double                 *)
(*   [t|->"str", s]   s: UTF-8 bytes    [t|->"arr", a]   a: sequence        *)
(*   [t|->"obj", o]   o: sequence of [k, v], in order, labels distinct      *)
(*                                                                         *)
(* JParse and JPrint have Java interpretations (java/cesr/JsonOps) that    *)
(* only make them fast; MC_Doc checks that they agree with JParseDef and  *)
(* JPrintDef.                                                              *)
(***************************************************************************)
EXTENDS Codec

JNull == [t |-> "null"]
JBool(b) == [t |-> "bool", b |-> b]
JInt(n) == [t |-> "int", n |-> n]
JFlt(h) == [t |-> "flt", h |-> h]
JStr(s) == [t |-> "str", s |-> s]
JArr(a) == [t |-> "arr", a |-> a]
JObj(o) == [t |-> "obj", o |-> o]
JF(k, v) == [k |-> k, v |-> v]

\* decimal text -> IEEE double (nearest even), as eight bytes; and the shortest decimal text of a double
DoubleBits(text) == CHOOSE h : TRUE
DoubleText(h) == CHOOSE s : TRUE
DoubleFinite(h) == (h[1] % 128) # 127 \/ h[2] < 240

JDepth == 127                  \* deepest nesting that is read

---------------------------------------------------------------------------
(* reading: each step returns [ok, v, i], i the next position *)
Bad == [ok |-> FALSE, v |-> JNull, i |-> 0]
Got(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 256
RECURSIVE Ws(_, _)
Ws(s, i) == IF At(s, i) \in {32, 9, 10, 13} THEN Ws(s, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF At(s, i) \in Digits THEN DigitsEnd(s, i + 1) ELSE i
Word(s, i, w, v) == IF i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w THEN Got(v, i + Len(w)) ELSE Bad

\* an integer text within 64 bits
Int64(n) == LET neg == n[1] = 45
                ds == IF neg THEN Tail(n) ELSE n
                v == DecBn(ds)
            IN Len(ds) <= 19 /\ (BnLt(v, <<128, 0, 0, 0, 0, 0, 0, 0>>) \/ (neg /\ v = <<128, 0, 0, 0, 0, 0, 0, 0>>))
NumberAt(s, i) ==
    LET a == IF At(s, i) = 45 THEN i + 1 ELSE i
        b == DigitsEnd(s, a)                                 \* after the integer part
        point == At(s, b) = 46
        c == IF point THEN DigitsEnd(s, b + 1) ELSE b
        exp == At(s, c) \in {101, 69}
        d0 == IF exp THEN (IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
        d == IF exp THEN DigitsEnd(s, d0) ELSE c
        n == SubSeq(s, i, d - 1)
    IN IF b = a \/ (At(s, a) = 48 /\ b > a + 1) \/ (point /\ c = b + 1) \/ (exp /\ d = d0) THEN Bad
       ELSE IF ~ point /\ ~ exp /\ n # <<45, 48>> /\ Int64(n) THEN Got(JInt(n), d)
       ELSE LET h == DoubleBits(n) IN IF DoubleFinite(h) THEN Got(JFlt(h), d) ELSE Bad

Utf8Of(cp) == CASE cp < 128 -> <<cp>>
                [] cp \in 128 .. 2047 -> <<192 + cp \div 64, 128 + (cp % 64)>>
                [] cp \in 2048 .. 65535 -> <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
                [] OTHER -> <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Hex4(s, i) == IF i + 3 <= Len(s) /\ \A j \in i .. i + 3 : IsHexDigit(s[j])
              THEN HexVal(s[i]) * 4096 + HexVal(s[i+1]) * 256 + HexVal(s[i+2]) * 16 + HexVal(s[i+3]) ELSE 0 - 1
Esc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 0
RECURSIVE StrAt(_, _, _)
StrAt(s, i, acc) ==                 \* i: first position after the opening quote
    LET c == At(s, i) IN
    IF c = 34 THEN [ok |-> TRUE, s |-> acc, i |-> i + 1]
    ELSE IF c = 256 \/ c < 32 THEN [ok |-> FALSE]
    ELSE IF c # 92 THEN StrAt(s, i + 1, Append(acc, c))
    ELSE LET e == At(s, i + 1) IN
         IF e # 117 THEN (IF e = 256 \/ Esc(e) = 0 THEN [ok |-> FALSE] ELSE StrAt(s, i + 2, Append(acc, Esc(e))))
         ELSE LET u == Hex4(s, i + 2) IN
              IF u < 0 \/ u \in 56320 .. 57343 THEN [ok |-> FALSE]                       \* a low surrogate first
              ELSE IF u \notin 55296 .. 56319 THEN StrAt(s, i + 6, acc \o Utf8Of(u))
              ELSE LET w == IF At(s, i + 6) = 92 /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE 0 - 1 IN
                   IF w \notin 56320 .. 57343 THEN [ok |-> FALSE]
                   ELSE StrAt(s, i + 12, acc \o Utf8Of(65536 + (u - 55296) * 1024 + (w - 56320)))

\* a repeated label keeps its first place and its last value
Where(o, k) == LET I == {i \in 1 .. Len(o) : o[i].k = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Put(o, k, v) == LET i == Where(o, k) IN IF i = 0 THEN Append(o, JF(k, v)) ELSE [o EXCEPT ![i] = JF(k, v)]

RECURSIVE ValueAt(_, _, _), ItemsAt(_, _, _, _), FieldsAt(_, _, _, _)
ValueAt(s, i, d) ==
    LET c == At(s, i) IN
    CASE c = 110 -> Word(s, i, B("null"), JNull)
      [] c = 116 -> Word(s, i, B("true"), JBool(TRUE))
      [] c = 102 -> Word(s, i, B("false"), JBool(FALSE))
      [] c = 45 \/ c \in Digits -> NumberAt(s, i)
      [] c = 34 -> LET x == StrAt(s, i + 1, << >>) IN IF x.ok THEN Got(JStr(x.s), x.i) ELSE Bad
      [] c = 91 -> IF d >= JDepth THEN Bad
                   ELSE LET j == Ws(s, i + 1) IN IF At(s, j) = 93 THEN Got(JArr(<< >>), j + 1) ELSE ItemsAt(s, j, d + 1, << >>)
      [] c = 123 -> IF d >= JDepth THEN Bad
                    ELSE LET j == Ws(s, i + 1) IN IF At(s, j) = 125 THEN Got(JObj(<< >>), j + 1) ELSE FieldsAt(s, j, d + 1, << >>)
      [] OTHER -> Bad
ItemsAt(s, i, d, acc) ==
    LET x == ValueAt(s, i, d) IN
    IF ~ x.ok THEN Bad
    ELSE LET j == Ws(s, x.i)  a == Append(acc, x.v) IN
         IF At(s, j) = 93 THEN Got(JArr(a), j + 1)
         ELSE IF At(s, j) = 44 THEN ItemsAt(s, Ws(s, j + 1), d, a)
         ELSE Bad
FieldsAt(s, i, d, acc) ==
    IF At(s, i) # 34 THEN Bad
    ELSE LET k == StrAt(s, i + 1, << >>) IN
         IF ~ k.ok THEN Bad
         ELSE LET c == Ws(s, k.i) IN
              IF At(s, c) # 58 THEN Bad
              ELSE LET x == ValueAt(s, Ws(s, c + 1), d) IN
                   IF ~ x.ok THEN Bad
                   ELSE LET j == Ws(s, x.i)  o == Put(acc, k.s, x.v) IN
                        IF At(s, j) = 125 THEN Got(JObj(o), j + 1)
                        ELSE IF At(s, j) = 44 THEN FieldsAt(s, Ws(s, j + 1), d, o)
                        ELSE Bad
JParseDef(s) == IF ~ Utf8Ok(s) THEN Err
                ELSE LET x == ValueAt(s, Ws(s, 1), 0) IN IF x.ok /\ Ws(s, x.i) = Len(s) + 1 THEN Ok(x.v) ELSE Err
JParse(s) == JParseDef(s)

---------------------------------------------------------------------------
(* writing: compact, fields in order, only what must be escaped is *)
Hex2(c) == <<HexChr(c \div 16), HexChr(c % 16)>>
EscOf(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
              [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c < 32 -> <<92, 117, 48, 48>> \o Hex2(c) [] OTHER -> <<c>>
QuoteDef(s) == <<34>> \o Cat(Tup([i \in 1 .. Len(s) |-> EscOf(s[i])])) \o <<34>>
RECURSIVE JPrintDef(_)
JPrintDef(v) ==
    CASE v.t = "null" -> B("null")
      [] v.t = "bool" -> IF v.b THEN B("true") ELSE B("false")
      [] v.t = "int" -> v.n
      [] v.t = "flt" -> DoubleText(v.h)
      [] v.t = "str" -> QuoteDef(v.s)
      [] v.t = "arr" -> <<91>> \o Join(Tup([i \in 1 .. Len(v.a) |-> JPrintDef(v.a[i])]), <<44>>) \o <<93>>
      [] v.t = "obj" -> <<123>> \o Join(Tup([i \in 1 .. Len(v.o) |-> QuoteDef(v.o[i].k) \o <<58>> \o JPrintDef(v.o[i].v)]), <<44>>) \o <<125>>
JPrint(v) == JPrintDef(v)

---------------------------------------------------------------------------
(* objects *)
IsObj(v) == v.t = "obj"
IsArr(v) == v.t = "arr"
IsStr(v) == v.t = "str"
HasField(v, k) == IsObj(v) /\ Where(v.o, k) # 0
FieldOf(v, k) == v.o[Where(v.o, k)].v
StrOf(v, k) == IF HasField(v, k) /\ IsStr(FieldOf(v, k)) THEN Ok(FieldOf(v, k).s) ELSE Err
With(v, k, x) == JObj(Put(v.o, k, x))                       \* replaced in place, or added at the end
Without(v, ks) == JObj(SelectSeq(v.o, LAMBDA f : f.k \notin ks))
=============================================================================
