------------------------------ MODULE MC_Typed ------------------------------
(***************************************************************************)
(* A typed primitive is made (from a value or from material), serialised   *)
(* on some route and read by a reader of some type; every step is printed  *)
(* as a script line for the library.                                       *)
(*   KIND=types    every code of both tables x every type x every route    *)
(*   KIND=numbers  values at and around every limit, decimal and hex       *)
(*   KIND=dates    all boundary combinations of date-time fields           *)
(*   KIND=texts    all Base64 texts up to a length over a small alphabet   *)
(***************************************************************************)
EXTENDS Typed, Json, IOUtils
VARIABLES ask, item, via, buf, stage, got
vars == <<ask, item, via, buf, stage, got>>

Kind == IOEnv.KIND
Full == IOEnv.FULL = "1"
Line(o) == PrintT("OP " \o ToJson(o))
None == [k |-> "none"]

Pattern(n) == Tup([i \in 1 .. n |-> (i * 37 + 11) % 256])
RawFor(c) == IF c \in MatterCodes THEN (IF MatterSz[c].fs = VAR THEN Pattern(6 - MatterSz[c].ls) ELSE Pattern(RawSize(MatterSz[c])))
             ELSE Pattern(RawSize(IndexerSz[c]))
\* an indexed signature is built for index 1 where the code allows it
TypeAsks == {[what |-> "material", type |-> t, code |-> c] : t \in Types, c \in MatterCodes \cup (IndexerCodes \ {"0z", "1z", "4z"})}

Ones(n) == Tup([i \in 1 .. n |-> 255])
Pow8(n) == <<1>> \o Zeros(n)
NumVals == {<< >>, <<1>>, <<2>>, <<9>>, <<10>>, <<15>>, <<16>>, <<127>>, <<128>>}
           \cup {Ones(n) : n \in 1 .. 17} \cup {Pow8(n) : n \in 0 .. 17}
           \cup {Ones(n - 1) \o <<254>> : n \in 1 .. 17} \cup {Pow8(n - 1) \o <<1>> : n \in 1 .. 17}
           \cup {<<128>> \o Zeros(n) : n \in 0 .. 15} \cup {Tup([i \in 1 .. n |-> i * 15]) : n \in 1 .. 16}
NumAsks == {[what |-> w, num |-> n, zeros |-> z, up |-> u] : w \in {"Number", "Seqner"}, n \in NumVals, z \in {0, 1, 3}, u \in {FALSE, TRUE}}

Years == {<<49, 57, 55, 48>>, <<50, 48, 50, 48>>, <<49, 57, 48, 48>>, <<50, 48, 48, 48>>, <<57, 57, 57, 57>>, <<48, 48, 48, 49>>}
D2(n) == <<(n \div 10) + 48, (n % 10) + 48>>
Stamp(y, mo, d, h, mi, s, us, sg, oh, om) ==
    y \o <<45>> \o D2(mo) \o <<45>> \o D2(d) \o <<84>> \o D2(h) \o <<58>> \o D2(mi) \o <<58>> \o D2(s)
      \o <<46>> \o us \o <<sg>> \o D2(oh) \o <<58>> \o D2(om)
Micros == {<<48, 48, 48, 48, 48, 48>>, <<57, 57, 57, 57, 57, 57>>, <<48, 48, 48, 48, 48, 49>>, <<57, 56, 56, 57, 50, 49>>}
DateAsks == LET S(y, mo, d, h, mi, s, us, sg, oh, om) == [what |-> "Dater", text |-> Stamp(y, mo, d, h, mi, s, us, sg, oh, om)] IN
    {S(y, mo, d, 17, 50, 9, <<57, 56, 56, 57, 50, 49>>, 43, 0, 0) : y \in Years, mo \in 0 .. 13, d \in {0, 1, 15, 28, 29, 30, 31, 32}}
    \cup {S(<<50, 48, 50, 48>>, 8, 22, h, mi, s, us, sg, 1, 30) : h \in {0, 9, 23, 24}, mi \in {0, 59, 60}, s \in {0, 7, 59, 61}, us \in Micros, sg \in {43, 45}}
    \cup {S(<<50, 48, 50, 48>>, 8, 22, h, mi, 9, us, sg, oh, om) : h \in {0, 12}, mi \in {0, 30}, us \in Micros, sg \in {43, 45}, oh \in {0, 1, 14, 23, 24, 99}, om \in {0, 1, 30, 59, 60}}
\* one character wrong in an otherwise valid stamp
Good == Stamp(<<50, 48, 50, 48>>, 8, 22, 17, 50, 9, <<57, 56, 56, 57, 50, 49>>, 43, 1, 0)
BadChars == {<<>>, <<32>>, <<43>>, <<45>>, <<46>>, <<47>>, <<48>>, <<57>>, <<58>>, <<65>>, <<84>>, <<90>>, <<95>>, <<99>>, <<100>>, <<112>>, <<116>>, <<195, 169>>, <<48, 48>>}
DateHurt == {[what |-> "Dater", text |-> SubSeq(Good, 1, i - 1) \o x \o Drop(Good, i)] : i \in 1 .. 32, x \in BadChars}
            \cup {[what |-> "Dater", text |-> Good \o x] : x \in BadChars}

Alphabet == {65, 66, 95, 45, 48, 122}
Texts(n) == UNION {[1 .. k -> Alphabet] : k \in 0 .. n}
TextAsks == {[what |-> "Bexter", text |-> Tup(s)] : s \in Texts(IF Full THEN 6 ELSE 4)}
            \cup {[what |-> "Bexter", text |-> Rep(c, n)] : c \in {65, 66, 95, 120}, n \in 5 .. (IF Full THEN 200 ELSE 40)}
            \cup {[what |-> "Bexter", text |-> SubSeq(<<66, 67, 68, 69, 70, 71>>, 1, n) \o x] : n \in 0 .. 5, x \in {<<61>>, <<61, 61>>, <<43>>, <<47>>, <<46>>, <<32>>, <<10>>, <<195, 169>>, <<0>>}}

Asks == CASE Kind = "types" -> TypeAsks [] Kind = "numbers" -> NumAsks [] Kind = "dates" -> DateAsks \cup DateHurt [] Kind = "texts" -> TextAsks

Init == ask \in Asks /\ item = None /\ via = "none" /\ buf = << >> /\ stage = "asked" /\ got = None

HexUp(s) == Tup([i \in 1 .. Len(s) |-> IF s[i] \in 97 .. 102 THEN s[i] - 32 ELSE s[i]])
HexIn == LET h == Rep(48, ask.zeros) \o BnHex(ask.num) IN IF ask.up THEN HexUp(h) ELSE h
MadeBy ==
    CASE ask.what = "material" ->
           IF ask.code \in MatterCodes THEN [kind |-> "m", r |-> MatterFromRaw(ask.code, RawFor(ask.code))]
           ELSE [kind |-> "i", r |-> IndexerFromRaw(ask.code, RawFor(ask.code), 1, << >>)]
      [] ask.what = "Number" -> [kind |-> "m", r |-> NumberOfHex(HexIn)]
      [] ask.what = "Seqner" -> [kind |-> "m", r |-> SeqnerOfHex(HexIn)]
      [] ask.what = "Dater" -> [kind |-> "m", r |-> DaterOf(ask.text)]
      [] ask.what = "Bexter" -> [kind |-> "m", r |-> BexterOf("4A", ask.text)]
ExportMake ==
    CASE ask.what = "material" -> Line([op |-> "t.raw", type |-> ask.type, code |-> <<B(ask.code)>>, raw |-> RawFor(ask.code)])
      [] ask.what = "Number" -> /\ BnFits(ask.num, 16) => Line([op |-> "n.num", num |-> ask.num])
                                /\ Line([op |-> "n.numh", in |-> HexIn])
      [] ask.what = "Seqner" -> /\ BnFits(ask.num, 16) => Line([op |-> "s.sn", num |-> ask.num])
                                /\ Line([op |-> "s.snh", in |-> HexIn])
      [] ask.what = "Dater" -> Line([op |-> "d.dts", in |-> ask.text])
      [] ask.what = "Bexter" -> Line([op |-> "b.bext", in |-> ask.text])
Make == /\ stage = "asked" /\ ExportMake
        /\ item' = (IF IsOk(MadeBy.r) THEN [kind |-> MadeBy.kind, v |-> MadeBy.r.v] ELSE None)
        /\ stage' = (IF IsOk(MadeBy.r) THEN "made" ELSE "refused")
        /\ UNCHANGED <<ask, via, buf, got>>
ItemText == IF item.kind = "m" THEN MatterText(item.v) ELSE IndexerText(item.v)
ItemBin == IF item.kind = "m" THEN MatterBin(item.v) ELSE IndexerBin(item.v)
Send(f) == stage = "made" /\ via' = f /\ buf' = (IF f = "qb2" THEN ItemBin ELSE ItemText) /\ stage' = "sent"
           /\ UNCHANGED <<ask, item, got>>
ReadOp == CASE ask.what = "Number" -> "n.par" [] ask.what = "Seqner" -> "s.par" [] ask.what = "Dater" -> "d.par" [] ask.what = "Bexter" -> "b.par"
Extra == IF ask.what # "material" \/ ~ Full THEN {<< >>} ELSE {<< >>, <<B("A")>>, <<B("E")>>, <<B("0A")>>, <<B("M")>>, <<B("4A")>>, <<B("1AAG")>>}
Read(x) == /\ stage = "sent" /\ stage' = "read"
           /\ got' = (IF ask.what = "material" THEN TypedParse(ask.type, via, buf) ELSE TypedParse(ask.what, via, buf))
           /\ IF ask.what = "material" THEN Line([op |-> "t.par", type |-> ask.type, via |-> via, in |-> buf, code |-> x])
              ELSE Line([op |-> ReadOp, via |-> via, in |-> buf])
           /\ UNCHANGED <<ask, item, via, buf>>
Next == \/ Make \/ \E f \in {"qb64", "qb64b", "qb2"} : Send(f) \/ \E x \in Extra : Read(x)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* the kind filter, on every route
TypeSafe == (stage = "read" /\ ask.what = "material" /\ IsOk(got)) => got.v.code \in TypeCodes[ask.type]
\* a reader of the right kind gets what was sent (indexed signatures only share letters with matter codes:
\* what kind a code belongs to is known from the context)
RightKind == (stage = "read" /\ ask.what = "material" /\ ask.code \in TypeCodes[ask.type] /\ (ask.type # "Siger") = (item.kind = "m") /\ Utf8Ok(buf))
             => (IsOk(got) /\ got.v = item.v)
ValueKept == (stage = "read" /\ ask.what # "material" /\ (via # "qb64b" \/ Utf8Ok(buf))) =>
    /\ got = Ok(item.v)
    /\ CASE ask.what \in {"Number", "Seqner"} -> NumVal(got.v) = ask.num
         [] ask.what = "Dater" -> Dts(got.v) = ask.text
         [] ask.what = "Bexter" -> (ask.text # << >> /\ ask.text[1] # 65) => Bext(got.v) = ask.text
\* smallest code that fits; sequence numbers always the fixed form
Smallest == (stage = "made" /\ ask.what = "Number") =>
    /\ \A i \in 1 .. 4 : (NumberCodes[i][2] >= Len(ask.num)) => NumberSize[item.v.code] <= NumberCodes[i][2]
    /\ Len(item.v.raw) = NumberSize[item.v.code]
FixedForm == (stage = "made" /\ ask.what = "Seqner") => item.v.code = "0A" /\ Len(ItemText) = 24
Refused == stage = "refused" =>
    CASE ask.what \in {"Number", "Seqner"} -> Len(ask.num) > 16
      [] ask.what = "Dater" -> ~ DtsValid(ask.text)
      [] ask.what = "Bexter" -> ~ IsB64(ask.text)
      [] OTHER -> TRUE
\* different stamps have different encodings: the encoding can be undone
Injective == (stage = "made" /\ ask.what = "Dater") => Dts(item.v) = ask.text /\ Len(ItemText) = 36
SizeClass == (stage = "made" /\ ask.what = "Bexter") =>
    LET n == Len(ask.text) IN /\ item.v.code = <<"4A", "6A", "5A", "4A">>[(n % 4) + 1]
                              /\ Len(ItemText) = 4 + n + ((4 - (n % 4)) % 4)
=============================================================================
