--------------------------------- MODULE Sad ---------------------------------
(***************************************************************************)
(* Documents that state their own size and digest: version strings,        *)
(* self-addressing identifiers, and the framing of events and credentials. *)
(***************************************************************************)
EXTENDS Doc, Sign

LV == <<118>>    \* "v"
LD == <<100>>    \* "d"

\* ----------------------------------------------------------- version strings
\* IIIIvvKKKKssssss_ : identifier, version digits, serialisation kind, size
Idents == {B("KERI"), B("ACDC")}
Kinds == {B("JSON")}
LowHex == Digits \cup (97 .. 102)
Upper == 65 .. 90
VsForm(s) == /\ Len(s) = 17 /\ s[17] = 95
             /\ \A i \in {1, 2, 3, 4, 7, 8, 9, 10} : s[i] \in Upper
             /\ \A i \in {5, 6, 11, 12, 13, 14, 15, 16} : s[i] \in LowHex
Hex6(n) == Tup([i \in 1 .. 6 |-> HexChr((n \div Pow(16, 6 - i)) % 16)])
VsSize(s) == HexVal(s[11]) * 1048576 + HexVal(s[12]) * 65536 + HexVal(s[13]) * 4096 + HexVal(s[14]) * 256 + HexVal(s[15]) * 16 + HexVal(s[16])
Vs(ident, major, minor, kind, size) == ident \o <<HexChr(major), HexChr(minor)>> \o kind \o Hex6(size) \o <<95>>
\* size: a big number
Versify(ident, major, minor, kind, size) ==
    IF ident \notin Idents \/ kind \notin Kinds \/ major > 15 \/ minor > 15 \/ ~ BnFits(size, 3) THEN Err
    ELSE Ok(Vs(ident, major, minor, kind, BnInt(size)))
VsParts(s) == [ident |-> Take(s, 4), kind |-> SubSeq(s, 7, 10), major |-> HexVal(s[5]), minor |-> HexVal(s[6]), size |-> VsSize(s)]
Deversify(s) == IF ~ VsForm(s) \/ Take(s, 4) \notin Idents \/ SubSeq(s, 7, 10) \notin Kinds THEN Err ELSE Ok(VsParts(s))

\* where the first version string begins: a position, or 0.  Only the front matters: it must begin
\* within twelve bytes
FirstVs(b) == LET I == {i \in 1 .. MinOf(13, Len(b) - 16) : VsForm(SubSeq(b, i, i + 16))}
              IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Sniff(b) == LET i == FirstVs(b) IN
    IF Len(b) < 29 \/ i = 0 THEN Err
    ELSE LET p == VsParts(SubSeq(b, i, i + 16)) IN IF p.kind \in Kinds THEN Ok(p) ELSE Err

\* kind: << >> or <<kind>>
KindOk(kind) == kind = << >> \/ kind[1] \in Kinds
\* the document with its version string stating its length, and its serialisation
Sizeify(v, kind) ==
    LET vs == StrOf(v, LV)  p == IF IsOk(vs) THEN Deversify(vs.v) ELSE Err IN
    IF ~ IsOk(p) \/ ~ KindOk(kind) THEN Err
    ELSE IF p.v.major # 1 \/ p.v.minor # 0 THEN Err
    ELSE LET raw == JPrint(v)
             ked == With(v, LV, JStr(Vs(p.v.ident, 1, 0, B("JSON"), Len(raw))))
             i == FirstVs(raw)
             out == JPrint(ked)
         IN IF i = 0 \/ Len(raw) > 16777215 THEN Err
            \* the first version string of the serialisation must be the document's own
            ELSE IF out # Take(raw, i - 1) \o FieldOf(ked, LV).s \o Drop(raw, i + 16) THEN Err
            ELSE Ok([raw |-> out, ked |-> ked, ident |-> p.v.ident])

\* -------------------------------------------------- self-addressing identifiers
TextSize(code) == MatterSz[code].fs
Dummy(code) == Rep(35, TextSize(code))
\* what the identifier digests
Blanked(v, code, kind, label) ==
    IF ~ HasField(v, label) \/ code \notin DigestCodes THEN Err
    ELSE LET b == With(v, label, JStr(Dummy(code))) IN
         IF HasField(b, LV) THEN LET z == Sizeify(b, kind) IN IF IsOk(z) THEN Ok(z.v.ked) ELSE Err
         ELSE IF KindOk(kind) THEN Ok(b) ELSE Err
Derive(v, code, kind, label, ignore) ==
    LET b == Blanked(v, code, kind, label) IN
    IF ~ IsOk(b) THEN Err
    ELSE Ok([sad |-> b.v, id |-> [code |-> code, size |-> 0, raw |-> HashBytes(code, JPrint(Without(b.v, ignore)))]])
Saidify(v, code, kind, label, ignore) ==
    LET d == Derive(v, code, kind, label, ignore) IN
    IF ~ IsOk(d) THEN Err
    ELSE Ok([id |-> d.v.id, sad |-> With(d.v.sad, label, JStr(MatterText(d.v.id)))])
\* the identifier a document should have; code << >>: the one its field says
SaidOf(v, code, kind, label, ignore) ==
    IF ~ HasField(v, label) THEN Err
    ELSE LET c == IF code # << >> THEN Ok(code[1])
                  ELSE LET s == StrOf(v, label) IN
                       IF ~ IsOk(s) THEN Err ELSE IF s.v = << >> THEN Ok("E")
                       ELSE LET m == MatterParseText(s.v) IN IF IsOk(m) THEN Ok(m.v.code) ELSE Err
         IN IF ~ IsOk(c) THEN Err
            ELSE LET d == Derive(v, c.v, kind, label, ignore) IN IF IsOk(d) THEN Ok(d.v.id) ELSE Err
SaidVerifies(id, v, prefixed, versioned, kind, label, ignore) ==
    LET d == Derive(v, id.code, kind, label, ignore) IN
    /\ IsOk(d)
    /\ d.v.id = id
    /\ (versioned /\ HasField(v, LV)) => FieldOf(v, LV) = FieldOf(d.v.sad, LV)
    /\ prefixed => FieldOf(v, label) = JStr(MatterText(id))

\* -------------------------------------------------------------------- framing
\* the identifier written in the document, which must be of the expected kind
Stated(v, code) == LET s == StrOf(v, LD)  m == IF IsOk(s) THEN MatterParseText(s.v) ELSE Err IN
                   IF IsOk(m) /\ m.v.code = code THEN m ELSE Err
Framed(raw, ked, ident, said) == [raw |-> raw, ked |-> ked, ident |-> ident, said |-> said]
\* an event or credential from its content ...
Exhale(v, kind, code, ident) ==
    LET z == Sizeify(v, kind) IN
    IF ~ IsOk(z) THEN Err
    ELSE LET d == Stated(z.v.ked, code) IN
         IF ~ IsOk(d) \/ z.v.ident # ident THEN Err ELSE Ok(Framed(z.v.raw, z.v.ked, ident, d.v))
\* ... and from the front of a buffer
Inhale(b, code, ident) ==
    LET p == Sniff(b) IN
    IF ~ IsOk(p) THEN Err
    ELSE IF p.v.major # 1 \/ p.v.minor # 0 \/ p.v.size > Len(b) THEN Err
    ELSE LET raw == Take(b, p.v.size)  v == JParse(raw) IN
         IF ~ IsOk(v) THEN Err
         ELSE LET d == Stated(v.v, code) IN
              IF ~ IsOk(d) \/ p.v.ident # ident THEN Err ELSE Ok(Framed(raw, v.v, ident, d.v))
\* left open: a buffer whose first version string is not its document's
InhaleOpen(b) == LET p == Sniff(b) IN
    IsOk(p) /\ p.v.size <= Len(b) /\
    LET v == JParse(Take(b, p.v.size)) IN IsOk(v) /\ StrOf(v.v, LV) # Ok(SubSeq(b, FirstVs(b), FirstVs(b) + 16))
=============================================================================
