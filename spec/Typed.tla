-------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* Typed primitives: material whose code says what kind of thing it is,    *)
(* and the values that numbers, sequence numbers, date-times and Base64    *)
(* text carry.                                                             *)
(***************************************************************************)
EXTENDS Codec, Crypto

DigestLike == DigestCodes
VerferCodes == {"B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"}
TextCodes == {"4A", "5A", "6A", "7AAA", "8AAA", "9AAA"}
TypeCodes ==
  [ Verfer   |-> VerferCodes,
    Signer   |-> {"A", "J", "Q"},
    Diger    |-> DigestLike,
    Saider   |-> DigestLike,
    Cigar    |-> {"0B", "0C", "0I"},
    Salter   |-> {"0A"},
    Seqner   |-> {"0A"},
    Number   |-> {"M", "0H", "N", "0A"},
    Dater    |-> {"1AAG"},
    Bexter   |-> TextCodes,
    Pather   |-> TextCodes,
    Prefixer |-> VerferCodes \cup DigestLike,
    Siger    |-> {"A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"} ]
Types == DOMAIN TypeCodes
DefaultCode ==
  [ Verfer |-> "B", Signer |-> "A", Salter |-> "0A", Seqner |-> "0A", Number |-> "M", Dater |-> "1AAG",
    Bexter |-> "4A", Pather |-> "4A" ]

Suite(code) == CASE code \in {"A", "B", "D", "0B"} -> "ed25519"
                 [] code \in {"J", "1AAA", "1AAB", "0C"} -> "secp256k1"
                 [] code \in {"Q", "1AAI", "1AAJ", "0I"} -> "secp256r1"

\* the kind filter: whatever the route, a typed primitive has a code of its own kind
OfType(t, r) == IF IsOk(r) /\ r.v.code \in TypeCodes[t] /\ (t = "Signer" => SeedOk(Suite(r.v.code), r.v.raw))
                THEN r ELSE Err
TypedRaw(t, code, raw) ==        \* code: << >> or <<text>>
    IF code = << >> /\ t \notin DOMAIN DefaultCode THEN Err
    ELSE LET c == IF code = << >> THEN DefaultCode[t] ELSE code[1]
         IN IF t = "Siger" THEN OfType(t, IndexerFromRaw(c, raw, 0, << >>))
            ELSE OfType(t, MatterFromRaw(c, raw))
TypedParse(t, via, in) == OfType(t, IF t = "Siger" THEN IndexerParse(via, in) ELSE MatterParse(via, in))

---------------------------------------------------------------------------
(* Numbers.  A number is a minimal big-endian byte sequence (<< >> is 0).  *)
NumberCodes == << <<"M", 2>>, <<"0H", 4>>, <<"N", 8>>, <<"0A", 16>> >>
NumberSize == [M |-> 2, N |-> 8] @@ ("0H" :> 4) @@ ("0A" :> 16)
NumberFits(n) == BnFits(n, 16)
NumberCode(n) == IF BnFits(n, 2) THEN "M" ELSE IF BnFits(n, 4) THEN "0H" ELSE IF BnFits(n, 8) THEN "N" ELSE "0A"
NumberOf(n) == IF ~ NumberFits(n) THEN Err
               ELSE Ok([code |-> NumberCode(n), size |-> 0, raw |-> BnPad(n, NumberSize[NumberCode(n)])])
NumVal(m) == BnStrip(m.raw)
HexOk(s) == s # << >> /\ \A i \in 1 .. Len(s) : IsHexDigit(s[i])
\* hexadecimal input; the empty string is zero for numbers only
NumberOfHex(s) == IF s = << >> THEN NumberOf(<< >>) ELSE IF HexOk(s) THEN NumberOf(HexBn(s)) ELSE Err
SeqnerOf(n) == IF BnFits(n, 16) THEN Ok([code |-> "0A", size |-> 0, raw |-> BnPad(n, 16)]) ELSE Err
SeqnerOfHex(s) == IF HexOk(s) THEN SeqnerOf(HexBn(s)) ELSE Err

---------------------------------------------------------------------------
(* Date-times: 32 characters YYYY-MM-DDTHH:MM:SS.ffffff+HH:MM whose : . +  *)
(* are written c d p so that they are Base64URL characters.                *)
DtsForm(s) == /\ Len(s) = 32
              /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19, 21, 22, 23, 24, 25, 26, 28, 29, 31, 32} : s[i] \in Digits
              /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58 /\ s[20] = 46
              /\ s[27] \in {43, 45} /\ s[30] = 58
Two(s, i) == (s[i] - 48) * 10 + s[i + 1] - 48
Year(s) == Two(s, 1) * 100 + Two(s, 3)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30
                     [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 0
DtsFields(s, secs) == /\ DtsForm(s)
                      /\ Two(s, 6) \in 1 .. 12
                      /\ Two(s, 9) \in 1 .. MonthDays(Year(s), Two(s, 6))
                      /\ Two(s, 12) <= 23 /\ Two(s, 15) <= 59 /\ Two(s, 18) \in secs
                      /\ Two(s, 28) <= 23 /\ Two(s, 31) <= 59
DtsValid(s) == DtsFields(s, 0 .. 59)
\* left open: leap seconds and the year zero, where every other field is in range
DtsOpen(s) == DtsFields(s, 0 .. 60) /\ (Two(s, 18) = 60 \/ Year(s) = 0)
DtsToB64(s) == Tup([i \in 1 .. Len(s) |-> CASE s[i] = 58 -> 99 [] s[i] = 46 -> 100 [] s[i] = 43 -> 112 [] OTHER -> s[i]])
B64ToDts(s) == Tup([i \in 1 .. Len(s) |-> CASE s[i] = 99 -> 58 [] s[i] = 100 -> 46 [] s[i] = 112 -> 43 [] OTHER -> s[i]])
DaterOf(s) == IF DtsValid(s) THEN Ok([code |-> "1AAG", size |-> 0, raw |-> B64Dec(DtsToB64(s))]) ELSE Err
Dts(m) == B64ToDts(B64Enc(m.raw))

---------------------------------------------------------------------------
(* Base64 text.  Its first partial quartet is filled with 'A' in front,    *)
(* and the bytes that carries nothing are left out as lead bytes.          *)
TextRaw(s) == LET ts == Len(s) % 4  ws == (4 - ts) % 4  ls == (3 - ts) % 3
              IN Drop(B64Dec(Rep(65, ws) \o s), ls)
BexterOf(code, s) == IF ~ IsB64(s) THEN Err ELSE OfType("Bexter", MatterFromRaw(code, TextRaw(s)))
Bext(m) == LET ls == MatterSz[m.code].ls
               t == B64Enc(Zeros(ls) \o m.raw)
               ws == IF ls = 0 THEN (IF t # << >> /\ t[1] = 65 THEN 1 ELSE 0) ELSE (ls + 1) % 4
           IN Drop(t, ws)
=============================================================================
