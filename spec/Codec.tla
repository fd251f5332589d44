------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Qualified material.  A value of each kind is a record; Ok/Err are the   *)
(* two possible outcomes of every operation of the library.                *)
(*                                                                         *)
(* The text and the binary form are the same bits: the binary form is the  *)
(* Base64URL decoding of the text.  Bits are laid out as                   *)
(*        hard code | soft part | pad bits (zero) | lead bytes (zero) | raw *)
(* with pad bits up to the next byte boundary.                             *)
(***************************************************************************)
EXTENDS CodeTables

Err == [k |-> "err"]
Ok(v) == [k |-> "ok", v |-> v]
IsOk(r) == r.k = "ok"

\* ------------------------------------------------------------------ matter
CodeBytes(cs) == (cs * 3 + 3) \div 4      \* bytes holding cs sextets

\* the bytes: code characters, pad bits, lead bytes, raw
Layout(both, ls, raw) ==
    LET n == CodeBytes(Len(both))
        front == Take(B64Dec(both \o Rep(65, (4 - (Len(both) % 4)) % 4)), n)
    IN front \o Zeros(ls) \o raw

MatterBoth(m) == LET z == MatterSz[m.code]
                 IN B(m.code) \o IntB64(m.size, z.ss)
MatterBin(m) == Layout(MatterBoth(m), MatterSz[m.code].ls, m.raw)
MatterText(m) == B64Enc(MatterBin(m))
MatterFull(m) == LET z == MatterSz[m.code]
                 IN IF z.fs = VAR THEN z.hs + z.ss + 4 * m.size ELSE z.fs

\* full size announced by the front of a text: [cs, fs, size, code] or Err
MatterHead(t) ==
    IF t = << >> THEN Err
    ELSE LET hs == MatterHard(t[1]) IN
      IF hs = 0 \/ Len(t) < hs \/ ~ IsB64(Take(t, hs)) THEN Err
      ELSE LET code == Str(Take(t, hs)) IN
        IF code \notin MatterCodes THEN Err
        ELSE LET z == MatterSz[code]  cs == z.hs + z.ss IN
          IF z.fs # VAR THEN Ok([code |-> code, cs |-> cs, ls |-> z.ls, fs |-> z.fs, size |-> 0])
          ELSE IF Len(t) < cs \/ ~ IsB64(Take(t, cs)) THEN Err
          ELSE LET n == B64Int(SubSeq(t, hs + 1, cs))
               IN Ok([code |-> code, cs |-> cs, ls |-> z.ls, fs |-> cs + 4 * n, size |-> n])

\* the raw material behind a head, from the decoded bytes of the full portion
BodyOf(cs, ls, b) ==
    LET n == CodeBytes(cs)
        padbits == 8 * n - 6 * cs
    IN IF \/ Len(b) < n + ls
          \/ b[n] % Pow(2, padbits) # 0
          \/ \E i \in n + 1 .. n + ls : b[i] # 0
       THEN Err
       ELSE Ok(Drop(b, n + ls))

MatterParseText(t) ==
    LET h == MatterHead(t) IN
    IF ~ IsOk(h) THEN Err
    ELSE IF Len(t) < h.v.fs \/ ~ IsB64(Take(t, h.v.fs)) THEN Err
    ELSE LET raw == BodyOf(h.v.cs, h.v.ls, B64Dec(Take(t, h.v.fs))) IN
         IF ~ IsOk(raw) THEN Err
         ELSE Ok([code |-> h.v.code, size |-> h.v.size, raw |-> raw.v])

\* binary material: read it as the text it encodes
BinFullBytes(fs) == (fs * 3) \div 4
MatterParseBin(b) ==
    IF b = << >> THEN Err
    ELSE LET hs == MatterHard(B64Front(b, 1)[1]) IN
      IF hs = 0 \/ Len(b) < CodeBytes(hs) THEN Err
      ELSE LET hard == B64Front(b, hs) IN
        IF Str(hard) \notin MatterCodes THEN Err
        ELSE LET z == MatterSz[Str(hard)] IN
          IF Len(b) < CodeBytes(z.hs + z.ss) THEN Err
          ELSE LET h == MatterHead(B64Front(b, z.hs + z.ss)) IN
            IF ~ IsOk(h) \/ Len(b) < BinFullBytes(h.v.fs) THEN Err
            ELSE MatterParseText(B64Enc(Take(b, BinFullBytes(h.v.fs))))

MatterParse(via, in) ==
    CASE via = "qb64"  -> MatterParseText(in)
      [] via = "qb64b" -> IF Utf8Ok(in) THEN MatterParseText(in) ELSE Err
      [] via = "qb2"   -> MatterParseBin(in)

\* construction from raw material.  Variable length codes are named by any code of
\* their family; lead size and table follow from the length of the material.
SmallVrz == {"4", "5", "6"}
LargeVrz == {"7", "8", "9"}
LeadChr(large, ls) == SubSeq(IF large THEN "789" ELSE "456", ls + 1, ls + 1)
MatterFromRaw(code, raw) ==
    IF code \notin MatterCodes THEN Err
    ELSE LET z == MatterSz[code] IN
      IF z.fs # VAR
      THEN IF Len(raw) < RawSize(z) THEN Err
           ELSE Ok([code |-> code, size |-> 0, raw |-> Take(raw, RawSize(z))])
      ELSE LET ls == (3 - (Len(raw) % 3)) % 3
               size == (Len(raw) + ls) \div 3
               kind == SubSeq(code, Len(code), Len(code))       \* "A" text, "B" bytes
               large == z.hs = 4 \/ size >= Pow(64, 2)
           IN IF size >= Pow(64, 4) THEN Err
              ELSE Ok([code |-> LeadChr(large, ls) \o (IF large THEN "AA" ELSE "") \o kind,
                       size |-> size, raw |-> raw])

\* ----------------------------------------------------------------- indexer
IdxCs(z) == z.hs + z.ss
IdxMs(z) == z.ss - z.os
IndexerBoth(x) ==
    LET z == IndexerSz[x.code]
    IN B(x.code) \o IntB64(x.index, IdxMs(z)) \o IntB64(x.ondex, z.os)
IndexerBin(x) == Layout(IndexerBoth(x), IndexerSz[x.code].ls, x.raw)
IndexerText(x) == B64Enc(IndexerBin(x))
IndexerFull(x) == LET z == IndexerSz[x.code]
                  IN IF z.fs = VAR THEN IdxCs(z) + 4 * x.index ELSE z.fs

IndexerHead(t) ==
    IF t = << >> THEN Err
    ELSE LET hs == IndexerHard(t[1]) IN
      IF hs = 0 \/ Len(t) < hs \/ ~ IsB64(Take(t, hs)) THEN Err
      ELSE LET code == Str(Take(t, hs)) IN
        IF code \notin IndexerCodes THEN Err
        ELSE LET z == IndexerSz[code]  cs == IdxCs(z)  ms == IdxMs(z) IN
          IF Len(t) < cs \/ ~ IsB64(Take(t, cs)) THEN Err
          ELSE LET index == B64Int(SubSeq(t, hs + 1, hs + ms))
                   odx == B64Int(SubSeq(t, hs + ms + 1, cs))
                   cur == code \in CurrentCodes
               IN IF cur /\ odx # 0 THEN Err
                  ELSE Ok([code |-> code, cs |-> cs, ls |-> z.ls,
                           fs |-> IF z.fs = VAR THEN cs + 4 * index ELSE z.fs,
                           index |-> index,
                           ondex |-> IF cur THEN 0 ELSE IF z.os # 0 THEN odx ELSE index])

IndexerParseText(t) ==
    LET h == IndexerHead(t) IN
    IF ~ IsOk(h) THEN Err
    ELSE IF Len(t) < h.v.fs \/ ~ IsB64(Take(t, h.v.fs)) THEN Err
    ELSE LET raw == BodyOf(h.v.cs, h.v.ls, B64Dec(Take(t, h.v.fs))) IN
         IF ~ IsOk(raw) THEN Err
         ELSE Ok([code |-> h.v.code, index |-> h.v.index, ondex |-> h.v.ondex, raw |-> raw.v])

IndexerParseBin(b) ==
    IF b = << >> THEN Err
    ELSE LET hs == IndexerHard(B64Front(b, 1)[1]) IN
      IF hs = 0 \/ Len(b) < CodeBytes(hs) THEN Err
      ELSE LET hard == B64Front(b, hs) IN
        IF Str(hard) \notin IndexerCodes THEN Err
        ELSE LET z == IndexerSz[Str(hard)] IN
          IF Len(b) < CodeBytes(IdxCs(z)) THEN Err
          ELSE LET h == IndexerHead(B64Front(b, IdxCs(z))) IN
            IF ~ IsOk(h) \/ Len(b) < BinFullBytes(h.v.fs) THEN Err
            ELSE IndexerParseText(B64Enc(Take(b, BinFullBytes(h.v.fs))))

IndexerParse(via, in) ==
    CASE via = "qb64"  -> IndexerParseText(in)
      [] via = "qb64b" -> IF Utf8Ok(in) THEN IndexerParseText(in) ELSE Err
      [] via = "qb2"   -> IndexerParseBin(in)

\* index: integer; ondex: << >> (not given) or <<integer>>
IndexerFromRaw(code, raw, index, ondex) ==
    IF code \notin IndexerCodes THEN Err
    ELSE LET z == IndexerSz[code]
             given == ondex # << >>
             o == IF given THEN ondex[1]
                  ELSE IF code \in BothCodes THEN index ELSE 0
             fs == IF z.fs = VAR THEN IdxCs(z) + 4 * index ELSE z.fs
             need == ((fs - IdxCs(z)) * 3) \div 4 - z.ls
         IN IF \/ index >= Pow(64, IdxMs(z))
               \/ given /\ code \in CurrentCodes
               \/ given /\ z.os > 0 /\ ondex[1] >= Pow(64, z.os)
               \/ given /\ z.os = 0 /\ ondex[1] # index
               \/ Len(raw) < need
            THEN Err
            ELSE Ok([code |-> code, index |-> index, ondex |-> o, raw |-> Take(raw, need)])

\* ----------------------------------------------------------------- counter
CounterText(c) == B(c.code) \o IntB64(c.count, CounterSz[c.code].ss)
CounterBin(c) == B64Dec(CounterText(c))
CounterFull(c) == CounterSz[c.code].fs

CounterParseText(t) ==
    IF Len(t) < 2 THEN Err
    ELSE LET hs == CounterHard(t) IN
      IF hs = 0 \/ Len(t) < hs \/ ~ IsB64(Take(t, hs)) THEN Err
      ELSE LET code == Str(Take(t, hs)) IN
        IF code \notin CounterCodes THEN Err
        ELSE LET fs == CounterSz[code].fs IN
          IF Len(t) < fs \/ ~ IsB64(Take(t, fs)) THEN Err
          ELSE Ok([code |-> code, count |-> B64Int(SubSeq(t, hs + 1, fs))])

CounterParseBin(b) ==
    IF Len(b) < 2 THEN Err
    ELSE LET hs == CounterHard(B64Front(b, 2)) IN
      IF hs = 0 \/ Len(b) < CodeBytes(hs) THEN Err
      ELSE LET code == Str(B64Front(b, hs)) IN
        IF code \notin CounterCodes THEN Err
        ELSE LET fs == CounterSz[code].fs IN
          IF Len(b) < CodeBytes(fs) THEN Err
          ELSE CounterParseText(B64Front(b, fs))

CounterParse(via, in) ==
    CASE via = "qb64"  -> CounterParseText(in)
      [] via = "qb64b" -> IF Utf8Ok(in) THEN CounterParseText(in) ELSE Err
      [] via = "qb2"   -> CounterParseBin(in)

CounterNew(code, count) ==
    IF code \notin CounterCodes \/ count >= Pow(64, CounterSz[code].ss) THEN Err
    ELSE Ok([code |-> code, count |-> count])

\* semantic version "major.minor.patch" -> three Base64 characters
SemVer(parts) == IF \A i \in 1 .. 3 : parts[i] \in 0 .. 63
                 THEN Ok(Tup([i \in 1 .. 3 |-> B64Chr(parts[i])])) ELSE Err
SemVerPart(s) == IF s = << >> THEN 0
                 ELSE IF ~ AllIn(s, Digits) THEN -1
                 ELSE LET n == DecBn(s) IN IF BnSmall(n) THEN BnInt(n) ELSE -1
SemVerStr(s) == LET ps == Split(s, 46) IN
                IF Len(ps) > 3 THEN Err
                ELSE SemVer([i \in 1 .. 3 |-> IF i <= Len(ps) THEN SemVerPart(ps[i]) ELSE 0])
=============================================================================
