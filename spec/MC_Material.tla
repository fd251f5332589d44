---------------------------- MODULE MC_Material ----------------------------
(* Exhaustive configuration of Material: every code of every table; with     *)
(* MODE=keep the undamaged lives, with MODE=hurt every single-character      *)
(* damage and every cut.  Each construction and each reception is printed as *)
(* a script line: the library must do the same to the same bytes.            *)
EXTENDS Codec, Json, IOUtils
VARIABLES ask, item, via, buf, stage, got

Pattern(p, n) == Tup([i \in 1 .. n |-> CASE p = "zero" -> 0 [] p = "ones" -> 255 [] p = "count" -> (i * 37 + 11) % 256])
KindSel == IOEnv.KIND
Hurt == IOEnv.MODE = "hurt"
Full == IOEnv.FULL = "1"
Pats == IF Hurt /\ ~Full THEN {"count"} ELSE {"zero", "ones", "count"}

Sizes(z) == IF z.fs # VAR
            THEN {RawSize(z)} \cup (IF Hurt THEN {} ELSE {0, RawSize(z) - 1, RawSize(z) + 1, RawSize(z) + 3})
            ELSE IF Hurt THEN {0, 1, 2, 3, 4, 5} ELSE 0 .. (IF Full THEN 200 ELSE 24)
MReqs == UNION {{[kind |-> "m", code |-> c, raw |-> Pattern(p, n)] : p \in Pats, n \in Sizes(MatterSz[c])}
              : c \in MatterCodes}
        \cup (IF Hurt THEN {} ELSE
              {[kind |-> "m", code |-> c, raw |-> Pattern("count", 32)] : c \in {"", "4", "4C", "0J", "R", "1AAK", "7AAC", "-A", "0z", "a", "AAAA", "4AA", "_", " "}})

Idxs(z) == IF z.fs = VAR THEN {0, 1, 2} ELSE LET m == Pow(64, IdxMs(z)) IN
           IF Hurt THEN {1} ELSE {0, 1, 3, m - 2, m - 1, m, m + 63} \cup (IF Full THEN 0 .. 80 ELSE {})
Odxs(z, i) == IF Hurt THEN {<< >>, <<2>>}
              ELSE IF z.os = 0 THEN {<< >>, <<i>>, <<i + 1>>, <<0>>}
              ELSE {<< >>, <<0>>, <<1>>, <<2>>, <<i>>, <<Pow(64, z.os) - 1>>, <<Pow(64, z.os)>>}
IRaws(z, i) == LET n == IF z.fs = VAR THEN 3 * i ELSE RawSize(z) IN
               {n} \cup (IF Hurt \/ n = 0 THEN {} ELSE {n - 1, n + 2})
\* the variable length test code has one index, so an other-index must be stated to be kept
IReqs == UNION {LET z == IndexerSz[c] IN UNION {
             UNION {{[kind |-> "i", code |-> c, raw |-> Pattern(p, n), index |-> i, ondex |-> o]
                   : p \in (IF Hurt \/ ~Full THEN {"count"} ELSE Pats), n \in IRaws(z, i),
                     o \in (IF c = "0z" THEN {<<i>>} ELSE IF i < 0 THEN {} ELSE Odxs(z, i))}}
             : i \in Idxs(z)} : c \in IndexerCodes}
CReqs == UNION {LET m == Pow(64, CounterSz[c].ss) IN
             {[kind |-> "c", code |-> c, count |-> n]
              : n \in (IF Hurt THEN {1, m - 1} ELSE (IF Full THEN 0 .. 4200 ELSE 0 .. 70) \cup {m - 64, m - 1, m, m + 1, (m - 1) + m})}
           : c \in CounterCodes}
         \cup {[kind |-> "c", code |-> c, count |-> 1] : c \in {"", "-", "-W", "-a", "-0", "-0A", "--", "--AAB", "A", "AA", "-AA"}}

RequestsDef == CASE KindSel = "m" -> MReqs [] KindSel = "i" -> IReqs [] KindSel = "c" -> CReqs
CharsDef == {<<65>>, <<66>>, <<95>>, <<45>>, <<48>>, <<52>>, <<122>>,       \* A B _ - 0 4 z
             <<61>>, <<43>>, <<47>>, <<32>>, <<10>>, <<0>>, <<127>>,        \* = + / space LF NUL DEL
             <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>}       \* 2, 3 and 4 byte characters
BitsDef == {<<0>>, <<1>>, <<2>>, <<4>>, <<16>>, <<128>>, <<208>>, <<248>>, <<255>>}
TailsDef == {<<65>>, <<61>>, <<65, 65, 65, 65>>, <<195, 169>>, <<10, 123, 125>>, <<255, 0>>}

M == INSTANCE Material WITH Requests <- RequestsDef, Chars <- CharsDef, Bits <- BitsDef, Tails <- TailsDef

Line(o) == PrintT("OP " \o ToJson(o))
ExportBuild == Line(CASE ask.kind = "m" -> [op |-> "m.raw", code |-> B(ask.code), raw |-> ask.raw]
                      [] ask.kind = "i" -> [op |-> "i.raw", code |-> B(ask.code), raw |-> ask.raw, index |-> BnOfInt(ask.index),
                                            ondex |-> IF ask.ondex = << >> THEN << >> ELSE <<BnOfInt(ask.ondex[1])>>]
                      [] ask.kind = "c" -> [op |-> "c.new", code |-> B(ask.code), count |-> BnOfInt(ask.count)])
OpName == CASE item.kind = "m" -> "m.par" [] item.kind = "i" -> "i.par" [] item.kind = "c" -> "c.par"
ExportReceive == Line([op |-> OpName, via |-> via, in |-> buf])
\* "qb64" is only callable with UTF-8
Callable == via = "qb64" => Utf8Ok(buf)
DamageChars == CASE via = "qb2" -> BitsDef [] via = "qb64b" -> {<<61>>, <<255>>} [] OTHER -> CharsDef
Next == \/ M!Build /\ ExportBuild
        \/ \E f \in {"qb64", "qb64b", "qb2"} : M!Send(f)
        \/ Hurt /\ \E i \in 1 .. Len(buf) : \E x \in DamageChars : M!Damage(i, x)
        \/ Hurt /\ \E n \in 0 .. Len(buf) : M!Cut(n)
        \/ ~Hurt /\ \E t \in TailsDef : M!Follow(t)
        \/ M!Receive /\ Callable /\ ExportReceive
Spec == M!Init /\ [][Next]_<<ask, item, via, buf, stage, got>>
RoundTrip == M!RoundTrip \/ via = "qb64b"
RoundTripB == (via = "qb64b" /\ stage \in {"received:sent", "received:followed"}) =>
                 IF Utf8Ok(buf) THEN got = Ok(item.v) ELSE got = Err
Canonical == M!Canonical
NoPrefix == M!NoPrefix
SameBits == M!SameBits
BuildExact == M!BuildExact
=============================================================================
