------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading material that arrives in pieces.  What is in the buffer may be  *)
(* an item (and more), the beginning of one, or neither.  A reader keeps   *)
(* what is the beginning of something, takes an item as soon as it is      *)
(* there, and gives up on anything else; for that, the parser must tell it *)
(* which of the three it is looking at.                                    *)
(***************************************************************************)
EXTENDS Stream, Typed

More == [k |-> "more"]                        \* not there yet
Either == [k |-> "oneof", v |-> {Err, More}]  \* short, and wrong already: which is said is open

\* kinds of item: "m", "i", "c", or the type of a typed primitive
Family(kind) == IF kind \in {"m", "c", "i"} THEN kind ELSE IF kind = "Siger" THEN "i" ELSE "m"
KindCodes(kind) == CASE kind = "m" -> MatterCodes [] kind = "i" -> IndexerCodes [] kind = "c" -> CounterCodes
                   [] OTHER -> TypeCodes[kind]
RowOf(fam, c) == CASE fam = "m" -> MatterSz[c] [] fam = "i" -> IndexerSz[c] [] fam = "c" -> CounterSz[c]
ParseOf(kind, via, x) == IF kind \in {"m", "c", "i"} THEN ItemParse(kind, via, x) ELSE TypedParse(kind, via, x)
HardOf(fam, t) == CASE fam = "m" -> MatterHard(t[1]) [] fam = "i" -> IndexerHard(t[1])
                    [] fam = "c" -> IF t[1] # 45 THEN 0 ELSE IF Len(t) < 2 THEN 2 ELSE CounterHard(t)

\* the soft part with its missing characters chosen so that an item can follow
SoftFrom(z, given) == IF Len(given) >= z.ss THEN Take(given, z.ss)
                      ELSE given \o Rep(65, z.ss - Len(given) - 1) \o <<IF z.fs = VAR THEN 66 ELSE 65>>
StatedSize(fam, z, soft) == IF fam = "c" THEN z.fs ELSE z.hs + z.ss + (IF z.fs = VAR THEN 4 * B64Int(soft) ELSE z.fs - z.hs - z.ss)
\* text t is the beginning, and not the whole, of an item with code c
BeginsAs(fam, c, t) ==
    LET z == RowOf(fam, c)  hard == B(c)  n == MinOf(Len(t), z.hs)  cs == z.hs + z.ss
    IN /\ Take(t, n) = Take(hard, n)
       /\ LET soft == SoftFrom(z, IF Len(t) > z.hs THEN SubSeq(t, z.hs + 1, MinOf(Len(t), cs)) ELSE << >>)
              fs == StatedSize(fam, z, soft)
              body == IF Len(t) > cs THEN SubSeq(t, cs + 1, Len(t)) ELSE << >>
              \* as much of the rest as has bits that must be zero
              want == MinOf(fs - cs, 4 * ((Len(body) + 11) \div 4) + ((4 - (cs % 4)) % 4))
              filled == hard \o soft \o body \o Rep(65, want - Len(body))
          IN /\ Len(t) < fs
             /\ fam # "c" => /\ IsOk(BodyOf(cs, z.ls, B64Dec(filled)))
                             /\ (fam = "i" /\ c \in CurrentCodes) => B64Int(SubSeq(soft, IdxMs(z) + 1, z.ss)) = 0
BeginsText(fam, codes, t) == t # << >> /\ IsB64(t) /\ \E c \in codes : BeginsAs(fam, c, t)
\* binary: as the text it encodes, with any completion of the last, partial character
BeginsBin(fam, codes, b) ==
    LET n == (8 * Len(b)) \div 6
        t == Take(B64Enc(b \o Zeros((3 - (Len(b) % 3)) % 3)), n + (IF (8 * Len(b)) % 6 = 0 THEN 0 ELSE 1))
        open == Pow(2, (6 - ((8 * Len(b)) % 6)) % 6)
    IN b # << >> /\ IF open = 1 THEN BeginsText(fam, codes, t)
                    ELSE \E k \in 0 .. open - 1 : BeginsText(fam, codes, Take(t, n) \o <<B64Chr(B64Idx(t[n + 1]) + k)>>)
Begins(fam, codes, via, x) == IF via = "qb2" THEN BeginsBin(fam, codes, x) ELSE BeginsText(fam, codes, x)

\* the buffer holds as much as it says there is, or says nothing that means anything
FullText(fam, t) ==
    LET hs == HardOf(fam, t) IN
    /\ fam = "c" => Len(t) >= 2
    /\ \/ hs = 0
       \/ Len(t) >= hs /\ (\/ ~ IsB64(Take(t, hs)) \/ Str(Take(t, hs)) \notin KindCodes(fam)
                        \/ LET z == RowOf(fam, Str(Take(t, hs)))  cs == z.hs + z.ss
                           IN IF z.fs # VAR THEN Len(t) >= z.fs
                              ELSE Len(t) >= cs /\ (~ IsB64(Take(t, cs)) \/ Len(t) >= StatedSize(fam, z, SubSeq(t, z.hs + 1, cs))))
FullBin(fam, b) ==
    LET n == (8 * Len(b)) \div 6
    IN FullText(fam, Take(B64Enc(b \o Zeros((3 - (Len(b) % 3)) % 3)), n))

\* what the parser says about a buffer
Look(kind, via, x) ==
    LET fam == Family(kind) IN
    IF x = << >> THEN More
    ELSE IF via = "qb64b" /\ ~ Utf8Ok(x) THEN Either
    ELSE LET r == ParseOf(kind, via, x) IN
         IF IsOk(r) THEN r
         ELSE IF IF via = "qb2" THEN FullBin(fam, x) ELSE FullText(fam, x) THEN Err
         ELSE IF Begins(fam, KindCodes(kind), via, x) THEN More
         ELSE Either

\* a reader: [via, auto, ctx, buf, state]; what one delivery makes of it.  Where the parser may say
\* either, "unsure": the reader waits or gives up
AsItem(kind, v) == [kind |-> Family(kind), v |-> v]
RECURSIVE ReadR(_, _)
ReadR(s, got) ==
    IF s.buf = << >> \/ (s.ctx = << >> /\ ~ s.auto) THEN [s |-> s, got |-> got]
    ELSE LET kind == IF s.ctx # << >> THEN s.ctx[1] ELSE IF Announces(s.via, s.buf) THEN "c" ELSE "m"
             r == Look(kind, s.via, s.buf)
         IN IF IsOk(r)
            THEN LET left == IF s.ctx # << >> THEN Tail(s.ctx) ELSE << >>
                     n == Width(s.via, ItemFull(Family(kind), r.v))
                 IN ReadR([s EXCEPT !.buf = Drop(@, n), !.ctx = IF s.auto /\ kind = "c" THEN Announced(r.v) \o left ELSE left],
                          Append(got, AsItem(kind, r.v)))
            ELSE [s |-> [s EXCEPT !.state = CASE r = More -> "open" [] r = Err -> "dropped" [] OTHER -> "unsure"], got |-> got]
Feed(s, x) == IF s.state = "dropped" THEN [s |-> s, got |-> << >>]
              ELSE ReadR([s EXCEPT !.buf = @ \o x, !.state = "open"], << >>)
=============================================================================
