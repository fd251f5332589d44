------------------------------ MODULE Material ------------------------------
(***************************************************************************)
(* Life of one piece of qualified material: it is built from raw, encoded  *)
(* as text or binary, travels (and may be damaged, cut or followed by      *)
(* other bytes), and is parsed at the other end.                           *)
(*                                                                         *)
(* Kind-generic: "m" matter, "i" indexer, "c" counter.                     *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS Requests,       \* set of [kind, ...]: construction requests
          Chars,          \* replacement characters (as byte sequences) for damage to text
          Bits,           \* replacement bytes for damage to binary
          Tails           \* byte sequences that may follow

TextOf(it) == CASE it.kind = "m" -> MatterText(it.v) [] it.kind = "i" -> IndexerText(it.v)
                [] it.kind = "c" -> CounterText(it.v)
BinOf(it)  == CASE it.kind = "m" -> MatterBin(it.v) [] it.kind = "i" -> IndexerBin(it.v)
                [] it.kind = "c" -> CounterBin(it.v)
FullOf(it) == CASE it.kind = "m" -> MatterFull(it.v) [] it.kind = "i" -> IndexerFull(it.v)
                [] it.kind = "c" -> CounterFull(it.v)
ParseAs(kind, via, b) == CASE kind = "m" -> MatterParse(via, b) [] kind = "i" -> IndexerParse(via, b)
                           [] kind = "c" -> CounterParse(via, b)

\* what a construction request yields
Construct(q) == CASE q.kind = "m" -> MatterFromRaw(q.code, q.raw)
                  [] q.kind = "i" -> IndexerFromRaw(q.code, q.raw, q.index, q.ondex)
                  [] q.kind = "c" -> CounterNew(q.code, q.count)

VARIABLES ask,      \* the construction request
          item,     \* what was built
          via,      \* the form it travels in: "qb64", "qb64b" or "qb2"
          buf,      \* the travelling bytes
          stage,    \* "asked", "built", "refused", "sent", "damaged", "received:..."
          got       \* outcome of parsing

vars == <<ask, item, via, buf, stage, got>>

None == [k |-> "none"]

Init == /\ ask \in Requests /\ item = None
        /\ via = "none" /\ buf = << >> /\ stage = "asked" /\ got = None

Build == /\ stage = "asked"
         /\ LET r == Construct(ask) IN
            IF IsOk(r) THEN item' = [kind |-> ask.kind, v |-> r.v] /\ stage' = "built"
            ELSE item' = None /\ stage' = "refused"
         /\ UNCHANGED <<ask, via, buf, got>>

Send(form) == /\ stage = "built"
              /\ via' = form
              /\ buf' = IF form = "qb2" THEN BinOf(item) ELSE TextOf(item)
              /\ stage' = "sent"
              /\ UNCHANGED <<ask, item, got>>

Damage(i, x) == /\ stage = "sent" /\ i <= Len(buf)
                /\ x # <<buf[i]>>
                /\ buf' = SubSeq(buf, 1, i - 1) \o x \o Drop(buf, i)
                /\ stage' = "damaged"
                /\ UNCHANGED <<ask, item, via, got>>

Cut(n) == /\ stage = "sent" /\ n < Len(buf)
          /\ buf' = Take(buf, n)
          /\ stage' = "damaged"
          /\ UNCHANGED <<ask, item, via, got>>

Follow(t) == /\ stage = "sent"
             /\ buf' = buf \o t
             /\ stage' = "followed"
             /\ UNCHANGED <<ask, item, via, got>>

Receive == /\ stage \in {"sent", "damaged", "followed"}
           /\ got' = ParseAs(item.kind, via, buf)
           /\ stage' = "received:" \o stage
           /\ UNCHANGED <<ask, item, via, buf>>

Next == \/ Build
        \/ \E f \in {"qb64", "qb64b", "qb2"} : Send(f)
        \/ \E i \in 1 .. Len(buf) : \E x \in (IF via = "qb2" THEN Bits ELSE Chars) : Damage(i, x)
        \/ \E n \in 0 .. Len(buf) : Cut(n)
        \/ \E t \in Tails : Follow(t)
        \/ Receive

Spec == Init /\ [][Next]_vars

Form(it, f) == IF f = "qb2" THEN BinOf(it) ELSE TextOf(it)

\* ------------------------------------------------------------- properties
\* material is built exactly as asked, and too little of it is never accepted
BuildExact == stage = "built" =>
    CASE ask.kind = "m" -> LET z == MatterSz[item.v.code] IN
                           IF z.fs = VAR
                           THEN /\ item.v.raw = ask.raw
                                /\ SubSeq(item.v.code, z.hs, z.hs) = SubSeq(ask.code, Len(ask.code), Len(ask.code))
                                /\ z.ls + Len(item.v.raw) = 3 * item.v.size
                                /\ (z.hs = 4) = (item.v.size >= 4096 \/ Len(ask.code) = 4)
                           ELSE item.v.code = ask.code /\ StartsWith(ask.raw, item.v.raw) /\ Len(item.v.raw) = RawSize(z)
      [] ask.kind = "i" -> /\ item.v.code = ask.code /\ item.v.index = ask.index
                           /\ (ask.ondex # << >> => item.v.ondex = ask.ondex[1])
                           /\ StartsWith(ask.raw, item.v.raw)
      [] ask.kind = "c" -> item.v.code = ask.code /\ item.v.count = ask.count
\* undamaged material comes back as it was built
RoundTrip == stage \in {"received:sent", "received:followed"} => got = Ok(item.v)
\* whatever is accepted is the canonical encoding of the value returned
Canonical == (got.k = "ok") =>
    LET back == [kind |-> item.kind, v |-> got.v] IN StartsWith(buf, Form(back, via))
\* a proper prefix of an encoding is never accepted
NoPrefix == (got.k = "ok" /\ stage = "received:damaged") => Len(buf) >= Len(Form([kind |-> item.kind, v |-> got.v], via))
\* text and binary are the same bits and have the size the value announces
SameBits == stage = "built" => /\ B64Dec(TextOf(item)) = BinOf(item)
                               /\ Len(TextOf(item)) = FullOf(item)
                               /\ FullOf(item) % 4 = 0
=============================================================================
