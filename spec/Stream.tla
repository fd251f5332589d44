------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Streams of qualified material.  A stream is a buffer in the text or in  *)
(* the binary domain; items are appended at the back and taken off the     *)
(* front by parsing what is there and dropping the size the item reports.  *)
(* What kind an item is follows from the context: counters announce        *)
(* themselves ('-') and announce the groups that follow them.              *)
(***************************************************************************)
EXTENDS Codec

\* the kinds a counter with this code and count announces
RECURSIVE Times(_, _)
Times(ks, n) == IF n = 0 THEN << >> ELSE ks \o Times(ks, n - 1)
Group(code) == CASE code \in {"-A", "-B"} -> <<"i">>
                 [] code \in {"-C", "-E", "-G"} -> <<"m", "m">>
                 [] code = "-D" -> <<"m", "m", "m", "i">>
                 [] code = "-F" -> <<"m", "m", "m", "c">>
                 [] code \in {"-H", "-J", "-K"} -> <<"m", "c">>
                 [] code = "-I" -> <<"m", "m", "m">>
                 [] OTHER -> << >>
Announced(c) == LET g == Group(c.code) IN IF g = << >> THEN << >> ELSE Times(g, c.count)

ItemText(kind, v) == CASE kind = "m" -> MatterText(v) [] kind = "i" -> IndexerText(v) [] kind = "c" -> CounterText(v)
ItemBin(kind, v) == B64Dec(ItemText(kind, v))
ItemFull(kind, v) == CASE kind = "m" -> MatterFull(v) [] kind = "i" -> IndexerFull(v) [] kind = "c" -> CounterFull(v)
ItemParse(kind, via, b) == CASE kind = "m" -> MatterParse(via, b) [] kind = "i" -> IndexerParse(via, b) [] kind = "c" -> CounterParse(via, b)
ItemForm(via, kind, v) == IF via = "qb2" THEN ItemBin(kind, v) ELSE ItemText(kind, v)
Width(via, fs) == IF via = "qb2" THEN BinFullBytes(fs) ELSE fs

\* what the front says when no context does
Announces(via, b) == IF via = "qb2" THEN b[1] \div 4 = 62 ELSE b[1] = 45

\* one item off the front: [k, kind, v, rest]
Pop(kind, via, b) ==
    LET r == ItemParse(kind, via, b) IN
    IF ~ IsOk(r) THEN Err
    ELSE Ok([kind |-> kind, v |-> r.v, rest |-> Drop(b, Width(via, ItemFull(kind, r.v)))])

\* walk a buffer to its end or to the first thing that does not parse
RECURSIVE WalkR(_, _, _, _, _)
WalkR(via, b, ctx, auto, acc) ==
    IF b = << >> \/ (ctx = << >> /\ ~ auto) THEN [items |-> acc, rest |-> b, end |-> "done"]
    ELSE LET kind == IF ctx # << >> THEN ctx[1] ELSE IF Announces(via, b) THEN "c" ELSE "m"
             r == Pop(kind, via, b)
         IN IF ~ IsOk(r) THEN [items |-> acc, rest |-> b, end |-> "stuck"]
            ELSE LET left == IF ctx # << >> THEN Tail(ctx) ELSE << >>
                 IN WalkR(via, r.v.rest, IF auto /\ kind = "c" THEN Announced(r.v.v) \o left ELSE left, auto,
                          Append(acc, [kind |-> kind, v |-> r.v.v]))
Walk(via, b, kinds) == WalkR(via, b, kinds, FALSE, << >>)
WalkAuto(via, b) == WalkR(via, b, << >>, TRUE, << >>)
=============================================================================
