------------------------------ MODULE MC_Stream ------------------------------
(***************************************************************************)
(* All histories of appending, converting and popping over a pool with one *)
(* item of every size class of every kind.                                 *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils
VARIABLES dom, buf, sent, popped, hist
vars == <<dom, buf, sent, popped, hist>>
Full == IOEnv.FULL = "1"
MaxItems == IF Full THEN 3 ELSE 2
Line(o) == PrintT("OP " \o ToJson(o))
Pat(n) == Tup([i \in 1 .. n |-> (i * 37 + 11) % 256])
M(c, n) == [kind |-> "m", v |-> MatterFromRaw(c, Pat(n)).v]
I(c, i, o) == [kind |-> "i", v |-> IndexerFromRaw(c, Pat(RawSize(IndexerSz[c])), i, o).v]
C(c, n) == [kind |-> "c", v |-> CounterNew(c, n).v]
Pool == {M("M", 2), M("0H", 4), M("N", 8), M("0A", 16), M("1AAF", 3), M("2AAA", 2), M("3AAA", 1), M("4A", 3), M("5A", 2), M("6A", 4), M("7AAA", 3), M("4B", 0), M("9AAB", 1),
         C("-A", 0), C("-V", 4095), C("-0V", 1), C("--AAA", 77)}
        \cup IF Full THEN {I("A", 0, << >>), I("2A", 1, <<2>>), M("B", 32)} ELSE {I("A", 5, << >>), M("1AAB", 33)}
Via == IF dom = "bin" THEN "qb2" ELSE "qb64"
Init == dom \in {"text", "bin"} /\ buf = << >> /\ sent = << >> /\ popped = << >> /\ hist = <<[op |-> "st.open", new |-> TRUE, dom |-> dom]>>
Add == \E it \in Pool : /\ Len(sent) < MaxItems
                        /\ buf' = buf \o ItemForm(Via, it.kind, it.v) /\ sent' = Append(sent, it)
                        /\ hist' = Append(hist, [op |-> "st.add", kind |-> it.kind, text |-> ItemText(it.kind, it.v)])
                        /\ UNCHANGED <<dom, popped>>
Converted == \E i \in 1 .. Len(hist) : hist[i].op = "st.conv"
Convert == /\ buf # << >> /\ hist[Len(hist)].op # "st.conv" /\ (~ Full => ~ Converted)
           /\ dom' = (IF dom = "bin" THEN "text" ELSE "bin") /\ buf' = (IF dom = "bin" THEN B64Enc(buf) ELSE B64Dec(buf))
           /\ hist' = Append(hist, [op |-> "st.conv"]) /\ UNCHANGED <<sent, popped>>
PopOne == /\ Len(popped) < Len(sent)
          /\ LET it == sent[Len(popped) + 1]  r == Pop(it.kind, Via, buf)
             IN /\ popped' = Append(popped, IF IsOk(r) THEN [kind |-> it.kind, v |-> r.v.v] ELSE [kind |-> "none", v |-> 0])
                /\ buf' = (IF IsOk(r) THEN r.v.rest ELSE << >>)
          /\ hist' = Append(hist, [op |-> "st.pop"])
          /\ (Len(popped') = MaxItems => Line(hist'))
          /\ UNCHANGED <<dom, sent>>
Next == Add \/ Convert \/ PopOne
Spec == Init /\ [][Next]_vars
\* what was popped is a prefix of what was sent, and the buffer is exactly the rest
RECURSIVE CatForm(_, _, _, _)
CatForm(via, items, i, acc) == IF i > Len(items) THEN acc ELSE CatForm(via, items, i + 1, acc \o ItemForm(via, items[i].kind, items[i].v))
InOrder == popped = Take(sent, Len(popped))
Rest == buf = CatForm(Via, Drop(sent, Len(popped)), 1, << >>)
Whole == (buf # << >> /\ dom = "text") => Len(buf) % 4 = 0
=============================================================================
