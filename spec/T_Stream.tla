------------------------------ MODULE T_Stream ------------------------------
EXTENDS Stream, T_Typed

WObs(it) == [kind |-> B(it.kind), code |-> B(it.v.code), fs |-> BnOfInt(ItemFull(it.kind, it.v)), qb64 |-> ItemText(it.kind, it.v)]
WalkObs(w) == Ok([items |-> Tup([i \in 1 .. Len(w.items) |-> WObs(w.items[i])]), left |-> BnOfInt(Len(w.rest)), done |-> (w.end = "done")])

RECURSIVE CatBin(_, _, _)
CatBin(items, i, acc) == IF i > Len(items) THEN acc ELSE CatBin(items, i + 1, acc \o ItemBin(items[i].kind, items[i].v))

Via(dom) == IF dom = "bin" THEN "qb2" ELSE "qb64"
\* sessions: [dom, buf, kinds]
StreamInit == [dom |-> "text", buf |-> << >>, kinds |-> << >>]
StreamOps == {"st.walk", "st.auto", "st.open", "st.add", "st.conv", "st.pop"}
StreamStep(e, s) ==
    CASE e.op = "st.walk" -> [x |-> WalkObs(Walk(e.via, e.in, e.kinds)), s |-> s]
      [] e.op = "st.auto" -> [x |-> WalkObs(WalkAuto(e.via, e.in)), s |-> s]
      [] e.op = "st.open" -> [x |-> Ok(<< >>), s |-> [StreamInit EXCEPT !.dom = e.dom]]
      [] e.op = "st.add" -> LET r == ItemParse(e.kind, "qb64", e.text) IN
            IF IsOk(r) THEN LET n == s.buf \o ItemForm(Via(s.dom), e.kind, r.v)
                            IN [x |-> Ok(n), s |-> [s EXCEPT !.buf = n, !.kinds = Append(@, e.kind)]]
            ELSE [x |-> Err, s |-> s]
      \* the whole converted, and its items converted one by one
      [] e.op = "st.conv" -> LET n == IF s.dom = "bin" THEN B64Enc(s.buf) ELSE B64Dec(s.buf)
                             IN [x |-> Ok([whole |-> n, items |-> n]), s |-> [s EXCEPT !.buf = n, !.dom = IF @ = "bin" THEN "text" ELSE "bin"]]
      [] e.op = "st.pop" -> IF s.kinds = << >> THEN [x |-> Err, s |-> s]
            ELSE LET r == Pop(s.kinds[1], Via(s.dom), s.buf) IN
                 IF IsOk(r) THEN [x |-> Ok(WObs(r.v)), s |-> [s EXCEPT !.buf = r.v.rest, !.kinds = Tail(@)]]
                 ELSE [x |-> Err, s |-> s]
=============================================================================
