------------------------------- MODULE MC_Doc -------------------------------
(* MODE "text": every text of a few tokens.  MODE "edit": every short history  *)
(* of edits of small documents, against what an insertion-ordered map does.    *)
(* MODE "utf8": every short string of boundary bytes.                          *)
EXTENDS T_Doc, Json, IOUtils
VARIABLES text, doc, prev, hist
vars == <<text, doc, prev, hist>>
Full == IOEnv.FULL = "1"
Mode == IOEnv.MODE
Out(x) == PrintT("OP " \o ToJson(x))

Tokens == {B("{"), B("}"), B("["), B("]"), B(":"), B(","), B("\"a\""), B("\"a\":"), B("\"\":1"), B("{\"a\":"), B("\""), B("\\"), B("\\u00e9"), B("\\ud83d"), B("\\uDE00"), <<195, 169>>, B("null"), B("true"),
           B("1"), B("-"), B("0"), B("."), B("e"), B("+"), B(" "), <<10>>, B("9223372036854775807"), B("x"), <<0>>, B("[1,"), B("\"x\"]")}
MaxTok == IF Full THEN 4 ELSE 3
Edge == {10, 34, 92, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
MaxB == IF Full THEN 4 ELSE 3

J(s) == JParse(B(s)).v
Starts == {J("{}"), J("[]"), J("{\"a\":1}"), J("{\"a\":1,\"b\":2,\"c\":3}"), J("{\"b\":{\"a\":[0]},\"a\":{}}"), J("[{\"a\":1},[2]]")}
Labs == {<<>>, B("a"), B("b"), B("c")}
Vals == {J("null"), J("{}"), J("\"x\"")}
Slots(v) == IF IsObj(v) THEN {<<[l |-> v.o[i].k]>> : i \in 1 .. Len(v.o)} \cup {<<[p |-> i - 1]>> : i \in 1 .. Len(v.o)}
            ELSE IF IsArr(v) THEN {<<[p |-> i - 1]>> : i \in 1 .. Len(v.a)} ELSE {}
Paths(v) == {<< >>} \cup Slots(v) \cup UNION {{p \o q : q \in Slots(Reach(v, p, 1))} : p \in Slots(v)}
Fresh(v) == {p \o <<[l |-> k]>> : p \in {q \in {<< >>} \cup Slots(v) : IsObj(Reach(v, q, 1))}, k \in Labs}
MaxEd == IF Full THEN 3 ELSE 2

Init == /\ text = << >> /\ prev = << >>
        /\ IF Mode = "edit" THEN \E d \in Starts : doc = d /\ hist = <<[op |-> "je.open", new |-> TRUE, doc |-> JPrint(d)]>>
           ELSE doc = JNull /\ hist = << >>
Grow == /\ Mode = "text" /\ Len(hist) < MaxTok
        /\ \E t \in Tokens : /\ text' = text \o t /\ hist' = Append(hist, t)
                             /\ Out([op |-> "j.parse", in |-> text'])
        /\ UNCHANGED <<doc, prev>>
Byte == /\ Mode = "utf8" /\ Len(text) < MaxB
        /\ \E c \in Edge : text' = Append(text, c) /\ Out([op |-> "j.parse", in |-> <<34>> \o text' \o <<34>>])
        /\ UNCHANGED <<doc, prev, hist>>
Do(e) == /\ Mode = "edit" /\ Len(hist) <= MaxEd
         /\ LET y == DocStep(e, doc) IN doc' = y.s /\ prev' = <<e, doc>>
         /\ hist' = Append(hist, e)
         /\ (Len(hist') = MaxEd + 1 => Out(hist' \o <<[op |-> "je.get", path |-> << >>]>>))
         /\ UNCHANGED text
Put1 == \E p \in Paths(doc) \cup Fresh(doc), v \in Vals : Do([op |-> "je.put", path |-> p, val |-> JPrint(v)])
Del1 == \E p \in {<< >>} \cup Slots(doc), k \in Labs : Do([op |-> "je.del", path |-> p, at |-> k])
Push1 == \E p \in {<< >>} \cup Slots(doc), v \in {J("7")} : Do([op |-> "je.push", path |-> p, val |-> JPrint(v)])
Next == Grow \/ Byte \/ (Mode = "edit" /\ (Put1 \/ Del1 \/ Push1))
Spec == Init /\ [][Next]_vars

\* the fast interpretation and the definition are the same function
Same == Mode # "edit" => /\ JParse(text) = JParseDef(text)
                         /\ Utf8Ok(text) = Utf8OkDef(text)
RoundTrip == LET r == IF Mode = "edit" THEN Ok(doc) ELSE JParse(text) IN
             IsOk(r) => /\ JPrint(r.v) = JPrintDef(r.v)
                        /\ JParse(JPrint(r.v)) = r
                        /\ Utf8Ok(JPrint(r.v))
                        /\ ~ \E i \in 1 .. Len(JPrint(r.v)) : JPrint(r.v)[i] < 32
\* printing is injective on what was read; spaces around never matter
Padded == Mode = "text" => JParse(<<32>> \o text \o <<10>>) = JParse(text)
\* an edit changes what it names and nothing else, and never the order of what stays
Keys(v) == Tup([i \in 1 .. Len(v.o) |-> v.o[i].k])
Local == (Mode = "edit" /\ prev # << >>) =>
    LET e == prev[1]  old == prev[2] IN
    /\ (e.op = "je.put" => Reach(doc, e.path, 1) = JParse(e.val).v)
    /\ (e.op = "je.put" /\ e.path # << >> => \A p \in Paths(old) : LET s == e.path[1]  q == IF p = << >> THEN s ELSE p[1] IN
            (IsLabel(s) /\ IsLabel(q) /\ s.l # q.l) => Reach(doc, p, 1) = Reach(old, p, 1))
    /\ (e.op = "je.del" /\ IsObj(Reach(old, e.path, 1)) =>
            LET a == Reach(old, e.path, 1)  b == Reach(doc, e.path, 1) IN
            /\ ~ HasField(b, e.at)
            /\ Keys(b) = SelectSeq(Keys(a), LAMBDA k : k # e.at)
            /\ \A i \in 1 .. Len(b.o) : FieldOf(a, b.o[i].k) = b.o[i].v)
    /\ (e.op = "je.put" /\ e.path # << >> /\ IsObj(old) /\ IsObj(doc) => Take(Keys(doc), Len(old.o)) = Keys(old) /\ Len(doc.o) <= Len(old.o) + 1)
\* labels stay distinct
RECURSIVE Distinct(_)
Distinct(v) == IF IsObj(v) THEN /\ \A i, j \in 1 .. Len(v.o) : i # j => v.o[i].k # v.o[j].k
                                /\ \A i \in 1 .. Len(v.o) : Distinct(v.o[i].v)
               ELSE IF IsArr(v) THEN \A i \in 1 .. Len(v.a) : Distinct(v.a[i]) ELSE TRUE
Labels1 == Distinct(doc) /\ (IsOk(JParse(text)) => Distinct(JParse(text).v))
=============================================================================
