------------------------------- MODULE MC_Sad -------------------------------
(* MODE "said": a document is given its identifier, then edited.                *)
(* MODE "frame": documents are framed, sent with other bytes behind, cut short, *)
(* hurt in one byte, and read.                                                  *)
(* MODE "vs": version strings.                                                  *)
EXTENDS T_Sad, Json, IOUtils
VARIABLES doc, id, orig, hist, stage
vars == <<doc, id, orig, hist, stage>>
Full == IOEnv.FULL = "1"
Mode == IOEnv.MODE
Out(x) == PrintT("OP " \o ToJson(x))
V0 == B("KERI10JSON000000_")  V1 == B("ACDC10JSON0000ff_")
LA == B("a")
Base(v) == (IF v = << >> THEN << >> ELSE <<JF(LV, JStr(v))>>) \o <<JF(LD, JStr(<< >>))>>
Docs == {JObj(Base(v) \o x) : v \in {<< >>, V0, V1},
                              x \in {<< >>, <<JF(LA, JInt(B("1")))>>, <<JF(LA, JStr(<<195, 169>>)), JF(B("b"), JObj(<<JF(LD, JNull)>>))>>, <<JF(LA, JArr(<<JStr(<< >>), JBool(TRUE)>>))>>}}
Codes == IF Full THEN DigestCodes ELSE {"E", "I", "0G"}
Labs == {LV, LD, LA, B("b"), B("c")}
News == {JStr(<< >>), JInt(B("1")), JNull, JStr(V0), JStr(V1), JStr(Dummy("E")), JArr(<<JStr(<< >>), JBool(TRUE)>>), JStr(B("e") \o <<204, 129>>)}
MaxEd == IF Full THEN 2 ELSE 1
VerOp(p, w) == [op |-> "ds.ver", prefixed |-> <<p>>, versioned |-> <<w>>, label |-> << >>, ignore |-> << >>]
Tails == {<< >>, <<32>>, B("{}"), B("-AABAA"), <<255, 254>>, <<195>>, V1}
NoId == [code |-> "", size |-> 0, raw |-> << >>]

Init == /\ id = NoId /\ orig = JNull
        /\ CASE Mode = "said" -> /\ doc \in Docs /\ stage = "open"
                                 /\ hist = <<[op |-> "ds.open", new |-> TRUE, doc |-> JPrint(doc)]>>
             [] Mode = "frame" -> doc \in {d \in Docs : HasField(d, LV)} /\ stage = "open" /\ hist = << >>
             [] OTHER -> doc = JNull /\ stage = "open" /\ hist = << >>
SaidAct == /\ Mode = "said" /\ stage = "open"
           /\ \E c \in Codes : LET r == Saidify(doc, c, << >>, LD, {}) IN
                 /\ IsOk(r) /\ doc' = r.v.sad /\ id' = r.v.id /\ orig' = r.v.sad
                 /\ hist' = Append(hist, [op |-> "ds.said", code |-> <<B(c)>>, label |-> << >>, ignore |-> << >>])
           /\ stage' = "said"
Edits == Len(hist) - 2
Note(e) == LET h == Append(hist, e) IN
           hist' = h /\ Out(h \o <<VerOp(TRUE, TRUE), VerOp(FALSE, TRUE), VerOp(TRUE, FALSE), VerOp(FALSE, FALSE)>>)
Edit == /\ Mode = "said" /\ stage = "said" /\ Edits < MaxEd
        /\ \/ \E k \in Labs, v \in News : doc' = With(doc, k, v) /\ Note([op |-> "ds.set", at |-> k, val |-> JPrint(v)])
           \/ \E k \in Labs : HasField(doc, k) /\ doc' = Without(doc, {k}) /\ Note([op |-> "ds.del", at |-> k])
        /\ UNCHANGED <<id, orig, stage>>
\* out of one document and back into it, at the end
Shuffle == /\ Mode = "said" /\ stage = "said" /\ Edits < MaxEd
           /\ \E k \in Labs \ {LV, LD} : /\ HasField(doc, k) /\ doc' = With(Without(doc, {k}), k, FieldOf(doc, k))
                /\ Out(hist \o <<[op |-> "ds.del", at |-> k], [op |-> "ds.set", at |-> k, val |-> JPrint(FieldOf(doc, k))], VerOp(TRUE, TRUE), VerOp(FALSE, FALSE)>>)
                /\ hist' = Append(hist, [op |-> "moved"])
           /\ stage' = "end" /\ UNCHANGED <<id, orig>>
\* framing
As(d) == IF Take(FieldOf(d, LV).s, 4) = B("ACDC") THEN "creder" ELSE "serder"
IdentOf(d) == Take(FieldOf(d, LV).s, 4)
Frame == /\ Mode = "frame" /\ stage = "open"
         /\ \E c \in Codes : LET r == Saidify(doc, c, << >>, LD, {}) IN
              /\ IsOk(r) /\ doc' = r.v.sad /\ id' = r.v.id /\ orig' = r.v.sad
              /\ \A t \in Tails : Out([op |-> "sr.life", as |-> As(doc), doc |-> JPrint(r.v.sad), code |-> <<B(c)>>, tail |-> t])
         /\ stage' = "framed" /\ UNCHANGED hist
Hurt == {0, 34, 48, 49, 65, 95, 125}
Cut == /\ Mode = "frame" /\ stage = "framed" /\ hist = << >>
       /\ \E n \in 0 .. Len(JPrint(doc)) - 1 :
             /\ hist' = Take(JPrint(doc), n)
             /\ Out([op |-> "sr.raw", as |-> As(doc), code |-> <<B(id.code)>>, in |-> hist'])
       /\ stage' = "cut" /\ UNCHANGED <<doc, id, orig>>
Alter == /\ Mode = "frame" /\ stage = "framed" /\ hist = << >>
         /\ \E n \in 1 .. (IF Full THEN Len(JPrint(doc)) ELSE MinOf(30, Len(JPrint(doc)))), c \in Hurt :
             /\ hist' = [JPrint(doc) EXCEPT ![n] = c]
             /\ Out([op |-> "sr.raw", as |-> As(doc), code |-> <<B(id.code)>>, in |-> hist'])
         /\ stage' = "altered" /\ UNCHANGED <<doc, id, orig>>
Sizes == {0, 1, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 1048575, 1048576, 16777215}
MakeVs == /\ Mode = "vs" /\ stage = "open"
          /\ \E i \in Idents, a \in 0 .. 16, b \in 0 .. 16, s \in Sizes \cup {16777216} :
                LET r == Versify(i, a, b, B("JSON"), BnOfInt(s)) IN
                /\ Out([op |-> "v.mk", ident |-> <<i>>, version |-> <<<<a, b>>>>, kind |-> <<B("JSON")>>, size |-> <<BnOfInt(s)>>])
                /\ hist' = IF IsOk(r) THEN r.v ELSE << >>
                /\ doc' = <<i, a, b, s, IsOk(r)>>
                /\ (IsOk(r) => Out([op |-> "v.de", in |-> r.v]))
          /\ stage' = "made" /\ UNCHANGED <<id, orig>>
Next == SaidAct \/ Edit \/ Shuffle \/ Frame \/ Cut \/ Alter \/ MakeVs
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Without2(d, ks) == JObj(SelectSeq(d.o, LAMBDA f : f.k \notin ks))
Stripped(v) == With(v, LD, JStr(<< >>))
Vf(p, w) == SaidVerifies(id, doc, p, w, << >>, LD, {})
\* only the size differs
SameVs(d, e) == HasField(d, LV) = HasField(e, LV) /\
                (HasField(d, LV) => LET a == StrOf(d, LV)  b == StrOf(e, LV) IN
                                    IsOk(a) /\ IsOk(Deversify(a.v)) /\ Take(a.v, 10) = Take(b.v, 10))
PutVs(d, e) == IF HasField(d, LV) THEN With(d, LV, FieldOf(e, LV)) ELSE d
Binds == (Mode = "said" /\ stage # "open") =>
    /\ Vf(TRUE, TRUE) = (doc = orig)
    /\ Vf(FALSE, TRUE) = (HasField(doc, LD) /\ Stripped(doc) = Stripped(orig))
    /\ Vf(TRUE, FALSE) = (SameVs(doc, orig) /\ PutVs(doc, orig) = orig)
    /\ Vf(FALSE, FALSE) = (HasField(doc, LD) /\ SameVs(doc, orig) /\ Stripped(PutVs(doc, orig)) = Stripped(orig))
\* the identifier is as long as what stood in its place, so the stated size is the true size
Sized == (stage = "said" /\ HasField(orig, LV)) => VsSize(FieldOf(orig, LV).s) = Len(JPrint(orig))
Made == (stage \in {"said", "framed"}) => FieldOf(orig, LD) = JStr(MatterText(id)) /\ Len(MatterText(id)) = TextSize(id.code)
\* reading takes exactly the frame, whatever follows; what is cut or hurt is never read as something else
ReadsBack == (Mode = "frame" /\ stage = "framed") =>
    \A t \in Tails : LET r == Inhale(JPrint(doc) \o t, id.code, IdentOf(doc)) IN IsOk(r) /\ r.v.raw = JPrint(doc) /\ r.v.ked = doc /\ r.v.said = id
NeverShort == stage = "cut" => ~ IsOk(Inhale(hist, id.code, IdentOf(doc)))
Hurts == stage = "altered" => LET r == Inhale(hist, id.code, IdentOf(doc)) IN
         (IsOk(r) /\ ~ InhaleOpen(hist)) => /\ r.v.raw = Take(hist, Len(r.v.raw)) /\ VsSize(FieldOf(r.v.ked, LV).s) = Len(r.v.raw)
                    \* a changed document is not the one the identifier names
                    /\ (hist # JPrint(doc) => ~ SaidVerifies(r.v.said, r.v.ked, TRUE, TRUE, << >>, LD, {}))
Reversible == stage = "made" =>
    /\ doc[5] = (doc[2] <= 15 /\ doc[3] <= 15 /\ doc[4] <= 16777215)
    /\ (doc[5] => Deversify(hist) = Ok([ident |-> doc[1], kind |-> B("JSON"), major |-> doc[2], minor |-> doc[3], size |-> doc[4]]))
=============================================================================
