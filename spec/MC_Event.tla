------------------------------ MODULE MC_Event ------------------------------
(* MODE "prefix": an inception event is given its prefix, then edited.          *)
(* MODE "path": every small document and every short path.                      *)
(* MODE "says": an event with each field there, missing or malformed.           *)
EXTENDS T_Event, Json, IOUtils
VARIABLES doc, pre, orig, hist, stage
vars == <<doc, pre, orig, hist, stage>>
Full == IOEnv.FULL = "1"
Mode == IOEnv.MODE
Out(x) == PrintT("OP " \o ToJson(x))
NoPre == [code |-> "", size |-> 0, raw |-> << >>]

\* ------------------------------------------------------------------- prefixes
Raw32(n) == Rep(n, 32)
Key(c, n) == MatterText([code |-> c, size |-> 0, raw |-> IF c \in {"B", "D"} THEN Rep(n, 32) ELSE <<2>> \o Rep(n, 32)])
PCodes == IF Full THEN {"B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "I", "0G"} ELSE {"B", "D", "1AAI", "E", "0G"}
Gone == [t |-> "gone"]
Some == JArr(<<JStr(B("x"))>>)
Opt(l, x) == IF x = Gone THEN << >> ELSE <<JF(l, x)>>
Ilks == {JStr(B("icp")), JStr(B("dip")), JStr(B("vcp")), JStr(B("rot")), JNull}
Keys(c) == {JArr(<< >>), JArr(<<JStr(Key(c, 7))>>), JArr(<<JStr(Key(c, 7)), JStr(Key(c, 8))>>), JArr(<<JStr(Key(IF c = "D" THEN "B" ELSE "D", 7))>>), JStr(Key(c, 7))}
KCode(c) == IF c \in DigestCodes THEN "D" ELSE c
Event(t, k, n, b, a) == JObj(<<JF(LV, JStr(B("KERI10JSON000000_"))), JF(LT, t), JF(LD, JStr(<< >>)), JF(LI, JStr(<< >>)), JF(LK, k)>> \o Opt(LN, n) \o Opt(LB, b) \o Opt(LA, a))
Init == /\ pre = NoPre /\ orig = JNull /\ hist = << >> /\ doc = JNull /\ stage = "start"
Choose == /\ Mode = "prefix" /\ stage = "start"
          /\ \E c \in PCodes, t \in Ilks, n, b, a \in {Gone, JArr(<< >>), Some} : \E k \in Keys(KCode(c)) :
                /\ doc' = Event(t, k, n, b, a) /\ pre' = [NoPre EXCEPT !.code = c]
                /\ hist' = <<[op |-> "pe.open", new |-> TRUE, doc |-> JPrint(doc')], [op |-> "pe.pre", code |-> <<B(c)>>],
                             [op |-> "pe.ver", prefixed |-> <<TRUE>>], [op |-> "pe.ver", prefixed |-> <<FALSE>>]>>
          /\ Out(hist') /\ stage' = "chosen" /\ UNCHANGED orig
Give == /\ stage = "chosen"
        /\ LET r == PrefixOf(doc, <<pre.code>>, << >>) IN
           IF IsOk(r) THEN pre' = r.v /\ doc' = Filled(doc, r.v) /\ orig' = doc' /\ stage' = "given"
           ELSE stage' = "refused" /\ UNCHANGED <<doc, pre, orig>>
        /\ UNCHANGED hist
Labs == {LV, LT, LD, LI, LK, LN, LB, LA, B("x")}
News == {JStr(<< >>), JArr(<< >>), Some, JNull, JStr(B("dip")), JStr(B("ixn")), JStr(B("ACDC10JSON000000_")), JStr(B("KERI10JSON0000ff_")), JArr(<<JStr(Key("D", 8))>>), JStr(Key("D", 7))}
Edited == Len(hist) > 4
Edit == /\ stage = "given" /\ ~ Edited
        /\ \/ \E k \in Labs, v \in News : doc' = With(doc, k, v) /\ hist' = Append(hist, [op |-> "pe.set", at |-> k, val |-> JPrint(v)])
           \/ \E k \in Labs : HasField(doc, k) /\ doc' = Without(doc, {k}) /\ hist' = Append(hist, [op |-> "pe.del", at |-> k])
           \/ \E k \in Labs : /\ HasField(doc, k) /\ doc' = With(Without(doc, {k}), k, FieldOf(doc, k))
                              /\ hist' = hist \o <<[op |-> "pe.del", at |-> k], [op |-> "pe.set", at |-> k, val |-> JPrint(FieldOf(doc, k))]>>
        /\ Out(hist' \o <<[op |-> "pe.ver", prefixed |-> <<TRUE>>], [op |-> "pe.ver", prefixed |-> <<FALSE>>]>>)
        /\ UNCHANGED <<pre, orig, stage>>
Digestive == pre.code \in DigestCodes
Vf(x) == PrefixVerifies(pre, doc, x)
\* the prefix and identifier fields, and the stated size, aside
VsHead(d) == LET s == StrOf(d, LV) IN IF IsOk(s) /\ IsOk(Deversify(s.v)) THEN Ok(Take(s.v, 10)) ELSE Err
Kept(d) == With(With(With(d, LI, JNull), LD, JNull), LV, JNull)
SameButId(d, e) == HasField(d, LI) /\ HasField(d, LD) /\ HasField(d, LV) /\ Kept(d) = Kept(e) /\ IsOk(VsHead(d)) /\ VsHead(d) = VsHead(e)
Eligible == stage \in {"given", "refused"} /\ ~ Edited =>
    LET one == HasField(doc, LK) /\ IsArr(FieldOf(doc, LK)) /\ Len(FieldOf(doc, LK).a) = 1
        c == pre.code
        Empty(l) == HasField(doc, l) => FieldOf(doc, l) = JArr(<< >>)
        kc == IF one THEN TypedParse("Verfer", "qb64", FieldOf(doc, LK).a[1].s).v.code ELSE ""
    IN (stage = "given") = (/\ StrOf(doc, LT) \in {Ok(B("icp")), Ok(B("dip")), Ok(B("vcp"))}
                            /\ c \notin DigestCodes => one /\ kc = c /\ (c \in {"B", "1AAA", "1AAI"} => Empty(LN) /\ Empty(LB) /\ Empty(LA)))
Bound == stage = "given" =>
    /\ ~ Edited => Vf(TRUE)
    /\ Digestive => Vf(FALSE) = SameButId(doc, orig)
    /\ Digestive => Vf(TRUE) = (SameButId(doc, orig) /\ FieldOf(doc, LI) = FieldOf(orig, LI))
    /\ ~ Digestive => (Vf(FALSE) => FieldOf(doc, LK) = JArr(<<JStr(MatterText(pre))>>) /\ Incepts(doc))
    /\ Vf(TRUE) => FieldOf(doc, LI) = JStr(MatterText(pre))
    \* a prefix is a text of its own kind
    /\ pre = TypedParse("Prefixer", "qb64", MatterText(pre)).v

\* ---------------------------------------------------------------------- paths
Lbl == {B("a"), B("0"), B("1")}
Leaf == {JStr(B("x")), JNull}
Pairs(S) == {<<x, y>> : x \in S, y \in S}
Objs(S) == {JObj(<< >>)} \cup {JObj(<<JF(l, x)>>) : l \in Lbl, x \in S} \cup {JObj(<<JF(p[1], q[1]), JF(p[2], q[2])>>) : p \in {r \in Pairs(Lbl) : r[1] # r[2]}, q \in Pairs(S)}
Arrs(S) == {JArr(<< >>)} \cup {JArr(<<x>>) : x \in S} \cup {JArr(q) : q \in Pairs(S)}
D1 == Leaf \cup Objs({JStr(B("x"))}) \cup Arrs({JStr(B("x"))})
D2 == IF Full THEN Objs(D1) \cup Arrs(D1) ELSE {JObj(<<JF(l, x), JF(B("b"), y)>>) : l \in Lbl, x \in D1, y \in {JNull, JArr(<<JStr(B("x"))>>)}} \cup {JArr(<<x, y>>) : x, y \in D1}
Comp == {B("a"), B("0"), B("1"), B("2"), B("b")}
Paths == {<< >>} \cup {<<a>> : a \in Comp} \cup {<<a, b>> : a, b \in Comp} \cup {<<a, b, c>> : a \in {B("a"), B("0")}, b, c \in {B("0"), B("b"), B("1")}}
Follow == /\ Mode = "path" /\ stage = "start"
          /\ \E v \in D2, p \in Paths : doc' = v /\ hist' = p /\ Out([op |-> "pa.res", form |-> "bext", path |-> PathText(p), doc |-> JPrint(v)])
          /\ stage' = "path" /\ UNCHANGED <<pre, orig>>
Then(r, q) == IF IsOk(r) THEN Resolve(r.v, q) ELSE Err
\* children of a value, each by every name it has
Named(v) == IF IsArr(v) THEN {<<DecInt(i - 1), v.a[i]>> : i \in 1 .. Len(v.a)}
            ELSE IF IsObj(v) THEN {<<DecInt(i - 1), v.o[i].v>> : i \in 1 .. Len(v.o)} \cup {<<v.o[i].k, v.o[i].v>> : i \in {j \in 1 .. Len(v.o) : ~ Position(v.o[j].k)}}
            ELSE {}
RECURSIVE Reached(_, _)
Reached(S, p) == IF p = << >> THEN S ELSE Reached(UNION {{n[2] : n \in {m \in Named(v) : m[1] = p[1]}} : v \in S}, Tail(p))
Leads == stage = "path" =>
    LET r == Resolve(doc, hist) IN
    /\ Reached({doc}, hist) = IF IsOk(r) THEN {r.v} ELSE {}
    /\ \A i \in 0 .. Len(hist) : r = Then(Resolve(doc, Take(hist, i)), Drop(hist, i))
    /\ PathParts(PathText(hist)) = Ok(hist)
    /\ \A i \in 0 .. Len(hist) : /\ StripPath(hist, Take(hist, i)) = Drop(hist, i)
                                 /\ Resolve(doc, Take(hist, i) \o StripPath(hist, Take(hist, i))) = r
    /\ IsOk(PathM(PathText(hist))) /\ Bext(PathM(PathText(hist)).v) = PathText(hist)

\* -------------------------------------------------------------- what events say
Vals(l) == CASE l = LT -> {Gone, JStr(B("icp")), JStr(B("rot")), JStr(B("ixn")), JStr(B("drt")), JNull}
             [] l = LK -> {Gone, JArr(<< >>), JArr(<<JStr(Key("D", 1)), JStr(Key("B", 2))>>), JArr(<<JStr(B("x"))>>)}
             [] l = LN -> {Gone, JArr(<<JStr(MatterText([code |-> "E", size |-> 0, raw |-> Raw32(3)]))>>), JArr(<<JStr(Key("D", 1))>>)}
             [] l = LB -> {Gone, JArr(<<JStr(Key("B", 4))>>), JStr(B("x"))}
             [] l = B("kt") -> {Gone, JStr(B("1")), JArr(<<JStr(B("1/2")), JStr(B("1/2"))>>), JStr(B("x"))}
             [] l = B("s") -> {Gone, JStr(B("0")), JStr(B("a")), JInt(B("1")), JStr(B("g"))}
             [] l = LI -> {Gone, JStr(Key("D", 1)), JInt(B("1"))}
Said0 == MatterText([code |-> "E", size |-> 0, raw |-> Raw32(9)])
Say1 == /\ Mode = "says" /\ stage = "start"
        /\ \E t \in Vals(LT), k \in Vals(LK), n \in Vals(LN) :
             doc' = JObj(<<JF(LV, JStr(B("KERI10JSON000000_"))), JF(LD, JStr(Said0))>> \o Opt(LT, t) \o Opt(LK, k) \o Opt(LN, n))
        /\ stage' = "half" /\ UNCHANGED <<pre, orig, hist>>
Say2 == /\ stage = "half"
        /\ \E b \in Vals(LB), kt \in Vals(B("kt")), s \in Vals(B("s")), i \in Vals(LI) :
             doc' = JObj(doc.o \o Opt(LI, i) \o Opt(B("s"), s) \o Opt(B("kt"), kt) \o Opt(LB, b))
        /\ Out([op |-> "ev.says", as |-> "serder", raw |-> << >>, doc |-> JPrint(doc'), code |-> << >>, size |-> << <<16>> >>])
        /\ stage' = "says" /\ UNCHANGED <<pre, orig, hist>>
\* one accessor's answer depends on its own field only, and says what the field says
Tells == stage = "says" => LET x == EventSays(doc) IN
    /\ \A l \in {LT, LK, LN, LB, B("kt"), B("s"), LI} :
          LET y == EventSays(Without(doc, {l})) IN
          \A f \in DOMAIN x : (f \notin (CASE l = LT -> {"est"} [] l = LK -> {"verfers"} [] l = LN -> {"digers"} [] l = LB -> {"werfers"}
                                       [] l = B("kt") -> {"tholder"} [] l = B("s") -> {"sner", "sn"} [] l = LI -> {"pre", "preb"})) => x[f] = y[f]
    /\ IsOk(x.pre) => JStr(x.pre.v) = FieldOf(doc, LI)
    /\ IsOk(x.sn) => BnHex(x.sn.v) = FieldOf(doc, B("s")).s
    /\ IsOk(x.verfers) /\ HasField(doc, LK) => Tup([j \in 1 .. Len(x.verfers.v) |-> JStr(x.verfers.v[j].qb64.v)]) = FieldOf(doc, LK).a
Next == Choose \/ Give \/ Edit \/ Follow \/ Say1 \/ Say2
Spec == Init /\ [][Next]_vars
=============================================================================
