------------------------------ MODULE MC_Alone -------------------------------
(* Calls that differ in one argument at a time, made after one another and     *)
(* alongside one another.  The specification gives each call its answer as a   *)
(* function of its arguments; here it is checked that a mix-up would show: for *)
(* every argument of every family there are two calls that differ only there   *)
(* and have different answers.                                                 *)
EXTENDS Calls, Json, IOUtils
VARIABLES fam, hist
vars == <<fam, hist>>
Full == IOEnv.FULL = "1"

M(c, n) == MatterText([code |-> c, size |-> 0, raw |-> Rep(n, RawSize(MatterSz[c]))])
I(c, i, n) == IndexerText([code |-> c, index |-> i, ondex |-> i, raw |-> Rep(n, 64)])
Key(n) == M("D", n)
Sad(x, o) == IF o THEN JObj(<<JF(LD, JStr(<< >>)), JF(B("x"), x)>>) ELSE JObj(<<JF(B("x"), x), JF(LD, JStr(<< >>))>>)
Plain2(x) == JPrint(JObj(<<JF(LD, JStr(B("z"))), JF(B("x"), x)>>))
Ev(t, k, x) == JPrint(JObj(<<JF(LV, JStr(B("KERI10JSON000000_"))), JF(LT, JStr(t)), JF(LD, JStr(M("E", 3))), JF(LI, JStr(<< >>)), JF(LK, JArr(<<JStr(k)>>)), JF(B("x"), JStr(x))>>))
Nest(a, b) == JPrint(JObj(<<JF(B("a"), JArr(<<JStr(a), JStr(b)>>)), JF(B("b"), JStr(b))>>))
SaidOf2(x, c) == MatterText(Derive(Sad(JStr(x), TRUE), c, << >>, LD, {}).v.id)
S1 == Tup([i \in 1 .. 32 |-> i])
S2 == Tup([i \in 1 .. 32 |-> 33 - i])
Salt1 == Rep(1, 16)
Salt2 == Rep(1, 15) \o <<2>>
A2 == B("a")
B2 == B("b")
\* two keys, and signatures of the first over "a" and "b" and of the second over "a"
Key1 == B("DIqI4910CfGV_VLbLTy6XXLKZwm_HZQSG_N0iAG0D29c")
Key2 == B("DIE5dw6ofRdfVqNUZsNMfszLjYqRtO43ol32D1uPybOU")
Sig1a == B("0BAgz3MC5pQTq41Kl1WphoG36BQ3NB_SoX-txlifTgjUERXUO5awTVjEv96qlcjYG_2eScr7UX7eG22jeyKkJWUI")
Sig1b == B("0BBsX7i68wBVA43qLhBu8nLzbCT3Q-GudHVhPZMkb2yq9XBvLt6K8EApw5QNTEYYll5jYCpw8rTKt7GrEyqWOM0E")
Sig2a == B("0BDdp5dRK0PWpmwOjhhWZOu2XrrT_J19L-8B0lpngAAGkaV9RltkfS_gsxelGiymBPilfSKoGpWxA1yiceE3vroP")
SigOf(t) == MatterParseText(t).v.raw
\* argument -> the values it takes; the rest of the call is fixed
Fams == <<
    [fix |-> [op |-> "h.ser"], var |-> [code |-> {<<B("E")>>, <<B("F")>>, <<B("0G")>>}, ser |-> {A2, B2, A2 \o B2}]],
    [fix |-> [op |-> "h.ver"], var |-> [dig |-> {MatterText(DigestOf(c, m).v) : c \in {"E", "I"}, m \in {A2, B2}}, ser |-> {A2, B2}]],
    [fix |-> [op |-> "h.cmp", form |-> "dig"], var |-> [a |-> {MatterText(DigestOf(c, m).v) : c \in {"E", "H"}, m \in {A2, B2}}, b |-> {MatterText(DigestOf("F", m).v) : m \in {A2, B2}}, ser |-> {A2, B2}]],
    [fix |-> [op |-> "sd.said", kind |-> << >>], var |-> [doc |-> {JPrint(Sad(JStr(A2), TRUE)), JPrint(Sad(JStr(A2), FALSE)), JPrint(Sad(JStr(B2), TRUE))}, code |-> {<<B("E")>>, <<B("H")>>},
                                                     label |-> {<<LD>>, <<B("x")>>}, ignore |-> {<< >>, <<<<B("x")>>>>}]],
    [fix |-> [op |-> "sd.ver", kind |-> << >>, versioned |-> << >>, label |-> << >>, ignore |-> << >>],
        var |-> [doc |-> {Plain2(JStr(A2)), Plain2(JStr(B2))}, id |-> {SaidOf2(A2, "E"), SaidOf2(A2, "I"), SaidOf2(B2, "E")}, prefixed |-> {<<TRUE>>, <<FALSE>>}]],
    [fix |-> [op |-> "px.new", allows |-> << >>], var |-> [doc |-> {Ev(B("icp"), Key(n), x) : n \in {1, 2}, x \in {A2, B2}}, code |-> {<<B("E")>>, <<B("D")>>, <<B("G")>>}]],
    [fix |-> [op |-> "px.ver"], var |-> [doc |-> {Ev(t, Key(n), A2) : t \in {B("icp"), B("ixn")}, n \in {1, 2}}, id |-> {Key(1), Key(2)}, prefixed |-> {<<FALSE>>, <<TRUE>>}]],
    [fix |-> [op |-> "th.many", form |-> "sith"], var |-> [doc |-> {B("\"2\""), B("[\"1/2\",\"1/2\",\"1/2\"]"), B("[\"1\",\"1/2\",\"0\"]")},
                                                  idx |-> {<<<< <<1>>, << >> >>, << <<2>> >>>>, <<<< <<1>>, <<1>> >>, << <<2>>, <<1>> >>>>}]],
    [fix |-> [op |-> "pa.res", form |-> "bext"], var |-> [path |-> {B("-a"), B("-a-0"), B("-a-1"), B("-b")}, doc |-> {Nest(A2, B2), Nest(B2, B2), Nest(A2, A2)}]],
    [fix |-> [op |-> "n.num"], var |-> [num |-> {<<1>>, <<1, 0>>, <<255, 255, 255>>, Rep(255, 16)}]],
    [fix |-> [op |-> "n.numh"], var |-> [in |-> {B("1"), B("f"), B("ff"), B("100000000")}]],
    [fix |-> [op |-> "s.sn"], var |-> [num |-> {<<1>>, <<1, 0>>, Rep(255, 16)}]],
    [fix |-> [op |-> "d.dts"], var |-> [in |-> {B("2020-08-22T17:50:09.988921+00:00"), B("2020-08-22T17:50:09.988921-00:00"), B("2020-08-22T17:50:09.988921-01:00"), B("2021-08-22T17:50:09.988921+00:00")}]],
    [fix |-> [op |-> "b.bext"], var |-> [in |-> {B("b"), B("bA"), B("bAA"), B("-b")}]],
    [fix |-> [op |-> "m.par", via |-> "qb64"], var |-> [in |-> {M("E", 1), M("F", 1), M("E", 2), M("0B", 1)}]],
    [fix |-> [op |-> "m.raw"], var |-> [code |-> {B("E"), B("D"), B("0A")}, raw |-> {Rep(1, 32), Rep(2, 32), Rep(1, 33)}]],
    [fix |-> [op |-> "i.par", via |-> "qb64"], var |-> [in |-> {I("A", 0, 1), I("A", 1, 1), I("C", 0, 1), I("A", 0, 2), I("2A", 64, 1)}]],
    [fix |-> [op |-> "c.new"], var |-> [code |-> {B("-A"), B("-B")}, count |-> {<<1>>, <<2>>, <<64>>}]],
    [fix |-> [op |-> "g.new", via |-> "raw"], var |-> [code |-> {B("A"), B("J")}, seed |-> {S1, S2}, tr |-> {<<TRUE>>, <<FALSE>>}]],
    [fix |-> [op |-> "g.ver"], var |-> [key |-> {Key1, Key2}, sig |-> {SigOf(t) : t \in {Sig1a, Sig1b, Sig2a}}, msg |-> {A2, B2}]],
    [fix |-> [op |-> "sl.stretch", own |-> << >>, at |-> << >>], var |-> [temp |-> {<<TRUE>>, <<FALSE>>}, salt |-> {Salt1, Salt2}, path |-> {<<A2>>, <<B2>>}, size |-> {<< >>, <<<<16>>>>}]],
    [fix |-> [op |-> "ev.says", as |-> "serder", raw |-> << >>, code |-> << >>, size |-> << >>], var |-> [doc |-> {Ev(t, Key(n), A2) : t \in {B("icp"), B("ixn")}, n \in {1, 2}}]],
    [fix |-> [op |-> "sr.ked", as |-> "serder", kind |-> << >>, code |-> << >>], var |-> [doc |-> {Ev(t, Key(1), x) : t \in {B("icp"), B("ixn")}, x \in {A2, B2, B("bb")}}]],
    [fix |-> [op |-> "v.mk", version |-> << >>, kind |-> << >>], var |-> [ident |-> {<<B("KERI")>>, <<B("ACDC")>>}, size |-> {<<<<1>>>>, <<<<255>>>>, <<<<1, 0>>>>}]],
    [fix |-> [op |-> "j.parse"], var |-> [in |-> {B("{\"a\":1}"), B("{\"a\":2}"), B("{\"b\":1}"), B("[1]"), B("1")}]]
>>
\* every call of a family
RECURSIVE Deal(_, _)
Deal(c, f) == LET left == DOMAIN f.var \ DOMAIN c
              IN IF left = {} THEN {c} ELSE LET a == CHOOSE n \in left : TRUE IN UNION {Deal(c @@ (a :> v), f) : v \in f.var[a]}
Variants == Tup([n \in DOMAIN Fams |-> Deal(Fams[n].fix, Fams[n])])
Answer(c) == ToString(Step(c, << >>).x)
\* they differ in this argument and in no other
Apart(c, o, a) == c[a] # o[a] /\ \A n \in DOMAIN c \ {a} : c[n] = o[n]
\* a mix-up of any one argument shows
ASSUME \A n \in DOMAIN Fams : \A a \in DOMAIN Fams[n].var : \/ \E c, o \in Variants[n] : Apart(c, o, a) /\ Answer(c) # Answer(o)
                                                          \/ Print(<<"not told apart", Fams[n].fix.op, a>>, FALSE)

Long == 4
Init == fam \in DOMAIN Fams /\ hist = << >>
Next == /\ Len(hist) < Long
        /\ \E c \in Variants[fam] :
             /\ IF hist = << >> THEN TRUE ELSE c = hist[Len(hist)] \/ \E a \in DOMAIN Fams[fam].var : Apart(c, hist[Len(hist)], a)
             /\ hist' = Append(hist, c)
             /\ Len(hist') = Long => PrintT("OP " \o ToJson(hist'))
        /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars
\* the same call gets the same answer wherever in a history it is made
Same == \A i, j \in DOMAIN hist : hist[i] = hist[j] => Answer(hist[i]) = Answer(hist[j])
=============================================================================
