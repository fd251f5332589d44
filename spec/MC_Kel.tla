------------------------------- MODULE MC_Kel -------------------------------
(* Whatever events are made and however they are signed, by holders of the     *)
(* keys and by others, every history a log can come to is one its own keys     *)
(* authorised.                                                                 *)
EXTENDS T_Kel, Json, IOUtils
VARIABLES as, made,       \* the log and the contents of the events it admitted
          hist
vars == <<as, made, hist>>
View == <<as, made>>
Full == IOEnv.FULL = "1"
Out(x) == PrintT("OP " \o ToJson(x))

KeyNo == 1 .. 3
Codes == <<"A", "J", "Q">>
Seeds == Tup([k \in 1 .. 3 |-> [code |-> B(Codes[k]), seed |-> Rep(40 + k, 32)]])
KCode(k, fix) == VerferCode(Codes[k], ~ fix)
T1 == B("\"1\"")  T2 == B("\"2\"")  T0 == B("\"0\"")
TH == B("[\"1/2\",\"1/2\"]")
Lists == {<<1>>, <<2, 1>>, <<3>>, <<3, 2>>}
Thrs == {T1, T2, TH}
Cut(n) == IF n = 0 THEN {T0} ELSE IF n = 1 THEN {T1} ELSE Thrs
Base == [t |-> "icp", code |-> "E", i |-> 0, sn |-> 0, prior |-> 0, keys |-> << >>, fix |-> FALSE, kt |-> T0, next |-> << >>, nt |-> T0, tag |-> 0]
Nexts == {<< >>, <<3>>, <<2, 3>>, <<3, 3>>}
Commits == {<< << >>, T0>>, <<<<3>>, T1>>, <<<<2, 3>>, T1>>, <<<<2, 3>>, T2>>, <<<<2, 3>>, TH>>, <<<<3, 3>>, T2>>} \cup (IF Full THEN {<<<<3, 3>>, T1>>, <<<<1>>, T1>>, <<<<3, 1>>, TH>>} ELSE {})
Icps == {[Base EXCEPT !.code = c, !.keys = k, !.kt = t, !.next = n[1], !.nt = n[2]] : c \in {"E", "D"}, k \in {<<1>>}, t \in {T1}, n \in Commits}
        \cup {[Base EXCEPT !.keys = <<2, 1>>, !.kt = t, !.next = n[1], !.nt = n[2]] : t \in Thrs, n \in Commits}
        \cup {[Base EXCEPT !.code = c, !.keys = <<3>>, !.kt = T1, !.fix = f, !.next = n, !.nt = T1, !.sn = s, !.tag = s] : c \in {"E", "1AAI", "1AAJ"}, n \in {<< >>, <<2>>}, f \in BOOLEAN, s \in {0, 1}}
\* what may be claimed to follow: right, or wrong in one place
Last == Len(made)
Right(c) == [c EXCEPT !.i = 1, !.sn = as.sn + 1, !.prior = Last]
Wrong(c) == {[c EXCEPT !.i = 1, !.sn = s, !.prior = Last] : s \in {as.sn, as.sn + 2}}
            \cup {[c EXCEPT !.i = 1, !.sn = as.sn + 1, !.prior = p] : p \in 0 .. Last - 1}
Rots == UNION {{[Base EXCEPT !.t = "rot", !.keys = k, !.kt = t, !.next = n, !.nt = IF n = << >> THEN T0 ELSE T1] :
                t \in {T1} \cup (IF Len(k) = 2 THEN {T2, TH} ELSE {}), n \in {<< >>, <<1>>}} : k \in {<<3>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<1>>, <<3, 3>>}}
Ixns == {[Base EXCEPT !.t = "ixn", !.tag = g] : g \in {0, 1}}
Offered == IF as.log = << >> THEN Icps ELSE {Right(c) : c \in Rots \cup Ixns}
\* these come with every signature they could need
Astray == IF as.log = << >> THEN {} ELSE UNION {Wrong(c) : c \in Rots \cup Ixns} \cup {[Base EXCEPT !.keys = <<1>>, !.kt = T1, !.next = <<3>>, !.nt = T1], [f \in DOMAIN Base |-> made[1][f]]}
\* any signature: whose, said to be at which position now and among the keys committed to, over this or over the last one
Sig(k, i, o, only, j) == [key |-> k, index |-> i, ondex |-> o, only |-> only, over |-> j]
Sigs(j) == {Sig(k, i, << >>, y, j) : k \in KeyNo, i \in {0, 1}, y \in BOOLEAN} \cup {Sig(k, i, <<1 - i>>, FALSE, j) : k \in KeyNo, i \in {0, 1}}
           \cup (IF j > 1 THEN {Sig(k, 0, << >>, FALSE, j - 1) : k \in KeyNo} ELSE {})
Useful(c, g) == LET ks == IF c.t = "ixn" THEN as.keys ELSE c.keys IN g.index < Len(ks) /\ (ks[g.index + 1] = g.key \/ g.index = 0)
Some(c, j) == LET S == {g \in Sigs(j) : Useful(c, g)} IN
              {<< >>} \cup {<<g>> : g \in S} \cup {<<g, h>> : g \in S, h \in {x \in S : (IF c.t = "ixn" THEN as.keys ELSE c.keys)[x.index + 1] = x.key}}
Depth == IF Full THEN 3 ELSE 2
MakeOp(c) == [op |-> "kl.make", t |-> c.t, code |-> B(c.code), i |-> c.i, sn |-> c.sn, prior |-> c.prior, keys |-> c.keys, fix |-> c.fix, kt |-> c.kt, next |-> c.next, nt |-> c.nt, tag |-> c.tag]
SendOp(j, g) == [op |-> "kl.send", ev |-> j, sigs |-> g, hurt |-> << >>]
AllSign(keys, j) == Tup([i \in 1 .. Len(keys) |-> Sig(keys[i], i - 1, << >>, FALSE, j)])
KeysFor(c) == IF c.t = "ixn" THEN as.keys ELSE c.keys
Open0 == [op |-> "kl.open", new |-> TRUE, seeds |-> Seeds]
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q).key + 3 * Head(q).index + 7 * Head(q).over + (IF Head(q).only THEN 5 ELSE 0) + 2 * Sum(Tail(q))
Pick(c, g) == (Sum(g) + 3 * Len(c.keys) + 5 * Len(c.next) + Len(c.kt) + c.tag + Len(hist)) % (IF Full THEN 29 ELSE 11) = 0
\* --------------------------------------------------------- authorisation
\* the establishing event in force when event j was admitted (itself, if it is one)
Force(m, j) == CHOOSE e \in 1 .. j : m[e].t # "ixn" /\ \A x \in e + 1 .. j : m[x].t = "ixn"
\* the positions of a list of keys that some set of keys holds
Held(keys, who) == {p - 1 : p \in {x \in 1 .. Len(keys) : keys[x] \in who}}
EnoughOf(thr, n, S) == CASE thr = T1 -> Cardinality(S) >= 1 [] thr = T2 -> Cardinality(S) >= 2 [] thr = TH -> S = {0, 1} [] OTHER -> FALSE
Carried(m, j, g) ==
    LET f == m[Force(m, j)]
        who == {x.key : x \in {g[i] : i \in {y \in 1 .. Len(g) : g[y].over = j}}}
    IN \* the keys that signed this very event are a quorum of those in force
       /\ EnoughOf(f.kt, Len(f.keys), Held(f.keys, who))
       \* and, where the keys changed, a quorum of those committed to before, each among the new ones
       /\ m[j].t = "rot" => LET b == m[Force(m, j - 1)] IN EnoughOf(b.nt, Len(b.next), Held(b.next, who \cap {m[j].keys[i] : i \in 1 .. Len(m[j].keys)}))
Try(c, g) == LET m == Entered(made, c)  j == Len(m)
                 ok == Admits(as, m, j, g)
                 h == hist \o <<MakeOp(c), SendOp(j, g)>>
             IN /\ (ok \/ Pick(c, g)) => Out(<<Open0>> \o h \o <<[op |-> "kl.all"]>>)
                /\ ok => Assert(Carried(m, j, g), <<"not authorised", m, g>>)
                /\ ok
                /\ as' = Admitted(as, m, j) /\ made' = m /\ hist' = h
Init == as = NoLog /\ made = << >> /\ hist = << >>
Refused == /\ as.log = << >>
           /\ \E c \in Icps : ~ Makeable(c, KCode) /\ Out(<<Open0, MakeOp(c)>>)
           /\ UNCHANGED vars
Offer == /\ Len(as.log) < Depth
         /\ \/ \E c \in {x \in Offered : Makeable(x, KCode)} : \E g \in Some(c, Last + 1) : Try(c, g)
            \/ \E c \in Astray : Try(c, AllSign(KeysFor(c), Last + 1))
Next == Offer \/ Refused
Spec == Init /\ [][Next]_vars

\* --------------------------------------------- what every history comes to
N == Len(made)
Chained == \A j \in 1 .. N :
    /\ made[j].sn = j - 1
    /\ (made[j].t = "icp") = (j = 1)
    /\ j > 1 => made[j].prior = j - 1 /\ PrefixId(made, j) = PrefixId(made, 1)
    \* nothing follows an event that committed to no keys
    /\ j > 1 => made[Force(made, j - 1)].next # << >>
StateIsLog == /\ as.log = Tup([j \in 1 .. N |-> j])
              /\ N > 0 => LET f == made[Force(made, N)] IN as.keys = f.keys /\ as.kt = f.kt /\ as.next = f.next /\ as.nt = f.nt /\ as.sn = N - 1 /\ as.last = N
\* the holders of all the keys can always go on: anchor something, or rotate to the keys committed to
GoesOn == N > 0 /\ as.next # << >> =>
    LET x == [Base EXCEPT !.t = "ixn", !.i = 1, !.sn = as.sn + 1, !.prior = N, !.tag = 1]
        r == [Base EXCEPT !.t = "rot", !.i = 1, !.sn = as.sn + 1, !.prior = N, !.keys = as.next, !.kt = T1]
        j == N + 1
    IN /\ Admits(as, Entered(made, x), j, AllSign(as.keys, j))
       /\ ~ as.fix => Admits(as, Entered(made, r), j, AllSign(as.next, j))
       /\ ~ Admits(as, Entered(made, x), j, AllSign(as.keys, j - 1))
=============================================================================
