------------------------------- MODULE MC_Cred -------------------------------
(* Whoever signs, issues, revokes and presents what: a credential is accepted  *)
(* only when its issuer signed it and its own registry says it was issued, it  *)
(* stands only while nothing it rests on was revoked, and no one comes back.   *)
EXTENDS T_Cred, Json, IOUtils
VARIABLES as, made, hist
vars == <<as, made, hist>>
View == <<as, made>>
Full == IOEnv.FULL = "1"
Out(x) == PrintT("OP " \o ToJson(x))

Codes == <<"A", "J", "Q">>
Seeds == Tup([k \in 1 .. 3 |-> [code |-> B(Codes[k]), seed |-> Rep(70 + k, 32)]])
T1 == B("\"1\"")
T2 == B("[\"1/2\",\"1/2\"]")
Known == 2
Open0 == [op |-> "kc.open", new |-> TRUE, seeds |-> Seeds, schemas |-> Known]
All0 == [op |-> "kc.all"]
MakeOp(c) == [op |-> "kc.make"] @@ [c EXCEPT !.code = B(@)]
SendOp(j, sigs) == [op |-> "kc.send", ev |-> j, sigs |-> sigs, hurt |-> << >>]
PresentOp(j, groups) == [op |-> "kc.present", ev |-> j, groups |-> groups, hurt |-> << >>]
ShowOp(j, k) == [op |-> "kc.show", ev |-> j, of |-> k, hurt |-> << >>]
\* two issuers, one with a key, one with two of which both are needed;  a registry each
A == [NoContent EXCEPT !.t = "icp", !.keys = <<1>>, !.kt = T1]
C == [NoContent EXCEPT !.t = "icp", !.keys = <<2, 3>>, !.kt = T2]
RA == [NoContent EXCEPT !.t = "vcp", !.by = 1]
RC == [NoContent EXCEPT !.t = "vcp", !.by = 2]
Own(w, j) == Tup([i \in 1 .. Len(w) |-> [key |-> w[i], index |-> i - 1, over |-> j]])
KeysOf(n) == IF n = 1 THEN <<1>> ELSE <<2, 3>>
RECURSIVE Begun(_, _, _)
Begun(cs, n, x) == IF n > Len(cs) THEN x
                   ELSE LET m == EnteredCred(x.made, cs[n])
                            s == Own(KeysOf(IF n <= 2 THEN n ELSE n - 2), n)
                        IN Begun(cs, n + 1, [made |-> m, as |-> AdmittedTold(x.as, m, n), hist |-> x.hist \o <<MakeOp(cs[n]), SendOp(n, s)>>, ok |-> x.ok /\ AdmitsTold(x.as, m, n, s)])
Start == Begun(<<A, C, RA, RC>>, 1, [made |-> << >>, as |-> NoCreds, hist |-> << >>, ok |-> TRUE])
Init == Assert(Start.ok, "start") /\ as = Start.as /\ made = Start.made /\ hist = Start.hist

Last == Len(made)
Max == IF Full THEN 10 ELSE 9
New(c) == /\ Last < Max
          /\ made' = EnteredCred(made, c)
          /\ \A k \in 1 .. Last : made[k].whole # made'[Last + 1].whole
          /\ hist' = Append(hist, MakeOp(c)) /\ UNCHANGED as
CredsIn == {j \in 1 .. Last : made[j].t = "cred"}
Told_ == {j \in 1 .. Last : made[j].t \in {"iss", "rev"}}
Cred1 == [NoContent EXCEPT !.t = "cred", !.by = 1, !.reg = 3, !.schema = 1, !.to = 2]
Cred2 == [NoContent EXCEPT !.t = "cred", !.by = 2, !.reg = 4, !.schema = 2, !.to = 1]
Creds == {Cred1, [Cred1 EXCEPT !.form = "said"]} \cup (IF Full THEN {Cred2} ELSE {})
         \cup {[Cred2 EXCEPT !.edges = <<[n |-> j, s |-> s]>>, !.to = 0] : j \in CredsIn, s \in 1 .. (IF Full THEN 2 ELSE 1)}
         \cup (IF Full THEN {[Cred1 EXCEPT !.edges = <<[n |-> j, s |-> 1]>>] : j \in CredsIn}
                            \cup {[Cred1 EXCEPT !.bad = b] : b \in {"subject", "said"}} \cup {[Cred1 EXCEPT !.reg = 4], [Cred1 EXCEPT !.schema = 3]} ELSE {[Cred1 EXCEPT !.bad = "said"]})
MakeCred == Cardinality(CredsIn) < (IF Full THEN 3 ELSE 2) /\ \E c \in Creds : New(c)
\* in a registry, mostly the one it names
MakeTold == \E j \in CredsIn : \E r \in (IF Full \/ Last = 5 THEN {3, 4} ELSE {made[j].reg}) :
            \/ New([NoContent EXCEPT !.t = "iss", !.reg = r, !.cred = j])
            \/ \E p \in {x \in Told_ : made[x].t = "iss"} : (Full \/ (made[p].reg = r /\ made[p].cred = j)) /\ New([NoContent EXCEPT !.t = "rev", !.reg = r, !.cred = j, !.prior = p])
\* either party signs anything
Trace1(ok, pick, op) == (ok \/ pick) => Out(<<Open0>> \o Append(hist, op) \o <<All0>>)
Mix(j, n) == (Len(hist) * 7 + j * 3 + n) % (IF Full THEN 97 ELSE 29) = 0
SendTold == \E j \in Told_ : \E w \in {<<1>>, <<2, 3>>, <<2>>} :
            LET s == Own(w, j)  ok == AdmitsTold(as, made, j, s) IN
            /\ ok => Assert(as.regs[RegistryAt(as, made[made[j].reg].said)].owner = made[IF w = <<1>> THEN 1 ELSE 2].said /\ w # <<2>>, <<"not the owner's word", j, w>>)
            /\ Trace1(ok /\ Mix(j, 0), Mix(j, Len(w)), SendOp(j, s))
            /\ ok /\ as' = AdmittedTold(as, made, j) /\ hist' = Append(hist, SendOp(j, s)) /\ UNCHANGED made
Parts == {<< >>, <<"d">>, <<"e", "e1", "n">>, <<"a">>}
Groups(j) == {<<[root |-> r, paths |-> <<[path |-> p, by |-> b, sigs |-> Tup([i \in 1 .. Len(w) |-> [key |-> w[i], index |-> i - 1, over |-> o, part |-> q]])]>>]>> :
                r \in {<< >>, <<"d">>}, p \in {<< >>, <<"d">>, <<"e", "e1", "n">>}, b \in {1, 2}, w \in {<<1>>, <<2, 3>>}, o \in CredsIn, q \in Parts}
\* who signed what, told apart from the rest
Meant(j, g) == LET q == g[1].paths[1] IN
    /\ made[q.by].said = made[made[j].by].said
    /\ [i \in 1 .. Len(q.sigs) |-> q.sigs[i].key] = KeysOf(made[j].by)
    /\ \A i \in 1 .. Len(q.sigs) : LET a == q.sigs[i] IN
         \/ made[a.over].said = made[j].said /\ a.part \in {<< >>, <<"d">>}
         \* an edge to it, signed on its own, is its identifier too
         \/ a.part = <<"e", "e1", "n">> /\ made[a.over].edges # << >> /\ made[made[a.over].edges[1].n].said = made[j].said
Present == \E j \in CredsIn : \E g \in Groups(j) :
           LET ok == AdmitsCred(as, made, j, g, Known)  q == g[1].paths[1] IN
           /\ ok => Assert(Meant(j, g) /\ Spoilt(made[j]) = "" /\ Issued(as, made[made[j].reg].said, made[j].said), <<"not the issuer's word", j, g>>)
           /\ Trace1(ok /\ Mix(j, Len(q.path) + 2 * Len(q.sigs[1].part)), (Len(hist) * 7 + 3 * Len(g[1].root) + 5 * Len(q.path) + 11 * q.by + 13 * Len(q.sigs) + 17 * q.sigs[1].over + 19 * Len(q.sigs[1].part) + 23 * j) % (IF Full THEN 1999 ELSE IF g[1].root # << >> /\ Len(g[1].root \o q.path) > 1 /\ made[q.by].said = made[made[j].by].said /\ q.sigs[1].over = j THEN 29 ELSE 197) = 0,
                     PresentOp(j, g))
           /\ ok /\ as' = AdmittedCred(as, made, j) /\ as' # as /\ hist' = Append(hist, PresentOp(j, g)) /\ UNCHANGED made
Show == \E j, k \in CredsIn :
        LET ok == AdmitsShown(as, made, j, k) IN
        /\ Trace1(FALSE, Mix(j, k), ShowOp(j, k))
        /\ ok /\ as' = AdmittedShown(as, made, j, k) /\ as' # as /\ hist' = Append(hist, ShowOp(j, k)) /\ UNCHANGED made
Next == MakeCred \/ MakeTold \/ SendTold \/ Present \/ Show
Spec == Init /\ [][Next]_vars

\* --------------------------------------------- what every history comes to
\* what stands was issued where its issuer keeps account, and so was all it rests on
Sound == \A i \in 1 .. Len(as.creds) : LET x == as.creds[i] IN
    /\ as.regs[RegistryAt(as, x.reg)].owner = x.by
    /\ Stands(as, x.said) => Issued(as, x.reg, x.said) /\ \A k \in RangeOf(x.nodes) : Stands(as, k) /\ CredAt(as, k) < i
    \* nothing rests on what was never accepted
    /\ \A k \in RangeOf(x.nodes) : CredAt(as, k) # 0
\* one word on each credential in each registry, and no way back from the second
OneWord == \A i, k \in 1 .. Len(as.tel) : (as.tel[i].reg = as.tel[k].reg /\ as.tel[i].cred = as.tel[k].cred) => i = k
Forward == [][\A i \in 1 .. Len(as.tel) : as'.tel[i].st >= as.tel[i].st /\ as'.tel[i].cred = as.tel[i].cred]_vars
\* what fell stays fallen
Fallen == [][\A i \in 1 .. Len(as.creds) : ~ Stands(as, as.creds[i].said) => ~ Stands(as', as.creds[i].said)]_vars
\* what is issued can be presented, and once revoked it cannot
Presentable == \A j \in CredsIn : (made[j].bad = "" /\ made[j].edges = << >> /\ made[j].schema <= Known /\ made[j].reg = made[j].by + 2) =>
    LET w == KeysOf(made[j].by)
        g == <<[root |-> << >>, paths |-> <<[path |-> <<"d">>, by |-> made[j].by, sigs |-> Tup([i \in 1 .. Len(w) |-> [key |-> w[i], index |-> i - 1, over |-> j, part |-> <<"d">>]])]>>]>>
    IN AdmitsCred(as, made, j, g, Known) <=> Issued(as, made[made[j].reg].said, made[j].said)
=============================================================================
