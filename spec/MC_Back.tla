------------------------------- MODULE MC_Back -------------------------------
(* Whoever signs what and points where: what a validator admits was signed by  *)
(* enough of the witnesses in force, and, for a delegated identifier, approved *)
(* in its delegator's own log.                                                 *)
EXTENDS T_Back, Json, IOUtils
VARIABLES mode, logs, made, hist
vars == <<mode, logs, made, hist>>
View == <<mode, logs, made>>
Full == IOEnv.FULL = "1"
Out(x) == PrintT("OP " \o ToJson(x))

Codes == <<"A", "J", "A", "Q", "A", "J", "Q">>
Seeds == Tup([k \in 1 .. 7 |-> [code |-> B(Codes[k]), seed |-> Rep(60 + k, 32)]])
T1 == B("\"1\"")
Base == [t |-> "icp", code |-> "E", i |-> 0, sn |-> 0, prior |-> 0, keys |-> << >>, fix |-> FALSE, kt |-> T1, next |-> << >>, nt |-> T1,
         wits |-> << >>, cut |-> << >>, add |-> << >>, toad |-> 0, di |-> 0, seals |-> << >>, tag |-> 0]
Open0 == [op |-> "kw.open", new |-> TRUE, seeds |-> Seeds]
All0 == [op |-> "kw.all"]
MakeOp(c) == [op |-> "kw.make", t |-> c.t, code |-> B(c.code), i |-> c.i, sn |-> c.sn, prior |-> c.prior, keys |-> c.keys, fix |-> c.fix, kt |-> c.kt, next |-> c.next, nt |-> c.nt,
              wits |-> c.wits, cut |-> c.cut, add |-> c.add, toad |-> c.toad, di |-> c.di, seals |-> c.seals]
Orders == <<<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>, <<3, 2, 1>>>>
SendOp(j, sigs, rcts, points) == [op |-> "kw.send", ev |-> j, sigs |-> sigs, rcts |-> rcts, points |-> points, order |-> Orders[(j % 4) + 1], hurt |-> << >>]
Own(keys, j) == Tup([p \in 1 .. Len(keys) |-> [key |-> keys[p], index |-> p - 1, ondex |-> << >>, only |-> FALSE, over |-> j]])
\* the log of the identifier event j speaks for
Now(m, j) == BackedOf(logs, m[j].pre)
KeysOf(m, j) == IF m[j].t = "ixn" THEN Now(m, j).as.keys ELSE m[j].keys

\* ----------------------------------------------------------------- witnesses
Wit == {5, 6, 7}
Icps == {[Base EXCEPT !.keys = <<1>>, !.next = <<2>>, !.wits = w, !.toad = n] : w \in {<< >>, <<5>>, <<6, 5>>, <<5, 5>>} \cup (IF Full THEN {<<5, 6, 7>>} ELSE {}), n \in 0 .. 2}
Last == Len(made)
Later == {[Base EXCEPT !.t = "rot", !.i = 1, !.sn = Last, !.prior = Last, !.keys = <<2>>, !.next = <<2>>, !.cut = x, !.add = a, !.toad = n] :
             x \in {<< >>, <<5>>, <<6>>, <<5, 5>>} \cup (IF Full THEN {<<5, 6>>, <<7>>} ELSE {}), a \in {<< >>, <<7>>, <<5>>, <<7, 7>>} \cup (IF Full THEN {<<7, 6>>} ELSE {}), n \in 0 .. 2}
         \cup {[Base EXCEPT !.t = "ixn", !.i = 1, !.sn = Last, !.prior = Last]}
Rct(w, at, couple, over) == [key |-> w, at |-> at, couple |-> couple, over |-> over, named |-> w]
\* receipts worth a try: someone in the list, or the one who is not
Rcts(j) == {Rct(w, at, FALSE, o) : w \in Wit, at \in 0 .. 1, o \in {j}} \cup {Rct(w, 0, TRUE, j) : w \in Wit} \cup {[Rct(5, 0, TRUE, j) EXCEPT !.named = 6]}
           \cup (IF j > 1 THEN {Rct(w, 0, TRUE, j - 1) : w \in {5, 7}} ELSE {})
Sets(j) == {<< >>} \cup {<<r>> : r \in Rcts(j)} \cup {<<r, q>> : r \in {x \in Rcts(j) : x.couple \/ x.at = 0}, q \in Rcts(j)}
Some(q) == IF q = << >> THEN 0 ELSE Head(q).key + 3 * Head(q).at + (IF Head(q).couple THEN 2 ELSE 0) + 5 * Head(q).over
Pick(c, rcts, ok) == (Some(rcts) + 3 * (IF Len(rcts) = 2 THEN Some(Tail(rcts)) ELSE 1) + 7 * c.toad + 11 * Len(c.cut) + 13 * Len(c.add) + 5 * Len(c.wits)) % (IF ok THEN 7 ELSE 97) = 0
\* the list in force after event j, told from the contents alone
RECURSIVE Force(_, _)
Force(m, j) == IF j = 1 THEN RangeOf(m[1].wits) ELSE (Force(m, j - 1) \ RangeOf(m[j].cut)) \cup RangeOf(m[j].add)
RECURSIVE ToadAt(_, _)
ToadAt(m, j) == IF m[j].t = "ixn" THEN ToadAt(m, j - 1) ELSE m[j].toad
Witnessed(m, j, rcts) == Cardinality({rcts[i].key : i \in {k \in 1 .. Len(rcts) : rcts[k].over = j /\ rcts[k].named = rcts[k].key}} \cap Force(m, j)) >= ToadAt(m, j)
TryWit(c, rcts) ==
    LET m == EnteredBacked(made, c)
        j == Len(m)
        sigs == Own(KeysOf(m, j), j)
        ok == AdmitsBacked(logs, m, j, sigs, rcts, << >>)
        h == hist \o <<MakeOp(c), SendOp(j, sigs, rcts, << >>)>>
    IN /\ Pick(c, rcts, ok) => Out(<<Open0>> \o h \o <<All0>>)
       /\ ok => Assert(Witnessed(m, j, rcts), <<"not witnessed", m, rcts>>)
       /\ ok
       /\ logs' = AdmittedBacked(logs, m, j) /\ made' = m /\ hist' = h /\ UNCHANGED mode
WitNext == /\ mode = "wit" /\ Last < (IF Full THEN 3 ELSE 2)
           /\ \E c \in (IF made = << >> THEN Icps ELSE Later) : \E r \in Sets(Last + 1) : TryWit(c, r)

\* ---------------------------------------------------------------- delegation
\* event 1 is the delegator's; the delegate's are made, approved (or not) and sent in any order
Dgt == [Base EXCEPT !.keys = <<3>>, !.next = <<4>>]
Dips == {[Base EXCEPT !.t = "dip", !.di = 1, !.keys = <<1>>, !.next = n] : n \in {<<2>>, <<1>>}} \cup {[Base EXCEPT !.t = "icp", !.keys = <<1>>, !.next = <<2>>]}
Firsts == {j \in 1 .. Last : made[j].t = "dip" \/ (made[j].t = "icp" /\ j > 1)}
Heads == {j \in 2 .. Last : made[j].pre # made[1].pre}
Follows == UNION {{[Base EXCEPT !.t = t, !.i = j, !.sn = made[j].sn + 1, !.prior = j, !.keys = IF t = "ixn" THEN << >> ELSE <<2>>, !.next = IF t = "ixn" THEN << >> ELSE <<1>>, !.kt = T1, !.nt = T1] : t \in {"drt", "rot"} \cup (IF Full THEN {"ixn"} ELSE {})} : j \in Heads}
DgtLast == LET l == BackedOf(logs, made[1].pre).as.log IN l[Len(l)]
Approvals == {[Base EXCEPT !.t = "ixn", !.i = 1, !.sn = made[DgtLast].sn + 1, !.prior = DgtLast, !.seals = s] : s \in {<<j>> : j \in Heads} \cup (IF Full THEN {<<j, k>> : j, k \in Heads} ELSE {})}
             \cup {[Base EXCEPT !.t = "rot", !.i = 1, !.sn = 1, !.prior = 1, !.keys = <<4>>, !.next = <<3>>, !.seals = <<j>>] : j \in {x \in Heads : DgtLast = 1}}
MaxMade == IF Full THEN 6 ELSE 5
Dgting == mode = "dgt" /\ Len(hist) < 12
MakeDgt == /\ Dgting /\ Last < MaxMade
           /\ \E c \in Dips \cup Follows : made' = EnteredBacked(made, c) /\ made'[Len(made')].id = Len(made') /\ hist' = Append(hist, MakeOp(c))
           /\ UNCHANGED <<mode, logs>>
ApproveDgt == /\ Dgting /\ Last < MaxMade
              /\ \E c \in Approvals : LET m == EnteredBacked(made, c)
                                          j == Len(m)
                                          sigs == Own(KeysOf(m, j), j)
                                      IN /\ made' = m /\ hist' = hist \o <<MakeOp(c), SendOp(j, sigs, << >>, << >>)>>
                                         /\ AdmitsBacked(logs, m, j, sigs, << >>, << >>)
                                         /\ logs' = AdmittedBacked(logs, m, j)
              /\ UNCHANGED mode
SendDgt == /\ Dgting
           /\ \E j \in Heads : \E p \in {<< >>} \cup {<<k>> : k \in 1 .. Last} :
                LET sigs == Own(KeysOf(made, j), j)
                    ok == AdmitsBacked(logs, made, j, sigs, << >>, p)
                    h == Append(hist, SendOp(j, sigs, << >>, p))
                IN /\ (ok \/ (3 * j + 5 * Len(p) + Last + Len(hist) + (IF p = << >> THEN 0 ELSE 7 * p[1])) % 41 = 0) => Out(<<Open0>> \o h \o <<All0>>)
                   /\ ok
                   /\ logs' = AdmittedBacked(logs, made, j) /\ hist' = h /\ UNCHANGED <<mode, made>>

InitDgt == LET m == EnteredBacked(<< >>, Dgt)  s == Own(<<3>>, 1) IN
           made = m /\ logs = AdmittedBacked(<< >>, m, 1) /\ hist = <<MakeOp(Dgt), SendOp(1, s, << >>, << >>)>>
Init == \/ mode = "wit" /\ logs = << >> /\ made = << >> /\ hist = << >>
        \/ mode = "dgt" /\ InitDgt
Next == WitNext \/ MakeDgt \/ ApproveDgt \/ SendDgt
Spec == Init /\ [][Next]_vars

\* --------------------------------------------- what every history comes to
Logged(n) == logs[n].as.log
\* a list of witnesses names nobody twice, and can make its number
Listable == \A n \in 1 .. Len(logs) : Distinct(logs[n].wits) /\ ToadFine(logs[n].toad, Len(logs[n].wits))
InForce == mode = "wit" /\ made # << >> => RangeOf(logs[1].wits) = Force(made, Last) /\ logs[1].toad = ToadAt(made, Last)
\* whatever a delegated identifier's keys became, the delegator's log said so by then
Sanctioned == mode = "dgt" => \A n \in 2 .. Len(logs) : \A i \in 1 .. Len(Logged(n)) :
    LET c == made[Logged(n)[i]]
        delegated == made[Logged(n)[1]].t = "dip"
    IN /\ (c.t \in {"dip", "drt"}) => delegated /\ \E k \in RangeOf(Logged(1)) : Logged(n)[i] \in RangeOf(made[k].seals)
       /\ delegated => c.t # "rot" /\ c.t # "icp"
       /\ c.sn = i - 1
\* when everyone signs, the log goes on
GoesOn == mode = "wit" /\ made # << >> =>
    LET x == [Base EXCEPT !.t = "ixn", !.i = 1, !.sn = Last, !.prior = Last]
        m == EnteredBacked(made, x)
        j == Last + 1
        w == logs[1].wits
        full == Tup([p \in 1 .. Len(w) |-> Rct(w[p], p - 1, p % 2 = 0, j)])
    IN /\ AdmitsBacked(logs, m, j, Own(logs[1].as.keys, j), full, << >>)
       /\ logs[1].toad > 0 => ~ AdmitsBacked(logs, m, j, Own(logs[1].as.keys, j), SubSeq(full, 1, logs[1].toad - 1), << >>)
=============================================================================
