-------------------------------- MODULE Back --------------------------------
(***************************************************************************)
(* Key event logs backed by witnesses and by delegators: a validator that  *)
(* follows several identifiers at once.                                    *)
(*                                                                         *)
(* Content is as in Kel, and says besides                                  *)
(*   wits      the witnesses an inception names (numbers of keys)          *)
(*   cut, add  those a rotation lets go and takes on                       *)
(*   toad      how many must have signed                                   *)
(*   di        0, or the inception event of the delegator                  *)
(*   seals     numbers of the events this one approves                     *)
(* An event is sent with its own signatures, with receipts                 *)
(* [key, at, over, couple, named]: the signature of a witness at a         *)
(* position of the list, or with a key named beside it;  and with pointers to the    *)
(* events that approve it.                                                 *)
(***************************************************************************)
EXTENDS Kel

RangeOf(s) == {s[i] : i \in 1 .. Len(s)}
Distinct(s) == Cardinality(RangeOf(s)) = Len(s)
\* two events with the same content are one event
AlsoSays(made, c) == <<IF c.t \in Inceptions THEN c.wits ELSE << >>, IF c.t \in Establishing THEN c.toad ELSE 0,
                       IF c.t \in Rotations THEN c.cut ELSE << >>, IF c.t \in Rotations THEN c.add ELSE << >>,
                       IF c.t # "dip" \/ c.di = 0 THEN << >> ELSE made[c.di].pre, Tup([i \in 1 .. Len(c.seals) |-> made[c.seals[i]].id])>>
EnteredBacked(made, c) == Entered(made, [c EXCEPT !.tag = AlsoSays(made, c)])

NoBacked == [as |-> NoLog, wits |-> << >>, toad |-> 0, di |-> << >>]
\* logs: a sequence of these; which of them is the one for a prefix (0: none)
LogOf(logs, pre) == IF \E n \in 1 .. Len(logs) : logs[n].as.pre = pre THEN CHOOSE n \in 1 .. Len(logs) : logs[n].as.pre = pre ELSE 0
BackedOf(logs, pre) == IF LogOf(logs, pre) = 0 THEN NoBacked ELSE logs[LogOf(logs, pre)]

WitnessesFine(wits, c) ==
    CASE c.t \in Inceptions -> Distinct(c.wits)
      [] c.t \in Rotations -> Distinct(c.cut) /\ Distinct(c.add) /\ RangeOf(c.cut) \subseteq RangeOf(wits) /\ RangeOf(c.add) \cap RangeOf(wits) = {}
      [] OTHER -> TRUE
WitnessesAfter(wits, c) ==
    CASE c.t \in Inceptions -> c.wits
      [] c.t \in Rotations -> SelectSeq(wits, LAMBDA w : w \notin RangeOf(c.cut)) \o c.add
      [] OTHER -> wits
ToadFine(toad, n) == IF n = 0 THEN toad = 0 ELSE toad \in 1 .. n
\* which witnesses have signed
Backers(made, j, wits, rcts) ==
    {p \in 1 .. Len(wits) : \E i \in 1 .. Len(rcts) : /\ made[rcts[i].over].id = made[j].id
                                                     /\ rcts[i].key = wits[p]
                                                     /\ IF rcts[i].couple THEN rcts[i].named = wits[p] ELSE rcts[i].at = p - 1}
\* has the delegator's log an event, one of those pointed at, that approves this one
Approved(logs, made, j, di, points) ==
    LET d == BackedOf(logs, di).as.log IN
    \E i \in 1 .. Len(points) : LET n == made[points[i]].sn + 1 IN
        /\ n <= Len(d)
        /\ made[d[n]].id = made[points[i]].id
        /\ \E k \in RangeOf(made[d[n]].seals) : made[k].id = made[j].id
AdmitsBacked(logs, made, j, sigs, rcts, points) ==
    LET c == made[j]
        b == BackedOf(logs, c.pre)
        wits == WitnessesAfter(b.wits, c)
        toad == IF c.t \in Establishing THEN c.toad ELSE b.toad
    IN /\ Admits(b.as, made, j, sigs)
       /\ WitnessesFine(b.wits, c)
       /\ ToadFine(toad, Len(wits))
       /\ Cardinality(Backers(made, j, wits, rcts)) >= toad
       /\ CASE c.t = "dip" -> c.di # 0 /\ Approved(logs, made, j, made[c.di].pre, points)
            [] c.t = "rot" -> b.di = << >>
            [] c.t = "drt" -> b.di # << >> /\ Approved(logs, made, j, b.di, points)
            [] OTHER -> TRUE
AdmittedBacked(logs, made, j) ==
    LET c == made[j]
        n == LogOf(logs, c.pre)
        b == BackedOf(logs, c.pre)
        x == [as |-> Admitted(b.as, made, j), wits |-> WitnessesAfter(b.wits, c),
              toad |-> IF c.t \in Establishing THEN c.toad ELSE b.toad, di |-> IF c.t = "dip" THEN made[c.di].pre ELSE b.di]
    IN IF n = 0 THEN Append(logs, x) ELSE [logs EXCEPT ![n] = x]
=============================================================================
