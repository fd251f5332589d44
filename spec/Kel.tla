--------------------------------- MODULE Kel ---------------------------------
(***************************************************************************)
(* A key event log: what a validator may admit.                            *)
(*                                                                         *)
(* The protocol level.  Keys are numbers; the content of an event names    *)
(* other events by the order in which they were made:                      *)
(*   [t, code, i, sn, prior, keys, fix, kt, next, nt, tag]                 *)
(*   t      "icp" "dip" "rot" "drt" "ixn"                                  *)
(*   code   of the prefix an inception derives;  i  0: that one, or j: the *)
(*          prefix event j speaks for                                      *)
(*   prior  0: none, or j: the identifier of event j                       *)
(*   keys, next  numbers of keys, now and committed to;  fix: the keys are *)
(*          labelled non-transferable                                      *)
(*   kt, nt thresholds, as JSON text;  tag  0, or some anchored content    *)
(* An event is sent with signatures [key, index, ondex, only, over], over  *)
(* being the number of the event that was signed.                          *)
(***************************************************************************)
EXTENDS Threshold, Sign

Inceptions == {"icp", "dip"}
Rotations == {"rot", "drt"}
Establishing == Inceptions \cup Rotations
SelfAddressing(c) == c.code \in DigestCodes

\* ------------------------------------------------- what is the same as what
\* An event, once made, also carries what it comes to:
\*   norm  its content, whatever numbers it uses to say it
\*   id    the first event made with that content
\*   pre   the prefix it speaks for: a key, or the inception it digests
PrefixId(made, j) == made[j].pre
CanonOf(made, j) == made[j].id
Entered(made, c) ==
    LET j == Len(made) + 1
        own == c.i = 0 /\ SelfAddressing(c)
        key == <<"k", c.keys[1], c.fix>>
        i == IF c.i # 0 THEN made[c.i].pre ELSE IF own THEN <<"own", c.code>> ELSE key
        e == IF c.t \in Establishing THEN <<c.keys, c.fix, c.kt, c.next, c.nt>> ELSE << >>
        norm == <<c.t, i, c.sn, IF c.prior = 0 \/ c.t \in Inceptions THEN 0 ELSE made[c.prior].id, e, c.tag>>
        same == {k \in 1 .. Len(made) : made[k].norm = norm}
        id == IF same = {} THEN j ELSE CHOOSE k \in same : \A m \in same : k <= m
    IN Append(made, c @@ [norm |-> norm, id |-> id, pre |-> IF c.i # 0 THEN made[c.i].pre ELSE IF own THEN <<"e", id>> ELSE key])

\* --------------------------------------------------------------- admission
Thr(text) == FromSith(JParse(text).v)
ThrFits(text, n) == LET t == Thr(text) IN IsOk(t) /\ Listed(t.v) <= n
\* log: numbers of the admitted events;  keys, fix, kt, next, nt, sn, last: what they come to
NoLog == [log |-> << >>, pre |-> << >>, keys |-> << >>, fix |-> FALSE, kt |-> << >>, next |-> << >>, nt |-> << >>, sn |-> 0, last |-> 0]
SigsOn(made, j, keys, sigs) == {i \in 1 .. Len(sigs) : /\ sigs[i].index < Len(keys)
                                                      /\ keys[sigs[i].index + 1] = sigs[i].key
                                                      /\ CanonOf(made, sigs[i].over) = CanonOf(made, j)}
\* a signature's place among the keys committed to
Also(s) == IF s.ondex = << >> THEN s.index ELSE s.ondex[1]
Exposes(as, c, s) == /\ ~ s.only /\ Also(s) < Len(as.next) /\ ~ c.fix
                     /\ as.next[Also(s) + 1] = c.keys[s.index + 1]
Quorum(kt, S) == LET t == Thr(kt) IN IsOk(t) /\ Satisfied(t.v, S)
Admits(as, made, j, sigs) ==
    LET c == made[j]
        est == c.t \in Establishing
        keys == IF est THEN c.keys ELSE as.keys
        kt == IF est THEN c.kt ELSE as.kt
        good == SigsOn(made, j, keys, sigs)
    IN
    /\ IF c.t \in Inceptions
       THEN /\ as.log = << >>
            /\ c.sn = 0
            /\ c.i # 0 => PrefixId(made, j) = <<"k", c.keys[1], c.fix>> /\ Len(c.keys) = 1 /\ (c.fix => c.next = << >>)
       ELSE /\ as.log # << >>
            /\ PrefixId(made, j) = as.pre
            /\ c.sn = as.sn + 1
            /\ c.prior # 0 /\ CanonOf(made, c.prior) = as.last
            /\ as.next # << >>
    /\ keys # << >>
    /\ est => ThrFits(kt, Len(keys)) /\ (c.next # << >> => ThrFits(c.nt, Len(c.next)))
    /\ Quorum(kt, {sigs[i].index : i \in good})
    /\ c.t \in Rotations => Quorum(as.nt, {Also(sigs[i]) : i \in {g \in good : Exposes(as, c, sigs[g])}})
Admitted(as, made, j) ==
    LET c == made[j]
        b == [as EXCEPT !.log = Append(@, j), !.pre = PrefixId(made, j), !.sn = c.sn, !.last = CanonOf(made, j)]
    IN IF c.t \in Establishing THEN [b EXCEPT !.keys = c.keys, !.fix = c.fix, !.kt = c.kt, !.next = c.next, !.nt = c.nt] ELSE b
\* can this content be made at all: the prefix must be derivable.  kcode(k, fix): the label of key k
Makeable(c, kcode(_, _)) ==
    (c.t \in Inceptions /\ c.i = 0) =>
        \/ SelfAddressing(c)
        \/ /\ Len(c.keys) = 1 /\ kcode(c.keys[1], c.fix) = c.code
           /\ c.fix => c.next = << >> /\ c.tag = 0
=============================================================================
