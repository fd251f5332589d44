------------------------------ MODULE MC_Reader ------------------------------
(***************************************************************************)
(* A stream of items, one of its characters or bytes possibly replaced,    *)
(* delivered in pieces of any size to a reader that goes by what the       *)
(* parsers say about what it holds.                                        *)
(***************************************************************************)
EXTENDS Reader, Json, IOUtils
VARIABLES sent, hurt, stream, fed, rd, got, cuts, hist
vars == <<sent, hurt, stream, fed, rd, got, cuts, hist>>
Full == IOEnv.FULL = "1"
MaxCuts == IF Full THEN 3 ELSE 2
Line(o) == PrintT("OP " \o ToJson(o))
Pat(n) == Tup([i \in 1 .. n |-> (i * 37 + 11) % 256])
M(c, n) == [kind |-> "m", v |-> MatterFromRaw(c, Pat(n)).v]
N(n) == [kind |-> "Number", v |-> MatterFromRaw("M", Pat(n)).v]
X(c, n) == [kind |-> "Bexter", v |-> MatterFromRaw(c, Pat(n)).v]
I(n) == [kind |-> "i", v |-> IndexerFromRaw("0z", Pat(3 * n), n, <<n>>).v]
C(c, n) == [kind |-> "c", v |-> CounterNew(c, n).v]
Pool == {M("M", 2), M("2AAA", 2), M("5A", 2), M("7AAA", 3), I(1), C("-A", 0), C("-0V", 1), X("6A", 1)}
        \cup IF Full THEN {M("0H", 4), M("3AAA", 1), M("9AAB", 1), M("4B", 0), C("--AAA", 77), N(2), I(0)} ELSE {}
Guided == {<<C("-A", 1), I(1)>>, <<C("-C", 1), M("M", 2), M("4B", 3)>>, <<C("-V", 9), M("5B", 2)>>, <<C("-H", 1), M("0H", 4), C("-A", 1), I(1)>>}
Streams == {[auto |-> FALSE, items |-> <<a>>] : a \in Pool} \cup {[auto |-> FALSE, items |-> <<a, b>>] : a \in Pool, b \in Pool}
           \cup {[auto |-> TRUE, items |-> q] : q \in Guided}
Vias == {"qb64", "qb2"} \cup (IF Full THEN {"qb64b"} ELSE {})
Kinds(s) == IF s.auto THEN << >> ELSE Tup([i \in 1 .. Len(s.items) |-> s.items[i].kind])
Form(via, it) == ItemForm(via, Family(it.kind), it.v)
Flow(via, items) == Cat(Tup([i \in 1 .. Len(items) |-> Form(via, items[i])]))
Wrongs(via, x) == (IF via = "qb2" THEN {0, (x + 1) % 256} ELSE {48, 65, 33}) \ {x}
Put(s, p, x) == Take(s, p - 1) \o <<x>> \o Drop(s, p)
Init == \E s \in Streams, via \in Vias :
        LET flow == Flow(via, s.items) IN
        /\ sent = s.items /\ fed = 0 /\ got = << >>
        /\ \/ hurt = 0 /\ stream = flow /\ cuts \in {0, 99}
           \/ \E p \in 1 .. Len(flow) : \E x \in Wrongs(via, flow[p]) : hurt = p /\ stream = Put(flow, p, x) /\ cuts \in {MaxCuts - 1, 99}
        /\ rd = [via |-> via, auto |-> s.auto, ctx |-> Kinds(s), buf |-> << >>, state |-> "open"]
        /\ hist = <<[op |-> "rd.open", new |-> TRUE, via |-> via, auto |-> s.auto, kinds |-> Kinds(s)]>>
\* cuts = 99: one at a time; otherwise the number of cuts made so far
Deliver == /\ fed < Len(stream) /\ rd.state # "unsure"
           /\ \E k \in 1 .. Len(stream) - fed :
                /\ IF cuts = 99 THEN k = 1 ELSE cuts < MaxCuts \/ k = Len(stream) - fed
                /\ LET x == SubSeq(stream, fed + 1, fed + k)  y == Feed(rd, x)
                   IN /\ rd' = y.s /\ got' = got \o y.got
                      /\ hist' = Append(hist, [op |-> "rd.feed", in |-> x])
                /\ fed' = fed + k /\ cuts' = (IF cuts = 99 THEN 99 ELSE cuts + 1)
           /\ (fed' = Len(stream) => Line(hist'))
           /\ UNCHANGED <<sent, hurt, stream>>
Decide == /\ rd.state = "unsure" /\ \E z \in {"open", "dropped"} : rd' = [rd EXCEPT !.state = z]
          /\ UNCHANGED <<sent, hurt, stream, fed, got, cuts, hist>>
Next == Deliver \/ Decide
Spec == Init /\ [][Next]_vars

\* how many of the items sent lie wholly within the first n characters or bytes
RECURSIVE Within(_, _, _)
Within(items, n, i) == IF i > Len(items) THEN i - 1
                       ELSE LET w == Len(Form(rd.via, items[i])) IN IF w > n THEN i - 1 ELSE Within(items, n - w, i + 1)
Plain(its) == Tup([i \in 1 .. Len(its) |-> AsItem(its[i].kind, its[i].v)])
\* undamaged: whatever the pieces, exactly what has arrived has been read, and the rest is waited for
Exact == hurt = 0 => LET n == Within(sent, fed, 1) IN
         /\ rd.state = "open" /\ got = Plain(Take(sent, n))
         /\ rd.buf = SubSeq(stream, Len(Flow(rd.via, Take(sent, n))) + 1, fed)
\* damaged: what lies before the damage is read all the same
Before == hurt > 0 => LET n == Within(sent, MinOf(fed, hurt - 1), 1) IN Len(got) >= n /\ Take(got, n) = Plain(Take(sent, n))
\* nobody waits for what is there
Stated(fam, t) == CASE fam = "m" -> LET h == MatterHead(t) IN IF IsOk(h) THEN h.v.fs ELSE 0
                    [] fam = "i" -> LET h == IndexerHead(t) IN IF IsOk(h) THEN h.v.fs ELSE 0
                    [] fam = "c" -> LET h == CounterParseText(t) IN IF IsOk(h) THEN CounterFull(h.v) ELSE 0
Waiting == rd.state = "open" /\ rd.buf # << >> /\ (rd.ctx # << >> \/ rd.auto)
Chars(via, b) == IF via = "qb2" THEN Take(B64Enc(b \o Zeros((3 - (Len(b) % 3)) % 3)), (8 * Len(b)) \div 6) ELSE b
NotStalled == Waiting => LET t == Chars(rd.via, rd.buf)
                             fam == Family(IF rd.ctx # << >> THEN rd.ctx[1] ELSE IF Announces(rd.via, rd.buf) THEN "c" ELSE "m")
                             n == Stated(fam, t)
                         IN n = 0 \/ Len(t) < n
\* every parser says one thing: an item, the beginning of one, or that it is neither
Told == Waiting \/ rd.state = "dropped" \/ rd.state = "unsure" \/ rd.buf = << >> \/ (rd.ctx = << >> /\ ~ rd.auto)
=============================================================================
