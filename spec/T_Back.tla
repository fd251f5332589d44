------------------------------- MODULE T_Back -------------------------------
(* The same logs, byte for byte: receipts and pointers travel behind the     *)
(* event and its signatures, in groups each with its count:                  *)
(*   -A  its own signatures       -B  witnesses', by position                *)
(*   -C  witnesses', each after its key     -G  number and identifier of an  *)
(*                                              approving event              *)
EXTENDS Back, T_Kel

LBT == B("bt")  LBR == B("br")  LBA == B("ba")  LDI == B("di")
\* ------------------------------------------------------------------- writing
WitText(seeds, k) == KeyText(seeds, k, TRUE)
SealDoc(texts, snOf(_), j) == JObj(<<JF(LI, JStr(texts[j].pre)), JF(B("s"), JStr(HexInt(snOf(j)))), JF(LD, JStr(texts[j].said))>>)
BackedDoc(c, seeds, made, texts) ==
    LET pre == IF c.i = 0 THEN << >> ELSE texts[c.i].pre
        d == EventDoc([c EXCEPT !.tag = 0], seeds, pre, IF c.prior = 0 THEN << >> ELSE texts[c.prior].said)
        a == JArr(Tup([i \in 1 .. Len(c.seals) |-> SealDoc(texts, LAMBDA j : made[j].sn, c.seals[i])]))
        Wits(ks) == TextList(Tup([i \in 1 .. Len(ks) |-> WitText(seeds, ks[i])]))
        Laid(f) == CASE f.k = LA -> <<JF(LA, a)>> \o (IF c.t = "dip" THEN <<JF(LDI, JStr(IF c.di = 0 THEN << >> ELSE texts[c.di].pre))>> ELSE << >>)
                    [] f.k = LBT -> <<JF(LBT, JStr(HexInt(c.toad)))>>
                    [] f.k = LB -> IF c.t \in Inceptions THEN <<JF(LB, Wits(c.wits))>> ELSE <<JF(LBR, Wits(c.cut)), JF(LBA, Wits(c.add))>>
                    \* only inceptions carry configuration
                    [] f.k = B("c") /\ c.t \in Rotations -> << >>
                    [] OTHER -> <<f>>
    IN JObj(Cat(Tup([i \in 1 .. Len(d.o) |-> Laid(d.o[i])])))
WrittenBacked(c, seeds, made, texts) == WrittenFrom(BackedDoc(c, seeds, made, texts), c.i = 0 /\ c.t \in Inceptions, c.code)

\* ------------------------------------------------------------------- reading
RECURSIVE CouplesAt(_, _, _, _, _)
CouplesAt(t, u, b, n, acc) ==
    IF n = 0 THEN Ok([list |-> acc, rest |-> b])
    ELSE LET x == TypedParse(t, "qb64b", b) IN
         IF ~ IsOk(x) THEN Err
         ELSE LET r == Drop(b, Len(MatterText(x.v)))
                  y == TypedParse(u, "qb64b", r)
              IN IF IsOk(y) THEN CouplesAt(t, u, Drop(r, Len(MatterText(y.v))), n - 1, Append(acc, <<x.v, y.v>>)) ELSE Err
NoneAttached == [idx |-> << >>, couples |-> << >>, points |-> << >>, rest |-> << >>]
RECURSIVE AttachedAt(_, _)
AttachedAt(b, acc) ==
    IF b = << >> \/ b[1] # 45 THEN Ok([acc EXCEPT !.rest = b])
    ELSE LET c == CounterParse("qb64b", b)
             r == IF IsOk(c) THEN Drop(b, Len(CounterText(c.v))) ELSE << >>
         IN IF ~ IsOk(c) THEN Err
            ELSE CASE c.v.code = "-B" -> LET g == SigsAt(r, c.v.count, << >>) IN
                                         IF IsOk(g) THEN AttachedAt(g.v.rest, [acc EXCEPT !.idx = @ \o g.v.sigs]) ELSE Err
                   [] c.v.code = "-C" -> LET g == CouplesAt("Verfer", "Cigar", r, c.v.count, << >>) IN
                                         IF IsOk(g) THEN AttachedAt(g.v.rest, [acc EXCEPT !.couples = @ \o g.v.list]) ELSE Err
                   [] c.v.code = "-G" -> LET g == CouplesAt("Seqner", "Saider", r, c.v.count, << >>) IN
                                         IF IsOk(g) THEN AttachedAt(g.v.rest, [acc EXCEPT !.points = @ \o g.v.list]) ELSE Err
                   [] OTHER -> Err
\* log: [ks, wits, toad, di, chain];  chain: the identifier of each event, and what it approves
NoBackedState == [ks |-> NoState, wits |-> << >>, toad |-> << >>, di |-> << >>, chain |-> << >>]
StateOf(logs, pre) == IF \E n \in 1 .. Len(logs) : logs[n].ks.pre = pre THEN CHOOSE n \in 1 .. Len(logs) : logs[n].ks.pre = pre ELSE 0
Texts(r) == Tup([i \in 1 .. Len(r.v) |-> MatterText(r.v[i])])
Fixed == {"B", "1AAA", "1AAI"}
SealsIn(v) == IF ~ HasField(v, LA) \/ ~ IsArr(FieldOf(v, LA)) THEN {}
              ELSE LET a == FieldOf(v, LA).a IN
                   {<<StrOf(a[i], LI).v, StrOf(a[i], B("s")).v, StrOf(a[i], LD).v>> :
                        i \in {k \in 1 .. Len(a) : IsObj(a[k]) /\ IsOk(StrOf(a[k], LI)) /\ IsOk(StrOf(a[k], B("s"))) /\ IsOk(StrOf(a[k], LD))}}
\* the logs after the message, or Err
Backing(logs, m, att) ==
    LET v == m.ked
        t == StrOf(v, LT)  i == StrOf(v, LI)
        pre == IF IsOk(i) THEN i.v ELSE << >>
        n == StateOf(logs, pre)
        b == IF n = 0 THEN NoBackedState ELSE logs[n]
        ks == Admission(b.ks, m)
        inc == IsOk(t) /\ t.v \in {B("icp"), B("dip")}
        rot == IsOk(t) /\ t.v \in {B("rot"), B("drt")}
        here == Mats(v, LB, "Verfer")  gone == Mats(v, LBR, "Verfer")  new == Mats(v, LBA, "Verfer")
        bt == StrOf(v, LBT)
        toad == IF ~ inc /\ ~ rot THEN Ok(b.toad) ELSE IF IsOk(bt) THEN Map(NumVal, NumberOfHex(bt.v)) ELSE Err
        readable == IF inc THEN IsOk(here) ELSE IF rot THEN IsOk(gone) /\ IsOk(new) ELSE TRUE
        wits == IF ~ readable THEN << >>
                ELSE IF inc THEN Texts(here)
                ELSE IF rot THEN SelectSeq(b.wits, LAMBDA w : w \notin RangeOf(Texts(gone))) \o Texts(new)
                ELSE b.wits
        fine == CASE inc -> Distinct(wits)
                  [] rot -> Distinct(Texts(gone)) /\ Distinct(Texts(new)) /\ RangeOf(Texts(gone)) \subseteq RangeOf(b.wits) /\ RangeOf(Texts(new)) \cap RangeOf(b.wits) = {}
                  [] OTHER -> TRUE
        Key(p) == TypedParse("Verfer", "qb64", wits[p]).v
        backers == {p \in 1 .. Len(wits) :
                      \/ \E g \in RangeOf(att.idx) : g.index = p - 1 /\ Verifies(Key(p), g.raw, m.raw)
                      \/ \E g \in RangeOf(att.couples) : MatterText(g[1]) = wits[p] /\ Verifies(g[1], g[2].raw, m.raw)}
        Approval(di) == LET d == StateOf(logs, di) IN
                        d # 0 /\ \E g \in RangeOf(att.points) :
                                    LET at == BnAdd(BnStrip(g[1].raw), <<1>>) IN
                                    /\ BnSmall(at) /\ BnInt(at) <= Len(logs[d].chain)
                                    /\ logs[d].chain[BnInt(at)].said = MatterText(g[2])
                                    /\ <<pre, StrOf(v, B("s")).v, m.said>> \in logs[d].chain[BnInt(at)].seals
        di == IF t = Ok(B("dip")) THEN StrOf(v, LDI) ELSE Ok(b.di)
        after == [ks |-> ks.v, wits |-> wits, toad |-> toad.v, di |-> di.v, chain |-> Append(b.chain, [said |-> m.said, seals |-> SealsIn(v)])]
    IN IF /\ IsOk(ks)
          /\ readable /\ fine
          /\ \A p \in 1 .. Len(wits) : Key(p).code \in Fixed
          /\ IsOk(toad) /\ IF wits = << >> THEN toad.v = << >> ELSE toad.v # << >> /\ BnSmall(toad.v) /\ BnInt(toad.v) <= Len(wits)
          /\ Cardinality(backers) >= BnInt(toad.v)
          /\ IsOk(di)
          /\ CASE t.v = B("dip") -> di.v # << >> /\ Approval(di.v)
               [] t.v = B("drt") -> di.v # << >> /\ Approval(di.v)
               [] t.v = B("rot") -> di.v = << >>
               [] OTHER -> TRUE
       THEN Ok(IF n = 0 THEN Append(logs, after) ELSE [logs EXCEPT ![n] = after])
       ELSE Err
BackedMessage(logs, b) ==
    LET m == Message(b)
        att == IF IsOk(m) THEN AttachedAt(m.v.rest, NoneAttached) ELSE Err
    IN IF ~ IsOk(att) THEN Err
       ELSE LET a == Backing(logs, m.v, att.v) IN IF IsOk(a) THEN Ok([logs |-> a.v, rest |-> att.v.rest]) ELSE Err
RECURSIVE Followed(_, _)
Followed(logs, b) == IF b = << >> THEN Ok(logs)
                     ELSE LET a == BackedMessage(logs, b) IN IF IsOk(a) THEN Followed(a.v.logs, a.v.rest) ELSE Err
BsObs(b) == KsObs(b.ks) @@ [wits |-> b.wits, toad |-> b.toad, di |-> b.di]
AllObs(logs) == Tup([i \in 1 .. Len(logs) |-> BsObs(logs[i])])

\* ------------------------------------------------------------------ sessions
KwSession == {"kw.open", "kw.make", "kw.send", "kw.all"}
BackedContent(e) == Content(e @@ [tag |-> 0]) @@ [wits |-> e.wits, cut |-> e.cut, add |-> e.add, toad |-> e.toad, di |-> e.di, seals |-> e.seals]
\* the recorded receipts, against what was asked for
ReceiptIs(s, a, g) ==
    LET key == VerferOf([code |-> Str(s.seeds[a.key].code), size |-> 0, raw |-> s.seeds[a.key].seed], FALSE)
        x == TypedParse("Siger", "qb64", g)
        w == WitText(s.seeds, a.named)
        y == TypedParse("Cigar", "qb64", Drop(g, Len(w)))
        c == CigarCode(Str(s.seeds[a.key].code))
    IN IF a.couple THEN /\ StartsWith(g, w) /\ IsOk(y) /\ MatterText(y.v) = Drop(g, Len(w)) /\ y.v.code = c /\ Verifies(key, y.v.raw, s.texts[a.over].raw)
       ELSE /\ IsOk(x) /\ IndexerText(x.v) = g /\ x.v.index = a.at /\ Verifies(key, x.v.raw, s.texts[a.over].raw)
            /\ x.v.code = SignAt(Str(s.seeds[a.key].code), TRUE, a.at, << >>).v.code
AttGroup(code, list) == IF list = << >> THEN << >> ELSE CounterText(CounterNew(code, Len(list)).v) \o Cat(list)
PointText(s, j) == MatterText(SeqnerOf(BnOfInt(s.made[j].sn)).v) \o s.texts[j].said
KwSend(e, s) ==
    LET raw == s.texts[e.ev].raw
        r == e.r.v
        Which(b) == SelectSeq(Tup([i \in 1 .. Len(e.rcts) |-> i]), LAMBDA i : e.rcts[i].couple = b)
        Take1(q) == Tup([i \in 1 .. Len(q) |-> r.rcts[q[i]]])
        groups == <<AttGroup("-B", Take1(Which(FALSE))), AttGroup("-C", Take1(Which(TRUE))), AttGroup("-G", Tup([i \in 1 .. Len(e.points) |-> PointText(s, e.points[i])]))>>
        sent == raw \o CounterText(CounterNew("-A", Len(e.sigs)).v) \o Cat(r.sigs) \o Cat(Tup([i \in 1 .. 3 |-> groups[e.order[i]]]))
        msg == Hurt(sent, e.hurt)
        a0 == BackedMessage(s.logs, msg)
        a == IF IsOk(a0) /\ a0.v.rest = << >> THEN a0 ELSE Err
        may == ~ s.lost /\ AdmitsBacked(s.as, s.made, e.ev, e.sigs, e.rcts, e.points)
        fine == s.lost \/ (IF e.hurt = << >> THEN IsOk(a) = may ELSE IsOk(a) => StartsWith(msg, raw))
        logs == IF IsOk(a) THEN a.v.logs ELSE s.logs
    IN IF e.r.k # "ok" THEN [x |-> Holds(FALSE, "signatures and a verdict"), s |-> s]
       ELSE IF Len(r.sigs) # Len(e.sigs) \/ (\E i \in 1 .. Len(r.sigs) : ~ SigIs(s.seeds, s.texts, e.sigs[i], r.sigs[i]))
               \/ Len(r.rcts) # Len(e.rcts) \/ (\E i \in 1 .. Len(r.rcts) : ~ ReceiptIs(s, e.rcts[i], r.rcts[i]))
       THEN [x |-> Holds(FALSE, "the signatures asked for"), s |-> s]
       ELSE IF ~ fine THEN [x |-> Holds(FALSE, "the protocol admits what the bytes say"), s |-> s]
       ELSE [x |-> Ok([sigs |-> r.sigs, rcts |-> r.rcts, msg |-> msg, yes |-> IsOk(a), state |-> AllObs(logs)]),
             s |-> [s EXCEPT !.logs = logs, !.stream = IF IsOk(a) THEN @ \o msg ELSE @,
                             !.lost = @ \/ (IsOk(a) /\ ~ may),
                             !.as = IF IsOk(a) /\ may THEN AdmittedBacked(@, s.made, e.ev) ELSE @]]
KwStep(e, s) ==
    CASE e.op = "kw.open" -> [x |-> Ok(Tup([i \in 1 .. Len(e.seeds) |-> WitText(e.seeds, i)])),
                              s |-> [seeds |-> e.seeds, made |-> << >>, texts |-> << >>, as |-> << >>, logs |-> << >>, stream |-> << >>, lost |-> FALSE]]
      [] e.op = "kw.make" -> LET c == BackedContent(e)
                                 w == WrittenBacked(c, s.seeds, s.made, s.texts)
                             IN [x |-> Ok(w.raw), s |-> [s EXCEPT !.made = EnteredBacked(@, c), !.texts = Append(@, w)]]
      [] e.op = "kw.send" -> KwSend(e, s)
      [] e.op = "kw.all" -> [x |-> Map(AllObs, Followed(<< >>, s.stream)), s |-> s]
=============================================================================
