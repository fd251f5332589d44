-------------------------------- MODULE T_Kel --------------------------------
(* The same log, byte for byte: events as JSON, signatures as they travel.   *)
EXTENDS Kel, T_Salter

\* ------------------------------------------------------------------- writing
\* seeds: [code, seed]
KeyText(seeds, k, fix) == MatterText(VerferOf([code |-> Str(seeds[k].code), size |-> 0, raw |-> seeds[k].seed], ~ fix))
KeyLabel(seeds, k, fix) == VerferCode(Str(seeds[k].code), ~ fix)
CommitTo(seeds, k) == MatterText([code |-> "E", size |-> 0, raw |-> HashBytes("E", KeyText(seeds, k, FALSE))])
TextList(ts) == JArr(Tup([i \in 1 .. Len(ts) |-> JStr(ts[i])]))
\* pre, prior: texts
EventDoc(c, seeds, pre, prior) ==
    JObj(<<JF(LV, JStr(B("KERI10JSON000000_"))), JF(LT, JStr(B(c.t))), JF(LD, JStr(<< >>)), JF(LI, JStr(pre)), JF(B("s"), JStr(BnHex(BnOfInt(c.sn))))>>
         \o (IF c.t \in Inceptions THEN << >> ELSE <<JF(B("p"), JStr(prior))>>)
         \o (IF c.t \in Establishing
             THEN <<JF(B("kt"), JParse(c.kt).v), JF(LK, TextList(Tup([i \in 1 .. Len(c.keys) |-> KeyText(seeds, c.keys[i], c.fix)]))),
                    JF(B("nt"), JParse(c.nt).v), JF(LN, TextList(Tup([i \in 1 .. Len(c.next) |-> CommitTo(seeds, c.next[i])]))),
                    JF(B("bt"), JStr(B("0"))), JF(LB, JArr(<< >>)), JF(B("c"), JArr(<< >>))>> ELSE << >>)
         \o <<JF(LA, IF c.tag = 0 THEN JArr(<< >>) ELSE JArr(<<JObj(<<JF(B("tag"), JInt(DecInt(c.tag)))>>)>>))>>)
\* d: the event without its size, identifier and (own) its prefix
WrittenFrom(d, own, code) ==
    LET f == IF own THEN LET p == DerivePrefix(d, code) IN Filled(d, p.v) ELSE d
        g == IF own /\ code \in DigestCodes THEN f ELSE Saidify(f, "E", << >>, LD, {}).v.sad
        z == Sizeify(g, << >>).v
    IN [raw |-> z.raw, pre |-> FieldOf(z.ked, LI).s, said |-> FieldOf(z.ked, LD).s]
\* texts: [pre, said] of the events made before
Written(c, seeds, texts) ==
    WrittenFrom(EventDoc(c, seeds, IF c.i = 0 THEN << >> ELSE texts[c.i].pre, IF c.prior = 0 THEN << >> ELSE texts[c.prior].said),
                c.i = 0 /\ c.t \in Inceptions, c.code)

\* ----------------------------------------------------------------- admission
AllOf(r) == IsOk(r)
Mats(v, l, t) == IF ~ HasField(v, l) THEN Ok(<< >>)
                 ELSE LET x == FieldOf(v, l) IN
                      IF ~ IsArr(x) THEN Err
                      ELSE AllOk(Tup([i \in 1 .. Len(x.a) |-> IF IsStr(x.a[i]) THEN TypedParse(t, "qb64", x.a[i].s) ELSE Err]))
NoState == [n |-> 0, pre |-> << >>, keys |-> << >>, kt |-> Err, next |-> << >>, nt |-> Err, sn |-> << >>, last |-> << >>]
CurrentOnly == {"B", "D", "F", "2B", "2D", "2F"}
RECURSIVE SigsAt(_, _, _)
SigsAt(b, n, acc) == IF n = 0 THEN Ok([sigs |-> acc, rest |-> b])
                     ELSE LET g == TypedParse("Siger", "qb64b", b) IN
                          IF IsOk(g) THEN SigsAt(Drop(b, Len(IndexerText(g.v))), n - 1, Append(acc, g.v)) ELSE Err
\* an event with its signatures off the front of a stream
SaidCodeAt(b) == LET p == Sniff(b)
                     v == IF IsOk(p) /\ p.v.size <= Len(b) THEN JParse(Take(b, p.v.size)) ELSE Err
                     d == IF IsOk(v) THEN StrOf(v.v, LD) ELSE Err
                     m == IF IsOk(d) THEN TypedParse("Saider", "qb64", d.v) ELSE Err
                 IN IF IsOk(m) THEN m.v.code ELSE "E"
Message(b) ==
    LET f == Inhale(b, SaidCodeAt(b), B("KERI")) IN
    IF ~ IsOk(f) THEN Err
    ELSE LET c == CounterParse("qb64b", Drop(b, Len(f.v.raw))) IN
         IF ~ IsOk(c) THEN Err
         ELSE IF c.v.code # "-A" THEN Err
         ELSE LET s == SigsAt(Drop(b, Len(f.v.raw) + 4), c.v.count, << >>) IN
              IF IsOk(s) THEN Ok([raw |-> f.v.raw, ked |-> f.v.ked, said |-> MatterText(f.v.said), sigs |-> s.v.sigs, rest |-> s.v.rest]) ELSE Err
KtOf(v, l) == IF ~ HasField(v, l) THEN Err ELSE FromSith(FieldOf(v, l))
\* the key state after the message, or Err
Admission(ks, m) ==
    LET v == m.ked
        t == StrOf(v, LT)  i == StrOf(v, LI)  s == StrOf(v, B("s"))  p == StrOf(v, B("p"))
        inc == IsOk(t) /\ t.v \in {B("icp"), B("dip")}
        rot == IsOk(t) /\ t.v \in {B("rot"), B("drt")}
        ixn == IsOk(t) /\ t.v = B("ixn")
        sn == IF IsOk(s) THEN NumberOfHex(s.v) ELSE Err
        px == IF IsOk(i) THEN TypedParse("Prefixer", "qb64", i.v) ELSE Err
        said == TypedParse("Saider", "qb64", m.said)
        bound == IsOk(said) /\ SaidVerifies(said.v, v, TRUE, TRUE, << >>, LD, {})
        keys == IF ixn THEN Ok(ks.keys) ELSE Mats(v, LK, "Verfer")
        kt == IF ixn THEN ks.kt ELSE KtOf(v, B("kt"))
        next == IF ixn THEN Ok(ks.next) ELSE Mats(v, LN, "Diger")
        nt == IF ixn THEN ks.nt ELSE IF IsOk(next) /\ next.v # << >> THEN KtOf(v, B("nt")) ELSE Err
        good == {g \in 1 .. Len(m.sigs) : m.sigs[g].index < Len(keys.v) /\ Verifies(keys.v[m.sigs[g].index + 1], m.sigs[g].raw, m.raw)}
        exposed == {m.sigs[g].ondex : g \in {h \in good : /\ m.sigs[h].code \notin CurrentOnly /\ m.sigs[h].ondex < Len(ks.next)
                                                           /\ DigestVerifies(ks.next[m.sigs[h].ondex + 1], MatterText(keys.v[m.sigs[h].index + 1]))}}
    IN IF /\ inc \/ rot \/ ixn
          /\ IsOk(i) /\ IsOk(sn)
          /\ IF inc THEN /\ ks.n = 0 /\ NumVal(sn.v) = << >> /\ IsOk(px) /\ PrefixVerifies(px.v, v, TRUE)
                         /\ IF px.v.code \in DigestCodes THEN m.said = i.v ELSE bound
             ELSE ks.n > 0 /\ bound /\ i.v = ks.pre /\ NumVal(sn.v) = BnAdd(ks.sn, <<1>>) /\ p = Ok(ks.last) /\ ks.next # << >>
          /\ IsOk(keys) /\ keys.v # << >> /\ IsOk(kt) /\ Listed(kt.v) <= Len(keys.v)
          /\ IsOk(next) /\ (next.v # << >> => IsOk(nt) /\ Listed(nt.v) <= Len(next.v))
          /\ Satisfied(kt.v, {m.sigs[g].index : g \in good})
          /\ rot => Satisfied(ks.nt.v, exposed)
       THEN Ok([n |-> ks.n + 1, pre |-> i.v, keys |-> keys.v, kt |-> kt, next |-> next.v, nt |-> nt, sn |-> NumVal(sn.v), last |-> m.said])
       ELSE Err
\* left open: what the parts leave open
AdmissionOpen(ks, m) == \/ \E l \in {B("kt"), B("nt")} : HasField(m.ked, l) /\ Open(FieldOf(m.ked, l))
                        \/ LET s == StrOf(m.ked, B("s")) IN IsOk(s) /\ Plus(s.v)
                        \/ \E l \in {LK, LN} : HasField(m.ked, l) /\ ~ IsArr(FieldOf(m.ked, l))
                        \/ LET i == StrOf(m.ked, LI)  p == IF IsOk(i) THEN TypedParse("Prefixer", "qb64", i.v) ELSE Err IN IsOk(p) /\ PrefixOpen(p.v, m.ked)
RECURSIVE Replayed(_, _)
Replayed(ks, b) == IF b = << >> THEN Ok(ks)
                   ELSE LET m == Message(b)  a == IF IsOk(m) THEN Admission(ks, m.v) ELSE Err IN
                        IF IsOk(a) THEN Replayed(a.v, m.v.rest) ELSE Err

KsObs(k) == [n |-> k.n, pre |-> k.pre, sn |-> k.sn, last |-> k.last, keys |-> Tup([i \in 1 .. Len(k.keys) |-> MatterText(k.keys[i])]),
             next |-> Tup([i \in 1 .. Len(k.next) |-> MatterText(k.next[i])])]
\* how a message is hurt on its way: << >>, or <<[what, at, to]>>
Hurt(b, h) == IF h = << >> THEN b
              ELSE LET w == h[1].what  at == h[1].at % Len(b)  to == h[1].to IN
                   CASE w = "put" -> [b EXCEPT ![at + 1] = to]
                     [] w = "cut" -> Take(b, at)
                     [] w = "add" -> Append(b, to)
                     [] w = "drop" -> Take(b, at) \o Drop(b, at + 1)

\* ------------------------------------------------------------------ sessions
KlSession == {"kl.open", "kl.make", "kl.forge", "kl.send", "kl.all"}
Content(e) == [t |-> e.t, code |-> Str(e.code), i |-> e.i, sn |-> e.sn, prior |-> e.prior, keys |-> e.keys, fix |-> e.fix, kt |-> e.kt, next |-> e.next, nt |-> e.nt, tag |-> e.tag]
Forged == [t |-> "forged", norm |-> << >>]
\* fields put, fields taken away, and the identifier made anew
Forge(e, doc) ==
    LET RECURSIVE Sets(_, _)
        Sets(v, k) == IF k > Len(e.set) THEN v ELSE Sets(With(v, e.set[k][1], JParse(e.set[k][2]).v), k + 1)
        w == Without(Sets(doc, 1), {e.del[k] : k \in 1 .. Len(e.del)})
        r == Saidify(w, "E", << >>, LD, {})
    IN IF e.resaid THEN (IF IsOk(r) THEN Exhale(r.v.sad, << >>, "E", B("KERI")) ELSE Err) ELSE Exhale(w, << >>, "E", B("KERI"))
\* the recorded signatures, against what was asked for
SigIs(seeds, texts, a, g) ==
    LET w == SignAt(Str(seeds[a.key].code), a.only, a.index, a.ondex)
        x == TypedParse("Siger", "qb64", g)
        v == VerferOf([code |-> Str(seeds[a.key].code), size |-> 0, raw |-> seeds[a.key].seed], TRUE)
    IN /\ IsOk(w) /\ IsOk(x) /\ IndexerText(x.v) = g
       /\ x.v.code = w.v.code /\ x.v.index = w.v.index /\ x.v.ondex = w.v.ondex
       /\ Verifies(v, x.v.raw, texts[a.over].raw)
KlSend(e, s) ==
    LET raw == s.texts[e.ev].raw
        r == e.r.v
        cnt == CounterText(CounterNew("-A", Len(e.sigs)).v)
        msg == Hurt(raw \o cnt \o Cat(r.sigs), e.hurt)
        m == Message(msg)
        whole == IsOk(m) /\ m.v.rest = << >>
        open == whole /\ AdmissionOpen(s.ks, m.v)
        a == IF whole THEN Admission(s.ks, m.v) ELSE Err
        lost == s.made[e.ev].t = "forged" \/ s.as.pre = <<"lost">> \/ \E i \in 1 .. Len(e.sigs) : s.made[e.sigs[i].over].t = "forged"
        may == ~ lost /\ Admits(s.as, s.made, e.ev, e.sigs)
        asHurt == ~ StartsWith(msg, raw)
        \* the protocol's verdict; a hurt event is never admitted
        fine == lost \/ (IF e.hurt = << >> THEN IsOk(a) = may ELSE IsOk(a) => ~ asHurt)
        ks2 == IF IsOk(a) THEN a.v ELSE s.ks
    IN IF e.r.k # "ok" THEN [x |-> Holds(FALSE, "signatures and a verdict"), s |-> s]
       ELSE IF Len(r.sigs) # Len(e.sigs) \/ \E i \in 1 .. Len(r.sigs) : ~ SigIs(s.seeds, s.texts, e.sigs[i], r.sigs[i])
       THEN [x |-> Holds(FALSE, "the signatures asked for"), s |-> s]
       ELSE IF ~ fine THEN [x |-> Holds(FALSE, "the protocol admits what the bytes say"), s |-> s]
       ELSE IF open THEN [x |-> [k |-> "any"], s |-> [s EXCEPT !.as.pre = <<"lost">>, !.ks = ks2]]
       ELSE [x |-> Ok([sigs |-> r.sigs, msg |-> msg, yes |-> IsOk(a), state |-> KsObs(ks2)]),
             s |-> [s EXCEPT !.ks = ks2, !.stream = IF IsOk(a) THEN @ \o msg ELSE @,
                             !.as = IF ~ IsOk(a) THEN @ ELSE IF lost \/ (e.hurt # << >> /\ ~ may) THEN [@ EXCEPT !.pre = <<"lost">>] ELSE Admitted(@, s.made, e.ev)]]
KlStep(e, s) ==
    CASE e.op = "kl.open" -> [x |-> Ok(Tup([i \in 1 .. Len(e.seeds) |-> KeyText(e.seeds, i, FALSE)])),
                              s |-> [seeds |-> e.seeds, made |-> << >>, texts |-> << >>, as |-> NoLog, ks |-> NoState, stream |-> << >>]]
      [] e.op = "kl.make" -> LET c == Content(e) IN
                             IF ~ Makeable(c, LAMBDA k, f : KeyLabel(s.seeds, k, f)) THEN [x |-> Err, s |-> s]
                             ELSE LET w == Written(c, s.seeds, s.texts) IN
                                  [x |-> Ok(w.raw), s |-> [s EXCEPT !.made = Entered(@, c), !.texts = Append(@, w)]]
      [] e.op = "kl.forge" -> LET z == Forge(e, JParse(s.texts[e.ev].raw).v) IN
                              \* what cannot be forged stays as it was
                              [x |-> IF IsOk(z) THEN Ok(z.v.raw) ELSE Err,
                               s |-> [s EXCEPT !.made = Append(@, Forged),
                                               !.texts = Append(@, [raw |-> IF IsOk(z) THEN z.v.raw ELSE s.texts[e.ev].raw, pre |-> << >>, said |-> << >>])]]
      [] e.op = "kl.send" -> KlSend(e, s)
      \* everything admitted so far, in one stream, to a validator that knows nothing yet
      [] e.op = "kl.all" -> [x |-> Map(KsObs, Replayed(NoState, s.stream)), s |-> s]
=============================================================================
