------------------------------- MODULE T_Cred -------------------------------
(* The same, byte for byte: credentials as JSON, signatures behind them in     *)
(* groups:  -K root path, -J path, -F who, number and identifier of the event *)
(* that gave them keys, -A their signatures.                                  *)
EXTENDS Cred, T_Back, T_Event

CLII == B("ii")  CLRI == B("ri")  CLE == B("e")  CLS == B("s")  CLID == B("$id")
\* ------------------------------------------------------------------- writing
SchemaDoc(n) == Saidify(JObj(<<JF(CLID, JStr(<< >>)), JF(B("type"), JStr(B("object"))), JF(B("n"), JInt(DecInt(n)))>>), "E", << >>, CLID, {}).v.sad
SchemaSaid(n) == FieldOf(SchemaDoc(n), CLID).s
DateOf(n) == B("2021-06-0") \o DecInt(n + 1) \o B("T21:26:21.233257+00:00")
BlockOf(fields) == Saidify(JObj(<<JF(LD, JStr(<< >>))>> \o fields), "E", << >>, LD, {}).v.sad
SubjectDoc(c, texts, says) == BlockOf((IF c.to = 0 THEN << >> ELSE <<JF(LI, JStr(texts[c.to].said))>>) \o <<JF(B("n"), JInt(DecInt(says)))>>)
\* as shown
ShownDoc(c, texts) == LET s == SubjectDoc(c, texts, c.says + (IF c.bad = "said" THEN 1 ELSE 0)) IN
                      IF c.bad = "subject" /\ c.form = "obj" THEN With(s, B("z"), JInt(B("1"))) ELSE s
EdgesDoc(c, texts) ==
    LET b == BlockOf(Tup([i \in 1 .. Len(c.edges) |-> JF(B(Edge(i)), JObj(<<JF(LN, JStr(texts[c.edges[i].n].said)), JF(CLS, JStr(SchemaSaid(c.edges[i].s)))>>))])) IN
    IF c.bad = "edges" THEN With(b, B("o"), JStr(B("I2I"))) ELSE b
CredDoc(c, texts) ==
    LET told == SubjectDoc(c, texts, c.says)
        subject == IF c.form = "said" THEN JStr(FieldOf(told, LD).s) ELSE IF c.bad = "subject" THEN With(told, B("z"), JInt(B("1"))) ELSE told
    IN JObj(<<JF(LV, JStr(B("ACDC10JSON000000_"))), JF(LD, JStr(<< >>)), JF(LI, JStr(texts[c.by].said)), JF(CLRI, JStr(texts[c.reg].said)), JF(CLS, JStr(SchemaSaid(c.schema))), JF(LA, subject)>>
            \o (IF c.edges = << >> THEN << >> ELSE <<JF(CLE, EdgesDoc(c, texts))>>))
WrittenCred(c, seeds, texts) ==
    LET Out(d, own) == LET w == WrittenFrom(d, own, "E") IN [raw |-> w.raw, said |-> w.said] IN
    CASE c.t = "icp" -> Out(EventDoc([t |-> "icp", sn |-> 0, keys |-> c.keys, fix |-> FALSE, kt |-> c.kt, next |-> << >>, nt |-> B("\"0\""), tag |-> 0], seeds, << >>, << >>), TRUE)
      [] c.t = "vcp" -> Out(JObj(<<JF(LV, JStr(B("KERI10JSON000000_"))), JF(LT, JStr(B("vcp"))), JF(LD, JStr(<< >>)), JF(LI, JStr(<< >>)), JF(CLII, JStr(texts[c.by].said)), JF(CLS, JStr(B("0"))),
                                   JF(B("c"), JArr(<< >>)), JF(LBT, JStr(B("0"))), JF(LB, JArr(<< >>)), JF(LN, JInt(DecInt(c.says)))>>), TRUE)
      [] c.t \in {"iss", "rev"} -> Out(JObj(<<JF(LV, JStr(B("KERI10JSON000000_"))), JF(LT, JStr(B(c.t))), JF(LD, JStr(<< >>)), JF(LI, JStr(texts[c.cred].said)), JF(CLS, JStr(IF c.t = "iss" THEN B("0") ELSE B("1"))),
                                   JF(CLRI, JStr(texts[c.reg].said))>> \o (IF c.t = "rev" THEN <<JF(B("p"), JStr(texts[c.prior].said))>> ELSE << >>) \o <<JF(B("dt"), JStr(DateOf(c.says)))>>), FALSE)
      [] c.t = "cred" -> LET s == Saidify(CredDoc(c, texts), c.code, << >>, LD, {}).v.sad
                             z == Sizeify(IF c.bad # "said" THEN s
                                          ELSE LET other == SubjectDoc(c, texts, c.says + 1) IN With(s, LA, IF c.form = "said" THEN JStr(FieldOf(other, LD).s) ELSE other), << >>).v
                         IN [raw |-> z.raw, said |-> FieldOf(z.ked, LD).s]
PartBytes(raw, p) == LET t == TailOf(JParse(raw).v, Tup([i \in 1 .. Len(p) |-> B(p[i])])) IN IF IsOk(t) THEN t.v ELSE << >>

\* ------------------------------------------------------------------- reading
\* an event of a registry, off the front of a stream
IssuerOf(cs, pre) == Find(cs.iss, LAMBDA x : x.pre = pre)
RegOf(cs, pre) == Find(cs.regs, LAMBDA x : x.pre = pre)
ToldOf(cs, reg, said) == Find(cs.tel, LAMBDA x : x.reg = reg /\ x.cred = said)
CredOf(cs, said) == Find(cs.creds, LAMBDA x : x.said = said)
Verifying(x, sigs, ser) == Satisfied(x.kt, {sigs[g].index : g \in {h \in 1 .. Len(sigs) : sigs[h].index < Len(x.keys) /\ Verifies(x.keys[sigs[h].index + 1], sigs[h].raw, ser)}})
Telling(cs, m) ==
    LET v == m.ked
        t == StrOf(v, LT)  i == StrOf(v, LI)  s == StrOf(v, CLS)  ri == StrOf(v, CLRI)  ii == StrOf(v, CLII)  p == StrOf(v, B("p"))
        sn == IF IsOk(s) THEN NumberOfHex(s.v) ELSE Err
        AtSn(n) == IsOk(sn) /\ NumVal(sn.v) = n
        px == IF IsOk(i) THEN TypedParse("Prefixer", "qb64", i.v) ELSE Err
        said == TypedParse("Saider", "qb64", m.said)
        bound == IsOk(said) /\ SaidVerifies(said.v, v, TRUE, TRUE, << >>, LD, {})
        ks == Admission(NoState, m)
        By(pre) == LET n == IssuerOf(cs, pre) IN n # 0 /\ Verifying(cs.iss[n], m.sigs, m.raw)
        r == RegOf(cs, ri.v)
        n == ToldOf(cs, ri.v, i.v)
    IN IF ~ IsOk(t) \/ ~ IsOk(i) THEN Err
       ELSE CASE t.v = B("icp") -> IF IssuerOf(cs, i.v) = 0 /\ IsOk(ks) THEN Ok([cs EXCEPT !.iss = Append(@, [pre |-> i.v, said |-> m.said, keys |-> ks.v.keys, kt |-> ks.v.kt.v])]) ELSE Err
              [] t.v = B("vcp") -> IF IsOk(px) /\ px.v.code \in DigestCodes /\ PrefixVerifies(px.v, v, TRUE) /\ m.said = i.v /\ AtSn(<< >>) /\ IsOk(ii) /\ RegOf(cs, i.v) = 0 /\ By(ii.v)
                                   THEN Ok([cs EXCEPT !.regs = Append(@, [pre |-> i.v, owner |-> ii.v])]) ELSE Err
              [] t.v = B("iss") -> IF bound /\ AtSn(<< >>) /\ IsOk(ri) /\ r # 0 /\ n = 0 /\ By(cs.regs[r].owner)
                                   THEN Ok([cs EXCEPT !.tel = Append(@, [reg |-> ri.v, cred |-> i.v, st |-> 1, last |-> m.said])]) ELSE Err
              [] t.v = B("rev") -> IF bound /\ AtSn(<<1>>) /\ IsOk(ri) /\ r # 0 /\ n # 0 /\ cs.tel[n].st = 1 /\ p = Ok(cs.tel[n].last) /\ By(cs.regs[r].owner)
                                   THEN Ok([cs EXCEPT !.tel[n].st = 2, !.tel[n].last = m.said]) ELSE Err
              [] OTHER -> Err
\* groups of signatures over parts
RouteAt(b) == LET m == TypedParse("Pather", "qb64b", b)
                 p == IF IsOk(m) THEN PathParts(Bext(m.v)) ELSE Err
             IN IF IsOk(p) /\ ~ PathOpen(Bext(m.v)) THEN Ok([parts |-> p.v, rest |-> Drop(b, Len(MatterText(m.v)))]) ELSE Err
CountAt(b, code) == LET c == CounterParse("qb64b", b) IN IF IsOk(c) /\ c.v.code = code THEN Ok([n |-> c.v.count, rest |-> Drop(b, Len(CounterText(c.v)))]) ELSE Err
RECURSIVE SignersAt(_, _, _, _)
SignersAt(b, n, path, acc) ==
    IF n = 0 THEN Ok([list |-> acc, rest |-> b])
    ELSE LET x == TypedParse("Prefixer", "qb64b", b)
             b1 == IF IsOk(x) THEN Drop(b, Len(MatterText(x.v))) ELSE << >>
             y == IF IsOk(x) THEN TypedParse("Seqner", "qb64b", b1) ELSE Err
             b2 == IF IsOk(y) THEN Drop(b1, Len(MatterText(y.v))) ELSE << >>
             z == IF IsOk(y) THEN TypedParse("Saider", "qb64b", b2) ELSE Err
             b3 == IF IsOk(z) THEN Drop(b2, Len(MatterText(z.v))) ELSE << >>
             c == IF IsOk(z) THEN CountAt(b3, "-A") ELSE Err
             g == IF IsOk(c) THEN SigsAt(c.v.rest, c.v.n, << >>) ELSE Err
         IN IF IsOk(g) THEN SignersAt(g.v.rest, n - 1, path, Append(acc, [path |-> path, pre |-> MatterText(x.v), sn |-> BnStrip(y.v.raw), said |-> MatterText(z.v), sigs |-> g.v.sigs])) ELSE Err
RECURSIVE PathsAt(_, _, _, _)
PathsAt(b, n, root, acc) ==
    IF n = 0 THEN Ok([list |-> acc, rest |-> b])
    ELSE LET p == RouteAt(b)
             c == IF IsOk(p) THEN CountAt(p.v.rest, "-F") ELSE Err
             g == IF IsOk(c) THEN SignersAt(c.v.rest, c.v.n, root \o p.v.parts, acc) ELSE Err
         IN IF IsOk(g) THEN PathsAt(g.v.rest, n - 1, root, g.v.list) ELSE Err
RECURSIVE RootsAt(_, _, _)
RootsAt(b, n, acc) ==
    IF n = 0 THEN Ok([list |-> acc, rest |-> b])
    ELSE LET p == RouteAt(b)
             c == IF IsOk(p) THEN CountAt(p.v.rest, "-J") ELSE Err
             g == IF IsOk(c) THEN PathsAt(c.v.rest, c.v.n, p.v.parts, acc) ELSE Err
         IN IF IsOk(g) THEN RootsAt(g.v.rest, n - 1, g.v.list) ELSE Err
RECURSIVE GroupsAt(_, _)
GroupsAt(b, acc) ==
    IF b = << >> \/ b[1] # 45 THEN Ok([list |-> acc, rest |-> b])
    ELSE LET c == CountAt(b, "-K")
             g == IF IsOk(c) THEN RootsAt(c.v.rest, c.v.n, acc) ELSE Err
         IN IF IsOk(g) THEN GroupsAt(g.v.rest, g.v.list) ELSE Err
SadBound(v) == LET s == StrOf(v, LD)  m == IF IsOk(s) THEN TypedParse("Saider", "qb64", s.v) ELSE Err IN IsOk(m) /\ SaidVerifies(m.v, v, TRUE, TRUE, << >>, LD, {})
StatusOf(cs, reg, said) == LET n == ToldOf(cs, reg, said) IN IF n = 0 THEN 0 ELSE cs.tel[n].st
RECURSIVE Upheld(_, _)
Upheld(cs, said) == LET n == CredOf(cs, said) IN
                    n # 0 /\ StatusOf(cs, cs.creds[n].reg, said) = 1 /\ \A i \in 1 .. Len(cs.creds[n].nodes) : Upheld(cs, cs.creds[n].nodes[i])
IssueeOf(a) == LET i == StrOf(a, LI) IN IF IsOk(i) THEN i.v ELSE << >>
\* known: the schemas, as documents
Presented(cs, b, known) ==
    LET f == Inhale(b, SaidCodeAt(b), B("ACDC"))
        g == IF IsOk(f) THEN GroupsAt(Drop(b, Len(f.v.raw)), << >>) ELSE Err
        v == f.v.ked
        said == MatterText(f.v.said)
        i == StrOf(v, LI)  ri == StrOf(v, CLRI)  sc == StrOf(v, CLS)
        a == IF HasField(v, LA) THEN FieldOf(v, LA) ELSE JNull
        e == IF HasField(v, CLE) THEN FieldOf(v, CLE) ELSE JObj(<< >>)
        nodes == IF IsObj(e) THEN SelectSeq(e.o, LAMBDA x : x.k # LD) ELSE << >>
        NodeOf(x) == StrOf(x.v, LN).v
        n == IssuerOf(cs, i.v)  r == RegOf(cs, ri.v)
        sm == TypedParse("Saider", "qb64", sc.v)
        asaid == IF IsStr(a) THEN a.s ELSE FieldOf(a, LD).s
        after == IF CredOf(cs, said) # 0 THEN cs
                 ELSE [cs EXCEPT !.creds = Append(@, [said |-> said, by |-> i.v, reg |-> ri.v, schema |-> sc.v, to |-> IF IsObj(a) THEN IssueeOf(a) ELSE << >>, asaid |-> asaid,
                                                      nodes |-> Tup([k \in 1 .. Len(nodes) |-> NodeOf(nodes[k])])])]
    IN IF ~ IsOk(g) THEN Err
       ELSE IF /\ SadBound(v)
               /\ IsOk(i) /\ IsOk(ri) /\ IsOk(sc)
               /\ n # 0 /\ r # 0 /\ cs.regs[r].owner = i.v
               /\ StatusOf(cs, ri.v, said) = 1
               /\ IsOk(sm) /\ \E k \in 1 .. Len(known) : SaidVerifies(sm.v, known[k], TRUE, FALSE, << >>, CLID, {})
               /\ IF IsStr(a) THEN IsOk(TypedParse("Saider", "qb64", a.s)) ELSE IsObj(a) /\ SadBound(a)
               /\ IsObj(e) /\ (e.o # << >> => SadBound(e))
               /\ \A k \in 1 .. Len(nodes) :
                    LET x == nodes[k].v
                        m == CredOf(cs, StrOf(x, LN).v)
                    IN /\ IsObj(x) /\ IsOk(StrOf(x, LN)) /\ IsOk(StrOf(x, CLS))
                       /\ m # 0 /\ Upheld(cs, cs.creds[m].said) /\ cs.creds[m].schema = StrOf(x, CLS).v
                       /\ cs.creds[m].to # << >> => cs.creds[m].to = i.v
               /\ \E h \in RangeOf(g.v.list) :
                    /\ h.pre = i.v /\ h.sn = << >> /\ h.said = cs.iss[n].said
                    /\ h.path \in {<< >>, <<LD>>}
                    /\ LET t == TailOf(v, h.path) IN IsOk(t) /\ Verifying(cs.iss[n], h.sigs, t.v)
            THEN Ok([cs |-> after, rest |-> g.v.rest]) ELSE Err
Told(cs, b) == LET m == Message(b)  a == IF IsOk(m) THEN Telling(cs, m.v) ELSE Err IN IF IsOk(a) THEN Ok([cs |-> a.v, rest |-> m.v.rest]) ELSE Err
AnyMessage(cs, b, known) == LET p == Sniff(b) IN IF ~ IsOk(p) THEN Err ELSE IF p.v.ident = B("ACDC") THEN Presented(cs, b, known) ELSE Told(cs, b)
RECURSIVE Heard(_, _, _)
Heard(cs, b, known) == IF b = << >> THEN Ok(cs)
                       ELSE LET a == AnyMessage(cs, b, known) IN IF IsOk(a) THEN Heard(a.v.cs, a.v.rest, known) ELSE Err
\* a subject, as text, shown for an accepted credential
Shown(cs, said, b) ==
    LET n == CredOf(cs, said)  v == JParse(b)
        m == TypedParse("Saider", "qb64", cs.creds[n].asaid)
    IN IF n # 0 /\ IsOk(v) /\ IsObj(v.v) /\ IsOk(m) /\ SaidVerifies(m.v, v.v, TRUE, TRUE, << >>, LD, {}) THEN Ok([cs EXCEPT !.creds[n].to = IssueeOf(v.v)]) ELSE Err
CsObs(cs) == [iss |-> Tup([i \in 1 .. Len(cs.iss) |-> cs.iss[i].pre]), regs |-> Tup([i \in 1 .. Len(cs.regs) |-> <<cs.regs[i].pre, cs.regs[i].owner>>]),
              tel |-> Tup([i \in 1 .. Len(cs.tel) |-> [cred |-> cs.tel[i].cred, st |-> cs.tel[i].st]]),
              creds |-> Tup([i \in 1 .. Len(cs.creds) |-> [said |-> cs.creds[i].said, by |-> cs.creds[i].by, to |-> cs.creds[i].to, stands |-> Upheld(cs, cs.creds[i].said)]])]

\* ------------------------------------------------------------------ sessions
KcSession == {"kc.open", "kc.make", "kc.send", "kc.present", "kc.show", "kc.all"}
CredContent(e) == [t |-> e.t, by |-> e.by, reg |-> e.reg, cred |-> e.cred, prior |-> e.prior, says |-> e.says, schema |-> e.schema, form |-> e.form, to |-> e.to,
                   edges |-> e.edges, code |-> Str(e.code), bad |-> e.bad, keys |-> e.keys, kt |-> e.kt]
Told1(s, a) == [key |-> a.key, index |-> a.index, ondex |-> << >>, only |-> FALSE, over |-> 1]
SigsAre(s, asked, got, Data(_)) == Len(asked) = Len(got) /\ \A i \in 1 .. Len(asked) : SigIs(s.seeds, <<[raw |-> Data(asked[i])]>>, Told1(s, asked[i]), got[i])
ATxt(sigs) == CounterText(CounterNew("-A", Len(sigs)).v) \o Cat(sigs)
One(code, n) == CounterText(CounterNew(code, n).v)
PathTxt(p) == MatterText(PathM(PathText(Tup([i \in 1 .. Len(p) |-> B(p[i])]))).v)
GroupTxt(s, g, got) == One("-K", 1) \o PathTxt(g.root) \o One("-J", Len(g.paths))
                       \o Cat(Tup([k \in 1 .. Len(g.paths) |-> PathTxt(g.paths[k].path) \o One("-F", 1) \o s.texts[g.paths[k].by].said \o MatterText(SeqnerOf(<< >>).v) \o s.texts[g.paths[k].by].said \o ATxt(got[k])]))
\* the outcome of a message: a (by the bytes), may (by the contents), after (the contents' state)
Settled(e, s, msg, a, may, after, more) ==
    LET cs == IF IsOk(a) THEN a.v ELSE s.cs
        fine == s.lost \/ (IF e.hurt = << >> THEN IsOk(a) = may ELSE IsOk(a) => (e.op = "kc.show" \/ StartsWith(msg, s.texts[e.ev].raw)))
    IN IF ~ fine THEN [x |-> Holds(FALSE, "the protocol admits what the bytes say"), s |-> s]
       ELSE [x |-> Ok(more @@ [msg |-> msg, yes |-> IsOk(a), state |-> CsObs(cs)]),
             s |-> [s EXCEPT !.cs = cs, !.stream = IF IsOk(a) /\ e.op # "kc.show" THEN @ \o msg ELSE @, !.lost = @ \/ (IsOk(a) /\ ~ may) \/ (e.op = "kc.show" /\ IsOk(a) # may),
                             !.as = IF IsOk(a) /\ may THEN after ELSE @]]
AllRead(r) == IF IsOk(r) /\ r.v.rest = << >> THEN Ok(r.v.cs) ELSE Err
KcSend(e, s) ==
    LET r == e.r.v
        msg == Hurt(s.texts[e.ev].raw \o ATxt(r.sigs), e.hurt)
        may == ~ s.lost /\ AdmitsTold(s.as, s.made, e.ev, e.sigs)
    IN IF e.r.k # "ok" THEN [x |-> Holds(FALSE, "signatures and a verdict"), s |-> s]
       ELSE IF ~ SigsAre(s, e.sigs, r.sigs, LAMBDA a : s.texts[a.over].raw) THEN [x |-> Holds(FALSE, "the signatures asked for"), s |-> s]
       ELSE Settled(e, s, msg, AllRead(Told(s.cs, msg)), may, AdmittedTold(s.as, s.made, e.ev), [sigs |-> r.sigs])
KcPresent(e, s) ==
    LET r == e.r.v
        msg == Hurt(s.texts[e.ev].raw \o Cat(Tup([g \in 1 .. Len(e.groups) |-> GroupTxt(s, e.groups[g], r.sigs[g])])), e.hurt)
        may == ~ s.lost /\ AdmitsCred(s.as, s.made, e.ev, e.groups, Len(s.known))
    IN IF e.r.k # "ok" THEN [x |-> Holds(FALSE, "signatures and a verdict"), s |-> s]
       ELSE IF Len(r.sigs) # Len(e.groups) \/ \E g \in 1 .. Len(e.groups) : Len(r.sigs[g]) # Len(e.groups[g].paths)
               \/ \E k \in 1 .. Len(e.groups[g].paths) : ~ SigsAre(s, e.groups[g].paths[k].sigs, r.sigs[g][k], LAMBDA a : PartBytes(s.texts[a.over].raw, a.part))
       THEN [x |-> Holds(FALSE, "the signatures asked for"), s |-> s]
       ELSE Settled(e, s, msg, AllRead(Presented(s.cs, msg, s.known)), may, AdmittedCred(s.as, s.made, e.ev), [sigs |-> r.sigs])
KcShow(e, s) ==
    LET msg == Hurt(JPrint(ShownDoc(s.made[e.of], s.texts)), e.hurt)
        may == ~ s.lost /\ AdmitsShown(s.as, s.made, e.ev, e.of)
    IN Settled(e, s, msg, Shown(s.cs, s.texts[e.ev].said, msg), may, AdmittedShown(s.as, s.made, e.ev, e.of), [sigs |-> << >>])
KcStep(e, s) ==
    CASE e.op = "kc.open" -> LET k == Tup([n \in 1 .. e.schemas |-> SchemaDoc(n)]) IN
                             [x |-> Ok(Tup([n \in 1 .. e.schemas |-> FieldOf(k[n], CLID).s])),
                              s |-> [seeds |-> e.seeds, known |-> k, made |-> << >>, texts |-> << >>, as |-> NoCreds, cs |-> NoCreds, stream |-> << >>, lost |-> FALSE]]
      [] e.op = "kc.make" -> LET c == CredContent(e)
                                 w == WrittenCred(c, s.seeds, s.texts)
                             IN [x |-> Ok(w.raw), s |-> [s EXCEPT !.made = EnteredCred(@, c), !.texts = Append(@, w)]]
      [] e.op = "kc.send" -> KcSend(e, s)
      [] e.op = "kc.present" -> KcPresent(e, s)
      [] e.op = "kc.show" -> KcShow(e, s)
      [] e.op = "kc.all" -> [x |-> Map(CsObs, Heard(NoCreds, s.stream, s.known)), s |-> s]
=============================================================================
