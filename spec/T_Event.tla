------------------------------- MODULE T_Event -------------------------------
EXTENDS Event, T_Doc

\* every element, or an error if one is
AllOk(rs) == IF \E i \in 1 .. Len(rs) : ~ IsOk(rs[i]) THEN Err ELSE Ok(Tup([i \in 1 .. Len(rs) |-> rs[i].v]))
Kind(t, x) == IF IsStr(x) THEN Map(MObs, TypedParse(t, "qb64", x.s)) ELSE Err
ListOf(v, l, t, strict) ==
    IF ~ HasField(v, l) THEN Ok(<< >>)
    ELSE LET x == FieldOf(v, l) IN
         IF IsArr(x) THEN AllOk(Tup([i \in 1 .. Len(x.a) |-> Kind(t, x.a[i])]))
         ELSE IF strict THEN Err ELSE [k |-> "maybe", v |-> << >>]
TholdOf(v, l) == IF ~ HasField(v, l) THEN Ok(<< >>)
                 ELSE IF Open(FieldOf(v, l)) THEN [k |-> "any"]
                 ELSE LET t == FromSith(FieldOf(v, l)) IN IF IsOk(t) THEN Ok(<<ThObs(t.v)>>) ELSE Err
SnOf(v) == LET s == StrOf(v, B("s")) IN
           IF ~ IsOk(s) THEN Err ELSE IF Plus(s.v) THEN [k |-> "any"] ELSE NumberOfHex(s.v)
Via1(r, F(_)) == IF r.k = "any" THEN r ELSE IF IsOk(r) THEN Ok(F(r.v)) ELSE Err
FnOf(v) == IF ~ HasField(v, B("f")) THEN Ok(<< >>)
           ELSE LET s == StrOf(v, B("f"))  m == IF IsOk(s) THEN TypedParse("Number", "qb64", s.v) ELSE Err IN IF IsOk(m) THEN Ok(<<m.v>>) ELSE Err
FieldOr(v, l, d) == IF HasField(v, l) THEN FieldOf(v, l) ELSE d
EventSays(v) ==
    LET fn == FnOf(v) IN
    [verfers |-> ListOf(v, LK, "Verfer", FALSE), digers |-> ListOf(v, LN, "Diger", FALSE), werfers |-> ListOf(v, LB, "Verfer", TRUE),
     tholder |-> TholdOf(v, B("kt")), ntholder |-> TholdOf(v, B("nt")),
     sner |-> Via1(SnOf(v), NObs), sn |-> Via1(SnOf(v), NumVal),
     fner |-> IF IsOk(fn) THEN Ok(Tup([i \in 1 .. Len(fn.v) |-> NObs(fn.v[i])])) ELSE Err,
     fn |-> IF IsOk(fn) THEN (IF fn.v = << >> THEN Err ELSE Ok(NumVal(fn.v[1]))) ELSE Err,
     pre |-> StrOf(v, LI), preb |-> StrOf(v, LI),
     est |-> LET t == StrOf(v, LT) IN IF IsOk(t) THEN Ok(t.v \in {B("icp"), B("rot"), B("dip"), B("drt")}) ELSE Err]
CredSays(v) ==
    [crd |-> Ok(JPrint(v)), issuer |-> StrOf(v, LI), schema |-> StrOf(v, B("s")), subject |-> Ok(JPrint(FieldOr(v, LA, JNull))),
     status |-> IF ~ HasField(v, B("ri")) THEN Ok(<< >>) ELSE LET r == StrOf(v, B("ri")) IN IF IsOk(r) THEN Ok(<<r.v>>) ELSE Err,
     chains |-> Ok(JPrint(FieldOr(v, B("e"), JObj(<< >>))))]
Says(e) ==
    LET r == IF e.raw # << >> THEN (IF InhaleOpen(e.raw[1]) THEN [k |-> "any"] ELSE Inhale(e.raw[1], FCode(e), Ident(e)))
             ELSE Exhale(Parsed(e), << >>, FCode(e), Ident(e)) IN
    IF r.k = "any" THEN r ELSE IF ~ IsOk(r) THEN Err
    ELSE [k |-> "rec", v |-> (IF e.as = "creder" THEN CredSays(r.v.ked) ELSE EventSays(r.v.ked)) @@
            [pretty |-> Ok(CutAt(Indented(r.v.ked, 0), IF e.size = << >> THEN 1024 ELSE BnInt(e.size[1])))]]

\* a path with every form it can be handed over in
PText(m) == Bext(m)
PObs(m) == LET s == Bext(m)  p == PathParts(s) IN
    MObs(m) @@ [bext |-> Ok(s),
                path |-> IF IsOk(p) THEN Ok(p.v) ELSE Err,
                again |-> [path |-> IF IsOk(p) THEN Ok(PathText(p.v)) ELSE Err, bext |-> Ok(s), qb64 |-> Ok(s), qb64b |-> Ok(s), qb2 |-> Ok(s), raw |-> Ok(s)]]
PathM(s) == OfType("Pather", BexterOf("4A", s))
ByText(s) == IF PathOpen(s) THEN [k |-> "any"] ELSE Map(PObs, PathM(s))
PathIn(e) == IF e.form = "bext" THEN PathM(e.path) ELSE TypedParse("Pather", "qb64", e.path)
POpen(m) == IsOk(m) /\ PathOpen(Bext(m.v))
OfParts(r) == IF IsOk(r) THEN ByText(PathText(r.v)) ELSE Err
Rel(a, b) == LET p == PathParts(Bext(a))  q == PathParts(Bext(b))  ok == IsOk(p) /\ IsOk(q) IN
    [k |-> "rec", v |->
        [root |-> IF ok THEN ByText(PathText(q.v \o p.v)) ELSE Err,
         strip |-> IF ok THEN (IF StartsWith(p.v, q.v) THEN ByText(PathText(Drop(p.v, Len(q.v)))) ELSE Ok(PObs(a))) ELSE Err,
         under |-> Ok(StartsWith(Bext(a), Bext(b))),
         \* away from a root and back
         back |-> IF ok THEN ByText(PathText(p.v)) ELSE Err]]

EventOps == {"px.new", "px.ver", "px.life", "ev.says", "pa.list", "pa.bext", "pa.par", "pa.res", "pa.tail", "pa.rel"}
Strs2(o) == IF o = << >> THEN << >> ELSE Tup([i \in 1 .. Len(o[1]) |-> Str(o[1][i])])
Filled(v, m) == LET w == With(v, LI, JStr(MatterText(m))) IN
                IF m.code \in DigestCodes THEN With(w, LD, JStr(MatterText(m))) ELSE w
EventExpect(e) ==
    CASE e.op = "px.new" -> Map(MObs, PrefixOf(Parsed(e), OptS(e.code), Strs2(e.allows)))
      [] e.op = "px.ver" -> LET p == TypedParse("Prefixer", "qb64", e.id) IN
                            IF ~ IsOk(p) THEN Err ELSE IF PrefixOpen(p.v, Parsed(e)) THEN [k |-> "any"]
                            ELSE Ok(PrefixVerifies(p.v, Parsed(e), e.prefixed # << >> /\ e.prefixed[1]))
      \* derived, written into the event, checked, and derived again from the event that has it
      [] e.op = "px.life" -> LET r == PrefixOf(Parsed(e), OptS(e.code), << >>) IN
                             IF ~ IsOk(r) THEN Err
                             ELSE LET f == Filled(Parsed(e), r.v) IN
                                  Ok([made |-> MObs(r.v), plain |-> PrefixVerifies(r.v, Parsed(e), FALSE), filled |-> PrefixVerifies(r.v, f, TRUE),
                                      again |-> Map(MObs, PrefixOf(f, << >>, << >>)), doc |-> JPrint(f)])
      [] e.op = "ev.says" -> Says(e)
      [] e.op = "pa.list" -> IF ListOpen(Parsed(e)) THEN [k |-> "any"]
                             ELSE LET r == PathOfList(Parsed(e)) IN IF IsOk(r) THEN Map(PObs, PathM(r.v)) ELSE Err
      [] e.op = "pa.bext" -> ByText(e.in)
      [] e.op = "pa.par" -> LET m == TypedParse("Pather", e.via, e.in) IN IF POpen(m) THEN [k |-> "any"] ELSE Map(PObs, m)
      [] e.op = "pa.res" -> LET m == PathIn(e)  p == IF IsOk(m) THEN PathParts(Bext(m.v)) ELSE Err IN
                            IF POpen(m) THEN [k |-> "any"] ELSE IF ~ IsOk(p) THEN Err ELSE Map(JPrint, Resolve(Parsed(e), p.v))
      [] e.op = "pa.tail" -> LET m == PathIn(e)  p == IF IsOk(m) THEN PathParts(Bext(m.v)) ELSE Err  d == Exhale(Parsed(e), << >>, "E", B("KERI")) IN
                             IF POpen(m) THEN [k |-> "any"] ELSE IF ~ IsOk(p) \/ ~ IsOk(d) THEN Err ELSE TailOf(d.v.ked, p.v)
      [] e.op = "pa.rel" -> LET a == PathM(e.a)  b == PathM(e.b) IN
                            IF POpen(a) \/ POpen(b) THEN [k |-> "any"] ELSE IF IsOk(a) /\ IsOk(b) THEN Rel(a.v, b.v) ELSE Err

\* An event or credential held as an object and refilled: from a buffer, from content, or from its
\* own content after that was edited.  [as, code, cur]; cur: << >> once a refill was refused, since
\* what a refused refill leaves behind is not specified.
FrameSession == {"se.open", "se.code", "se.set", "se.raw", "se.ked", "se.self", "se.copy", "se.says"}
FOf(r) == [raw |-> r.raw, ked |-> r.ked, ident |-> r.ident, said |-> r.said, size |-> Len(r.raw)]
FShow(s) == LET f == s.cur[1] IN [FObs(f) EXCEPT !.size = BnOfInt(f.size), !.code = B(s.code)]
FrameStep(e, s) ==
    LET none == "code" \notin DOMAIN s
        live == ~ none /\ s.cur # << >>
        \* the content of another refill: any protocol is taken
        Refill(r) == IF IsOk(r) THEN LET t == [s EXCEPT !.cur = <<FOf(r.v)>>] IN [x |-> Ok(FShow(t)), s |-> t] ELSE [x |-> Err, s |-> [s EXCEPT !.cur = << >>]]
        Either == [x |-> [k |-> "any"], s |-> s]
        Whole(v, kind) == LET z == Sizeify(v, kind) IN IF IsOk(z) THEN Exhale(v, kind, s.code, z.v.ident) ELSE Err
    IN
    IF e.op = "se.open" THEN
        LET r == Exhale(Parsed(e), << >>, FCode(e), Ident(e))
            t == [as |-> e.as, code |-> FCode(e), cur |-> IF IsOk(r) THEN <<FOf(r.v)>> ELSE << >>]
        IN IF IsOk(r) THEN [x |-> Ok(FShow(t)), s |-> t] ELSE [x |-> Err, s |-> << >>]
    ELSE IF none THEN [x |-> Err, s |-> s]
    ELSE CASE e.op = "se.code" -> LET t == [s EXCEPT !.code = Str(e.code)] IN IF live THEN [x |-> Ok(FShow(t)), s |-> t] ELSE [x |-> [k |-> "any"], s |-> t]
           \* only the content changes; size, serialisation and identifier are those of the last refill
           [] e.op = "se.set" -> IF ~ live THEN Either
                                 ELSE LET t == [s EXCEPT !.cur[1].ked = With(s.cur[1].ked, e.at, JParse(e.val).v)] IN [x |-> Ok(FShow(t)), s |-> t]
           [] e.op = "se.raw" -> LET p == Sniff(e.in) IN
                                 IF InhaleOpen(e.in) THEN [x |-> [k |-> "any"], s |-> [s EXCEPT !.cur = << >>]]
                                 ELSE Refill(IF IsOk(p) THEN Inhale(e.in, s.code, p.v.ident) ELSE Err)
           [] e.op = "se.ked" -> Refill(Whole(Parsed(e), e.kind))
           [] e.op = "se.self" -> IF ~ live THEN Either ELSE Refill(Whole(s.cur[1].ked, <<e.kind>>))
           \* a copy is what was copied, whatever code was asked for
           [] e.op = "se.copy" -> IF ~ live THEN Either
                                  ELSE IF s.cur[1].ident = Ident([as |-> s.as]) THEN [x |-> Ok(FShow(s)), s |-> s] ELSE [x |-> Err, s |-> s]
           [] e.op = "se.says" -> IF ~ live THEN Either
                                  ELSE [x |-> [k |-> "rec", v |-> (IF s.as = "creder" THEN CredSays(s.cur[1].ked) ELSE EventSays(s.cur[1].ked)) @@
                                                    [pretty |-> Ok(CutAt(Indented(s.cur[1].ked, 0), 1024))]], s |-> s]

\* an event under edit, with the prefix derived from it: [doc, pre]
EventSession == {"pe.open", "pe.pre", "pe.set", "pe.del", "pe.ver"}
EventStep(e, s) ==
    CASE e.op = "pe.open" -> [x |-> Ok(JPrint(Parsed(e))), s |-> [doc |-> Parsed(e), pre |-> << >>]]
      [] e.op = "pe.pre" -> LET r == PrefixOf(s.doc, OptS(e.code), << >>) IN
                            IF IsOk(r) THEN [x |-> Ok(MObs(r.v)), s |-> [doc |-> Filled(s.doc, r.v), pre |-> <<r.v>>]] ELSE [x |-> Err, s |-> s]
      [] e.op = "pe.set" -> LET v == With(s.doc, e.at, JParse(e.val).v) IN [x |-> Ok(JPrint(v)), s |-> [s EXCEPT !.doc = v]]
      [] e.op = "pe.del" -> LET v == Without(s.doc, {e.at}) IN [x |-> Ok(JPrint(v)), s |-> [s EXCEPT !.doc = v]]
      [] e.op = "pe.ver" -> [x |-> IF s.pre = << >> THEN Err ELSE LET m == AlteredId("Prefixer", e, s.pre[1]) IN
                                   IF IsOk(m) /\ PrefixOpen(m.v, s.doc) THEN [k |-> "any"]
                                   ELSE Ok(IsOk(m) /\ PrefixVerifies(m.v, s.doc, e.prefixed # << >> /\ e.prefixed[1])), s |-> s]
=============================================================================
