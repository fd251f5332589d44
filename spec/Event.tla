-------------------------------- MODULE Event --------------------------------
(***************************************************************************)
(* What key events and credentials say: identifier prefixes, paths into a  *)
(* document, and the fields accessors report.                              *)
(***************************************************************************)
EXTENDS Sad, Threshold

\* ------------------------------------------------------- identifier prefixes
LI == B("i")  LT == B("t")  LK == B("k")  LN == B("n")  LB == B("b")  LA == B("a")
Incepting == {B("icp"), B("dip"), B("vcp")}
FixedCodes == {"B", "1AAA", "1AAI"}         \* basic, non-transferable
RotableCodes == {"D", "1AAB", "1AAJ"}       \* basic, transferable
Incepts(v) == LET t == StrOf(v, LT) IN IsOk(t) /\ t.v \in Incepting
\* the only key listed
SoleKey(v) == IF ~ HasField(v, LK) THEN Err
              ELSE LET k == FieldOf(v, LK) IN IF IsArr(k) /\ Len(k.a) = 1 THEN (IF IsStr(k.a[1]) THEN Ok(k.a[1].s) ELSE Err) ELSE Err
Nothing(v, l) == HasField(v, l) => LET x == FieldOf(v, l) IN (IsArr(x) /\ x.a = << >>) \/ (IsStr(x) /\ x.s = << >>)
\* the event the digest is over: prefix and identifier blanked
BlankedEvent(v, code) == Sizeify(With(With(v, LI, JStr(Dummy(code))), LD, JStr(Dummy(code))), << >>)
DerivePrefix(v, code) ==
    IF ~ Incepts(v) \/ code \notin TypeCodes["Prefixer"] THEN Err
    ELSE IF code \in DigestCodes
    THEN LET z == BlankedEvent(v, code) IN
         IF IsOk(z) THEN Ok([code |-> code, size |-> 0, raw |-> HashBytes(code, z.v.raw)]) ELSE Err
    ELSE LET k == SoleKey(v)  m == IF IsOk(k) THEN TypedParse("Verfer", "qb64", k.v) ELSE Err IN
         IF ~ IsOk(m) THEN Err
         ELSE IF m.v.code # code THEN Err
         ELSE IF code \in FixedCodes /\ ~ (Nothing(v, LN) /\ Nothing(v, LB) /\ Nothing(v, LA)) THEN Err
         ELSE m
\* code << >>: that of the prefix the event has already; allows: codes, << >> for any
PrefixOf(v, code, allows) ==
    LET i == StrOf(v, LI)
        m == IF code # << >> THEN Ok([code |-> code[1]]) ELSE IF IsOk(i) THEN MatterParseText(i.v) ELSE Err
    IN IF ~ IsOk(m) \/ ~ IsObj(v) THEN Err
       ELSE IF allows # << >> /\ \A j \in 1 .. Len(allows) : allows[j] # m.v.code THEN Err
       ELSE DerivePrefix(v, m.v.code)
PrefixVerifies(p, v, prefixed) ==
    /\ Incepts(v)
    /\ IF p.code \in DigestCodes THEN DerivePrefix(v, p.code) = Ok(p)
       ELSE SoleKey(v) = Ok(MatterText(p)) /\ (p.code \in FixedCodes => Nothing(v, LN))
    /\ prefixed => StrOf(v, LI) = Ok(MatterText(p))
\* left open when verifying: witnesses or anchors on a non-transferable prefix, next keys that are neither list nor text
PrefixOpen(p, v) == /\ p.code \in FixedCodes
                    /\ \/ ~ Nothing(v, LB) \/ ~ Nothing(v, LA)
                       \/ HasField(v, LN) /\ ~ IsArr(FieldOf(v, LN)) /\ ~ IsStr(FieldOf(v, LN))

\* ---------------------------------------------------------------------- paths
\* the components of a path's text; -  is the empty path
PathParts(s) == IF s = << >> \/ s[1] # 45 THEN Err
                ELSE LET p == Split(Tail(s), 45) IN IF p[1] = << >> THEN Ok(<< >>) ELSE Ok(p)
PathText(p) == <<45>> \o Join(p, <<45>>)
\* left open: empty components
PathOpen(s) == s # << >> /\ s[1] = 45 /\ LET p == Split(Tail(s), 45) IN Len(p) > 1 /\ \E i \in 1 .. Len(p) : p[i] = << >>
\* from a list of labels and positions
PathOfList(v) ==
    IF ~ IsArr(v) THEN Err
    ELSE LET t == Tup([i \in 1 .. Len(v.a) |-> CASE v.a[i].t = "str" -> v.a[i].s [] v.a[i].t = "int" -> v.a[i].n [] OTHER -> <<0>>]) IN
         IF \E i \in 1 .. Len(t) : ~ IsB64(t[i]) THEN Err ELSE Ok(PathText(t))
\* labels that contain the separator, or are empty, mean something else once joined
ListOpen(v) == IsArr(v) /\ \E i \in 1 .. Len(v.a) : (IsStr(v.a[i]) /\ (v.a[i].s = << >> \/ IndexIn(45, v.a[i].s) # 0)) \/ (v.a[i].t = "int" /\ v.a[i].n[1] = 45)
Position(c) == AllDigits(c) /\ Len(DecBn(c)) <= 8
RECURSIVE Resolve(_, _)
Resolve(v, p) ==
    IF p = << >> THEN Ok(v)
    ELSE LET c == p[1]  pos == IF Position(c) /\ BnSmall(DecBn(c)) THEN BnInt(DecBn(c)) ELSE 2147483647 IN
         CASE v.t = "obj" -> IF Position(c) THEN (IF pos < Len(v.o) THEN Resolve(v.o[pos + 1].v, Tail(p)) ELSE Err)
                             ELSE IF HasField(v, c) THEN Resolve(FieldOf(v, c), Tail(p)) ELSE Err
           [] v.t = "arr" -> IF Position(c) /\ pos < Len(v.a) THEN Resolve(v.a[pos + 1], Tail(p)) ELSE Err
           [] OTHER -> Err
\* what a credential's path points to: a section, or the identifier of one
TailOf(v, p) == LET r == Resolve(v, p) IN
    IF ~ IsOk(r) THEN Err
    ELSE IF r.v.t \in {"arr", "obj"} THEN Ok(JPrint(r.v))
    ELSE IF IsStr(r.v) THEN (IF IsOk(TypedParse("Saider", "qb64", r.v.s)) THEN Ok(r.v.s) ELSE Err)
    ELSE Err
StripPath(p, root) == IF StartsWith(p, root) THEN Drop(p, Len(root)) ELSE p

\* ----------------------------------------------------------- indented printing
Spaces(n) == Rep(32, n)
RECURSIVE Indented(_, _)
Indented(v, n) ==
    CASE v.t = "arr" /\ v.a # << >> ->
           <<91, 10>> \o Join(Tup([i \in 1 .. Len(v.a) |-> Spaces(n + 2) \o Indented(v.a[i], n + 2)]), <<44, 10>>) \o <<10>> \o Spaces(n) \o <<93>>
      [] v.t = "obj" /\ v.o # << >> ->
           <<123, 10>> \o Join(Tup([i \in 1 .. Len(v.o) |-> Spaces(n + 2) \o JPrint(JStr(v.o[i].k)) \o <<58, 32>> \o Indented(v.o[i].v, n + 2)]), <<44, 10>>)
              \o <<10>> \o Spaces(n) \o <<125>>
      [] OTHER -> JPrint(v)
\* at most n bytes, no character cut apart
RECURSIVE CutAt(_, _)
CutAt(s, n) == IF n >= Len(s) THEN s ELSE IF s[n + 1] \in 128 .. 191 THEN CutAt(s, n - 1) ELSE Take(s, n)
=============================================================================
