------------------------------ MODULE Threshold ------------------------------
(***************************************************************************)
(* Signing thresholds.                                                     *)
(*                                                                         *)
(* A threshold is [w |-> FALSE, n |-> N] (N signers) or                    *)
(* [w |-> TRUE, c |-> clauses], a clause being a sequence of reduced       *)
(* weights <<n, d>>.  Clauses cover consecutive ranges of positions.       *)
(***************************************************************************)
EXTENDS Doc, Typed

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>

\* exact sums of rationals, numerator and denominator as big numbers
RECURSIVE SumR(_, _, _)
SumR(ws, i, acc) ==
    IF i > Len(ws) THEN acc
    ELSE LET n == BnOfInt(ws[i][1])  d == BnOfInt(ws[i][2]) IN
         SumR(ws, i + 1, IF n = << >> THEN acc
                         ELSE IF acc[2] = d THEN <<BnAdd(acc[1], n), d>>
                         ELSE <<BnAdd(BnMul(acc[1], d), BnMul(n, acc[2])), BnMul(acc[2], d)>>)
ReachesOne(ws) == LET s == SumR(ws, 1, << << >>, <<1>> >>) IN ~ BnLt(s[1], s[2])

\* -------------------------------------------------------------- satisfaction
\* signed: a set of positions
Offset(c, j) == LET lens == [i \in 1 .. j - 1 |-> Len(c[i])]
                    RECURSIVE Sum(_)
                    Sum(i) == IF i = 0 THEN 0 ELSE lens[i] + Sum(i - 1)
                IN Sum(j - 1)
Signed(c, j, signed) == SelectSeq(Tup([i \in 1 .. Len(c[j]) |-> IF (Offset(c, j) + i - 1) \in signed THEN c[j][i] ELSE <<0, 1>>]),
                                  LAMBDA w : w[1] # 0)
Satisfied(t, signed) ==
    IF t.w THEN \A j \in 1 .. Len(t.c) : ReachesOne(Signed(t.c, j, signed))
    ELSE t.n > 0 /\ Cardinality(signed) >= t.n
Listed(t) == IF t.w THEN Offset(t.c, Len(t.c) + 1) ELSE t.n

\* --------------------------------------------------------------- well-formed
\* one weight text: 0, 1 or n/d with 0 <= n <= d, d > 0, both within 31 bits
AllDigits(s) == s # << >> /\ AllIn(s, Digits)
Part(s) == LET v == DecBn(s) IN IF AllDigits(s) /\ BnSmall(v) THEN Ok(BnInt(v)) ELSE Err
Weight(s) ==
    IF s = <<48>> THEN Ok(<<0, 1>>) ELSE IF s = <<49>> THEN Ok(<<1, 1>>)
    ELSE LET p == Split(s, 47) IN
         IF Len(p) # 2 THEN Err
         ELSE LET n == Part(p[1])  d == Part(p[2]) IN
              IF ~ IsOk(n) \/ ~ IsOk(d) THEN Err
              ELSE IF d.v = 0 \/ n.v > d.v THEN Err
              ELSE Ok(Reduced(n.v, d.v))
\* left open: parts outside 31 bits, an explicit plus sign, a negative zero; never a negative weight
Signless(s) == IF s # << >> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Negative(s) == s # << >> /\ s[1] = 45 /\ AllDigits(Signless(s)) /\ DecBn(Signless(s)) # << >>
WeightOpen(s) == LET p == Split(s, 47) IN
    /\ Len(p) = 2
    /\ \A i \in {1, 2} : ~ Negative(p[i])
    /\ \E i \in {1, 2} : LET q == Signless(p[i]) IN AllDigits(q) /\ (q # p[i] \/ ~ BnSmall(DecBn(q)))
\* clauses: sequence of sequences of weight texts
Weighted(cs) ==
    IF cs = << >> THEN Err
    ELSE LET ws == Tup([j \in 1 .. Len(cs) |-> Tup([i \in 1 .. Len(cs[j]) |-> Weight(cs[j][i])])]) IN
         IF \E j \in 1 .. Len(ws) : \E i \in 1 .. Len(ws[j]) : ~ IsOk(ws[j][i]) THEN Err
         ELSE LET c == Tup([j \in 1 .. Len(ws) |-> Tup([i \in 1 .. Len(ws[j]) |-> ws[j][i].v])]) IN
              IF \A j \in 1 .. Len(c) : ReachesOne(c[j]) THEN Ok([w |-> TRUE, c |-> c]) ELSE Err
Unweighted(bn) == IF Len(bn) <= 3 \/ (Len(bn) = 4 /\ bn[1] < 128) THEN Ok([w |-> FALSE, n |-> BnInt(bn)]) ELSE Err
CountOpen(bn) == Len(bn) = 4 /\ bn[1] >= 128           \* 32 bits but beyond TLC's integers

\* ---------------------------------------------------------------- the forms
TextsOf(a) == Tup([i \in 1 .. Len(a) |-> IF IsStr(a[i]) THEN a[i].s ELSE << >>])   \* a text that is no weight where there is none
Nested(v) == Tup([j \in 1 .. Len(v.a) |-> TextsOf(v.a[j].a)])
\* lists of clauses only
OfLists(v) == IF ~ IsArr(v) \/ \E j \in 1 .. Len(v.a) : ~ IsArr(v.a[j]) THEN Err ELSE Weighted(Nested(v))
\* a list of weights is one clause
OfArray(v) == IF v.a = << >> THEN Err
              ELSE IF \A j \in 1 .. Len(v.a) : IsArr(v.a[j]) THEN OfLists(v)
              ELSE IF \E j \in 1 .. Len(v.a) : ~ IsStr(v.a[j]) THEN Err
              ELSE Weighted(<<TextsOf(v.a)>>)
OfInt(n) == IF n[1] = 45 THEN Err ELSE Unweighted(DecBn(n))
FromSith(v) ==
    CASE v.t = "int" -> OfInt(v.n)
      [] v.t = "str" -> IF v.s # << >> /\ v.s[1] = 91
                        THEN LET x == JParse(v.s) IN IF IsOk(x) /\ IsArr(x.v) THEN OfArray(x.v) ELSE Err
                        ELSE IF HexOk(v.s) THEN Unweighted(HexBn(v.s)) ELSE Err
      [] v.t = "arr" -> OfArray(v)
      [] OTHER -> Err
FromThold(v) == IF v.t = "int" THEN OfInt(v.n) ELSE OfLists(v)
\* encoded: a number, or weights as text with s for /, c between weights and a between clauses
LimenParts(m) == LET cs == Split(Bext(m), 97)
                     ts == Tup([j \in 1 .. Len(cs) |-> Split(cs[j], 99)])
                 IN Tup([j \in 1 .. Len(ts) |-> Tup([i \in 1 .. Len(ts[j]) |->
                        Tup([x \in 1 .. Len(ts[j][i]) |-> IF ts[j][i][x] = 115 THEN 47 ELSE ts[j][i][x]])])])
FromLimen(t) ==
    LET n == TypedParse("Number", "qb64b", t)  b == TypedParse("Bexter", "qb64b", t) IN
    IF IsOk(n) THEN Unweighted(NumVal(n.v))
    ELSE IF IsOk(b) THEN Weighted(LimenParts(b.v))
    ELSE Err
\* what the specification leaves open in a document
RECURSIVE Open(_)
Open(v) == CASE v.t = "arr" -> \E i \in 1 .. Len(v.a) : Open(v.a[i])
             [] v.t = "str" -> \/ WeightOpen(v.s)
                               \/ v.s # << >> /\ v.s[1] = 91 /\ (LET x == JParse(v.s) IN IsOk(x) /\ IsArr(x.v) /\ Open(x.v))
                               \/ v.s # << >> /\ v.s[1] \in {43, 45} /\ HexOk(Tail(v.s))
                               \/ HexOk(v.s) /\ CountOpen(HexBn(v.s))
             [] v.t = "int" -> v.n[1] # 45 /\ CountOpen(DecBn(v.n))
             [] OTHER -> FALSE
LimenOpen(t) == LET n == TypedParse("Number", "qb64b", t)  b == TypedParse("Bexter", "qb64b", t) IN
    IF IsOk(n) THEN CountOpen(NumVal(n.v))
    ELSE IsOk(b) /\ LET p == LimenParts(b.v) IN \E j \in 1 .. Len(p) : \E i \in 1 .. Len(p[j]) : WeightOpen(p[j][i])

\* --------------------------------------------------------- re-exported forms
WeightText(w, slash) == IF w[2] = 1 THEN DecInt(w[1]) ELSE DecInt(w[1]) \o slash \o DecInt(w[2])
ClauseDoc(c) == JArr(Tup([i \in 1 .. Len(c) |-> JStr(WeightText(c[i], <<47>>))]))
TholdDoc(t) == IF t.w THEN JArr(Tup([j \in 1 .. Len(t.c) |-> ClauseDoc(t.c[j])])) ELSE JInt(DecInt(t.n))
SithDoc(t) == IF ~ t.w THEN JStr(HexInt(t.n)) ELSE IF Len(t.c) = 1 THEN ClauseDoc(t.c[1]) ELSE TholdDoc(t)
LimenText(t) ==
    IF ~ t.w THEN MatterText(NumberOf(BnOfInt(t.n)).v)
    ELSE MatterText(BexterOf("4A", Join(Tup([j \in 1 .. Len(t.c) |->
                        Join(Tup([i \in 1 .. Len(t.c[j]) |-> WeightText(t.c[j][i], <<115>>)]), <<99>>)]), <<97>>)).v)
=============================================================================
