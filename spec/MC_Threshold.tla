---------------------------- MODULE MC_Threshold ----------------------------
(* Signatures arriving one by one (again, out of order, from nowhere) against *)
(* every small threshold, and every form a threshold can take.                *)
EXTENDS Threshold, Json, IOUtils
VARIABLES th, arrived, sat, stage
vars == <<th, arrived, sat, stage>>
Full == IOEnv.FULL = "1"
Wts == IF Full THEN {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 3>>, <<1, 4>>, <<3, 4>>, <<1, 5>>, <<2, 5>>, <<1, 6>>} 
      ELSE {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 3>>, <<1, 4>>}
Small == IF Full THEN {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 3>>} ELSE {<<0, 1>>, <<1, 1>>, <<1, 2>>}
Tuples(S, n) == {Tup(f) : f \in [1 .. n -> S]}
One == {<<c>> : c \in UNION {Tuples(Wts, n) : n \in 1 .. 3}}
TwoOf(n) == UNION {Tuples(Small, m) : m \in 1 .. n}
Twos == {<<c, d>> : c \in TwoOf(2), d \in TwoOf(2)}
Threes == IF Full THEN {<<c, d, e>> : c \in TwoOf(1), d \in TwoOf(2), e \in TwoOf(1)} ELSE {<< <<<<1, 1>>>>, c, <<<<1, 1>>>> >> : c \in TwoOf(2)}
Thresholds == {[w |-> FALSE, n |-> n] : n \in 0 .. 5} \cup
              {[w |-> TRUE, c |-> c] : c \in {x \in One \cup Twos \cup Threes : \A j \in 1 .. Len(x) : ReachesOne(x[j])}}
MaxArr == IF Full THEN 4 ELSE 3
Out(x) == PrintT("OP " \o ToJson(x))
Limits(t) == IF t.w THEN Listed(t) + 1 ELSE 5
SithText(t) == JPrint(SithDoc(t))
Init == th \in Thresholds /\ arrived = << >> /\ sat = Satisfied(th, {}) /\ stage = "set"
Sign(i) == /\ stage = "set" /\ Len(arrived) < MaxArr
           /\ arrived' = Append(arrived, i)
           /\ sat' = Satisfied(th, {arrived'[j] : j \in 1 .. Len(arrived')})
           /\ Out([op |-> "th.sat", form |-> "sith", doc |-> SithText(th), idx |-> Tup([j \in 1 .. Len(arrived') |-> BnOfInt(arrived'[j])])])
           /\ UNCHANGED <<th, stage>>
\* hand the threshold over in one of its forms
Hand(form) == /\ stage = "set" /\ arrived = << >>
              /\ stage' = form
              /\ Out(IF form = "limen" THEN [op |-> "th.new", form |-> form, limen |-> LimenText(th)]
                     ELSE [op |-> "th.new", form |-> IF form = "text" THEN "sith" ELSE form,
                           doc |-> JPrint(CASE form = "sith" -> SithDoc(th) [] form = "thold" -> TholdDoc(th)
                                             [] form = "text" -> IF th.w THEN JStr(SithText(th)) ELSE SithDoc(th))])
              /\ UNCHANGED <<th, arrived, sat>>
Next == (\E i \in 0 .. Limits(th) : Sign(i)) \/ (\E f \in {"sith", "thold", "limen", "text"} : Hand(f))
Spec == Init /\ [][Next]_vars
SetOf(s) == {s[j] : j \in 1 .. Len(s)}
\* all weights here are sixtieths
Sixtieth(w) == (60 \div w[2]) * w[1]
RECURSIVE Plus(_, _)
Plus(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Plus(f, S \ {x})
Exactly == sat = IF ~ th.w THEN th.n > 0 /\ Cardinality(SetOf(arrived)) >= th.n
                 ELSE \A j \in 1 .. Len(th.c) :
                        LET o == Offset(th.c, j)
                            here == {i \in 1 .. Len(th.c[j]) : (o + i - 1) \in SetOf(arrived)}
                        IN Plus([i \in 1 .. Len(th.c[j]) |-> Sixtieth(th.c[j][i])], here) >= 60
\* more signatures never hurt; one that was there already, or from outside a weighted list, never helps
Monotone == [][sat => sat']_vars
NoHelp == [][(arrived' # arrived /\ LET i == arrived'[Len(arrived')] IN i \in SetOf(arrived) \/ (th.w /\ i >= Listed(th))) => sat' = sat]_vars
Never == arrived = << >> => ~ sat
\* nobody is locked out: everyone together satisfies any threshold above zero
All == (th.w \/ th.n > 0) => Satisfied(th, 0 .. Listed(th) - 1)
Forms == (arrived = << >>) =>
         /\ FromSith(SithDoc(th)) = Ok(th)
         /\ FromThold(TholdDoc(th)) = Ok(th)
         /\ FromLimen(LimenText(th)) = Ok(th)
         /\ (th.w => FromSith(JStr(SithText(th))) = Ok(th))
=============================================================================
