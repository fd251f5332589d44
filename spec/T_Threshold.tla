----------------------------- MODULE T_Threshold -----------------------------
EXTENDS Threshold, T_Sign

Parsed(e) == JParse(e.doc).v          \* scripts carry well-formed JSON
ThFrom(e) == CASE e.form = "sith" -> FromSith(Parsed(e))
               [] e.form = "thold" -> FromThold(Parsed(e))
               [] e.form = "limen" -> FromLimen(e.limen)
ThOpen(e) == IF e.form = "limen" THEN LimenOpen(e.limen) ELSE Open(Parsed(e))
ThObs(t) == [weighted |-> t.w, size |-> BnOfInt(Listed(t)), num |-> IF t.w THEN << >> ELSE <<BnOfInt(t.n)>>,
             thold |-> JPrint(TholdDoc(t)), sith |-> JPrint(SithDoc(t)), json |-> JPrint(SithDoc(t)), limen |-> LimenText(t)]
\* every form handed back is a threshold of the same meaning
ThAll(t) == LET o == ThObs(t) IN o @@ [again |-> [sith |-> Ok(o), thold |-> Ok(o), limen |-> Ok(o), json |-> Ok(o)]]
ThOps == {"th.new", "th.sat", "th.many"}
\* positions beyond TLC's integers become distinct negative ones
Pos(b) == IF BnSmall(b) THEN BnInt(b) ELSE (0 - BnInt(<<b[1] - 128>> \o Tail(b))) - 1
PosSet(s) == {Pos(s[i]) : i \in 1 .. Len(s)}
ThExpect(e) ==
    LET open == ThOpen(e)  r == ThFrom(e) IN
    CASE e.op = "th.new" -> IF open THEN [k |-> "any"] ELSE Map(ThAll, r)
      [] e.op = "th.sat" -> IF open THEN [k |-> "any"] ELSE IF IsOk(r) THEN Ok(Satisfied(r.v, PosSet(e.idx))) ELSE Err
      \* many lists against one threshold
      [] e.op = "th.many" -> IF open THEN [k |-> "any"]
                             ELSE IF IsOk(r) THEN Ok(Tup([i \in 1 .. Len(e.idx) |-> Satisfied(r.v, PosSet(e.idx[i]))])) ELSE Err
=============================================================================
