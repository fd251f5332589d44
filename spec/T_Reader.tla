------------------------------ MODULE T_Reader ------------------------------
EXTENDS Reader, T_Any

LookObs(kind, r) == IF IsOk(r) THEN Ok(WObs(AsItem(kind, r.v))) ELSE r
RdOps == {"rd.look"}
RdExpect(e) == LookObs(e.kind, Look(e.kind, e.via, e.in))

RdSession == {"rd.open", "rd.feed"}
RdObs(y, state) == [k |-> "rec", v |-> [items |-> Ok(Tup([i \in 1 .. Len(y.got) |-> WObs(y.got[i])])),
                                        held |-> Ok(BnOfInt(Len(y.s.buf))), state |-> state]]
RdStep(e, s) ==
    CASE e.op = "rd.open" -> [x |-> Ok(<< >>), s |-> [via |-> e.via, auto |-> e.auto, ctx |-> e.kinds, buf |-> << >>, state |-> "open"]]
      [] e.op = "rd.feed" ->
           LET y == Feed(s, e.in) IN
           IF y.s.state # "unsure" THEN [x |-> RdObs(y, Ok(B(y.s.state))), s |-> y.s]
           \* where it is open, go on from what was said
           ELSE [x |-> RdObs(y, [k |-> "oneof", v |-> {Ok(B("open")), Ok(B("dropped"))}]),
                 s |-> [y.s EXCEPT !.state = IF IsOk(e.r) /\ e.r.v.state = Ok(B("dropped")) THEN "dropped" ELSE "open"]]
=============================================================================
