------------------------------- MODULE MC_Hold -------------------------------
(* An event held as an object and refilled: every short history of edits,      *)
(* refills from its own content, from other content and from a buffer, copies. *)
EXTENDS T_Event, Json, IOUtils
VARIABLES st, hist
vars == <<st, hist>>
Full == IOEnv.FULL = "1"
Depth == IF Full THEN 4 ELSE 3
Out(x) == PrintT("OP " \o ToJson(x))
Said0(c, n) == MatterText([code |-> c, size |-> 0, raw |-> Rep(n, IF c = "0G" THEN 64 ELSE 32)])
\* the stated size is wrong to begin with
Doc0(ident, c, n, x) == JObj(<<JF(LV, JStr(ident \o B("10JSON0000ff_"))), JF(LD, JStr(Said0(c, n))), JF(LI, JStr(B("i"))), JF(B("x"), x)>>)
Opened == {[op |-> "se.open", new |-> TRUE, as |-> a, code |-> << >>, doc |-> JPrint(Doc0(IF a = "creder" THEN B("ACDC") ELSE B("KERI"), "E", 1, JStr(<< >>)))] : a \in {"serder", "creder"}}
Long == JStr(Rep(120, 300))
Sets == {<<B("x"), JStr(B("y"))>>, <<B("x"), Long>>, <<LD, JStr(Said0("E", 2))>>, <<LD, JStr(Said0("0G", 2))>>, <<LD, JNull>>,
         <<LV, JStr(B("ACDC10JSON000000_"))>>, <<LV, JStr(B("KERI20JSON000000_"))>>, <<LI, JStr(B("j"))>>, <<B("new"), JArr(<<Long>>)>>}
Buffer(ident, c, tail) == LET z == Exhale(Doc0(ident, c, 5, Long), << >>, c, ident) IN z.v.raw \o tail
Steps == {[op |-> "se.set", at |-> p[1], val |-> JPrint(p[2])] : p \in Sets}
    \cup {[op |-> "se.self", kind |-> B("JSON")], [op |-> "se.self", kind |-> B("CBOR")], [op |-> "se.code", code |-> B("0G")], [op |-> "se.says"],
          [op |-> "se.copy", code |-> <<B("0G")>>, kind |-> << >>]}
    \cup {[op |-> "se.ked", doc |-> JPrint(Doc0(i, c, 3, JNull)), kind |-> << >>] : i \in {B("KERI"), B("ACDC")}, c \in {"E", "0G"}}
    \cup {[op |-> "se.raw", in |-> Buffer(B("KERI"), c, t)] : c \in {"E", "0G"}, t \in {<< >>, B("-AAB"), B("{}")}}
    \cup {[op |-> "se.raw", in |-> LET b == Buffer(B("KERI"), "E", << >>) IN Take(b, Len(b) - 1)]}
Init == \E e \in Opened : hist = <<e>> /\ st = FrameStep(e, << >>).s
Next == /\ Len(hist) <= Depth
        /\ \E e \in Steps : hist' = Append(hist, e) /\ st' = FrameStep(e, st).s
        /\ Len(hist') = Depth + 1 => Out(hist')
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
Live == st.cur # << >>
\* after a refill the serialisation is the content's own, states its size, and names the content
Whole == LET f == st.cur[1] IN
    /\ JParse(f.raw) = Ok(f.ked) /\ f.size = Len(f.raw)
    /\ LET p == Deversify(StrOf(f.ked, LV).v) IN IsOk(p) /\ p.v.size = Len(f.raw) /\ p.v.ident = f.ident /\ p.v.major = 1 /\ p.v.minor = 0
    /\ StrOf(f.ked, LD) = Ok(MatterText(f.said)) /\ f.said.code = st.code
    \* and is read back as itself, whatever follows
    /\ Inhale(f.raw \o <<120, 255>>, st.code, f.ident) = Ok(Framed(f.raw, f.ked, f.ident, f.said))
    \* refilling it from itself changes nothing
    /\ FrameStep([op |-> "se.self", kind |-> B("JSON")], st).s = st
Refilled == Live /\ Last.op \in {"se.self", "se.ked", "se.raw"} => Whole
\* an edit leaves the serialisation, the size and the identifier
Apart == Len(hist) > 1 /\ Live /\ Last.op \in {"se.set", "se.code", "se.copy", "se.says"} =>
    LET f == st.cur[1] IN f.size = Len(f.raw) /\ IsOk(JParse(f.raw)) /\ StrOf(JParse(f.raw).v, LD) = Ok(MatterText(f.said))
=============================================================================
