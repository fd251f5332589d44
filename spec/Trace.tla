------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates a recorded execution of the library, one public call per      *)
(* step, against the specification.  A call whose outcome the              *)
(* specification does not allow is reported (REJECT) and stepped over, so  *)
(* that the rest of the trace is checked too.                              *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad,
          st          \* what a session has built up so far

\* What an expectation admits.  "any": a value or an error, but nothing worse; "maybe": this value
\* or an error; "rec": a value field by field.
RECURSIVE Accept(_, _)
Accept(r, x) == CASE x.k = "any" -> r.k \in {"ok", "err"}
                  [] x.k = "maybe" -> r.k = "err" \/ (r.k = "ok" /\ r.v = x.v)
                  [] x.k = "oneof" -> r \in x.v
                  [] x.k = "holds" -> x.p
                  [] x.k = "rec" -> r.k = "ok" /\ \A f \in DOMAIN x.v : Accept(r.v[f], x.v[f])
                  [] OTHER -> r = x

\* Totality: whatever is asked and with whatever arguments, the outcome is a value or an error
\* (calls that cannot be made, such as text that is not UTF-8, are skipped by the driver).
Total == "TOTAL" \in DOMAIN IOEnv
Outcomes == {"ok", "err", "skip"}

Init == l = 1 /\ bad = 0 /\ st = << >>
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET e == Log[l]
               y == IF Total THEN Plain([k |-> "any"], st) ELSE TLCEval(Step(e, st))
           IN /\ st' = y.s
              /\ IF (IF Total THEN e.r.k \in Outcomes ELSE Accept(e.r, y.x)) THEN bad' = bad
                 ELSE bad' = bad + 1 /\ PrintT("REJECT " \o ToString(l) \o " " \o ToJson(y.x))
Spec == Init /\ [][Next]_<<l, bad, st>>
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
