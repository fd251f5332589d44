-------------------------------- MODULE Calls --------------------------------
(* Every public call: its expectation, as a function of its arguments alone    *)
(* (and, for the steps of a session, of what the session has built up).        *)
EXTENDS T_Reader

\* the expectation for a call, and the session's next state
Plain(x, s) == [x |-> x, s |-> s]
RECURSIVE Step(_, _)
Step(e, s) == CASE e.op = "w.call" -> Step([e EXCEPT !.op = e.real], s)
                [] e.op \in CodecOps -> Plain(CodecExpect(e), s)
                [] e.op \in TypedOps -> Plain(TypedExpect(e), s)
                [] e.op \in SignOps -> Plain(SignExpect(e), s)
                [] e.op \in ThOps -> Plain(ThExpect(e), s)
                [] e.op \in SadOps -> Plain(SadExpect(e), s)
                [] e.op \in SadSession -> SadStep(e, s)
                [] e.op \in DocOps -> Plain(DocExpect(e), s)
                [] e.op \in DocSession -> DocStep(e, s)
                [] e.op \in EventOps -> Plain(EventExpect(e), s)
                [] e.op \in EventSession -> EventStep(e, s)
                [] e.op \in FrameSession -> FrameStep(e, s)
                [] e.op \in SlOps -> Plain(SlExpect(e), s)
                [] e.op \in SlSession -> SlStep(e, s)
                [] e.op \in KlSession -> KlStep(e, s)
                [] e.op \in KwSession -> KwStep(e, s)
                [] e.op \in KcSession -> KcStep(e, s)
                [] e.op \in FrSession -> FrStep(e, s)
                [] e.op \in AnyOps -> Plain(AnyExpect(e), s)
                [] e.op \in WasmOps -> Plain(WasmExpect(e), s)
                [] e.op \in RdOps -> Plain(RdExpect(e), s)
                [] e.op \in RdSession -> RdStep(e, s)
                [] e.op \in StreamOps -> StreamStep(e, s)

=============================================================================
