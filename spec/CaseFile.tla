------------------------------ MODULE CaseFile ------------------------------
(* The recorded cases and what was precomputed from them. TLC re-evaluates   *)
(* most constant definitions at every use; registers keep them.              *)
(* Register 1: the cases, 2: the aspect, 3...: per module.                   *)
(* TLC brings records and sets into their normal form when they are first    *)
(* compared, in place; registers are shared by all workers, so Settled has   *)
(* that done for a whole register before there are any workers.              *)
EXTENDS TLC, Json, IOUtils
Settled(n) == TLCGet(n) = TLCGet(n)
ASSUME /\ TLCSet(1, JsonDeserialize(IOEnv.VP_CASES))
       /\ Settled(1)
       /\ TLCSet(2, IF "VP_ASPECT" \in DOMAIN IOEnv THEN IOEnv.VP_ASPECT ELSE "")
Cases == TLCGet(1)
ASPECT == TLCGet(2)
=============================================================================
