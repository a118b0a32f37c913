------------------------------- MODULE Harness -------------------------------
(***************************************************************************)
(* Trace specification skeleton.  The recording is a sequence of blocks,   *)
(* each with a scenario description and a sequence of events.  Opening a   *)
(* block derives the scenario from its description (Prepare) and the       *)
(* initial abstract state (Start); each event is one step: Step(hctx, hst,   *)
(* ev) is the set-valued verdict of the specification action bound to the  *)
(* event together with the successor abstract state.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Prepare(_), Start(_, _), Step(_, _, _)
VARIABLES hb, he, hctx, hst, hn
vars == <<hb, he, hctx, hst, hn>>
Blocks == JsonDeserialize(IOEnv.TRACE)

RECURSIVE Join(_)
Join(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE
                                  IN IF S = {x} THEN x ELSE x \o "," \o Join(S \ {x})

Init == hb = 1 /\ he = 0 /\ hctx = <<>> /\ hst = <<>> /\ hn = 0

Open == /\ hb <= Len(Blocks) /\ he = 0
        /\ PrintT("AT|" \o ToString(hb))
        /\ \E c \in {TLCEval(Prepare(Blocks[hb]))} :
             /\ hctx' = c
             /\ hst' = TLCEval(Start(Blocks[hb], c))
        /\ he' = 1 /\ UNCHANGED <<hb, hn>>

Take == /\ hb <= Len(Blocks) /\ he >= 1 /\ he <= Len(Blocks[hb].ev)
        /\ \E r \in {TLCEval(Step(hctx, hst, Blocks[hb].ev[he]))} :
             /\ hst' = r.st
             /\ IF r.bad = {} THEN TRUE ELSE PrintT("FAIL|" \o ToString(hb) \o "|" \o ToString(he) \o "|" \o Join(r.bad))
        /\ he' = he + 1 /\ hn' = hn + 1 /\ UNCHANGED <<hb, hctx>>

Close == /\ hb <= Len(Blocks) /\ he > Len(Blocks[hb].ev)
         /\ hb' = hb + 1 /\ he' = 0 /\ hctx' = <<>> /\ hst' = <<>> /\ UNCHANGED hn
         /\ IF hb < Len(Blocks) THEN TRUE ELSE PrintT("DONE|" \o ToString(hb) \o "|" \o ToString(hn))

Next == Open \/ Take \/ Close
TSpec == Init /\ [][Next]_vars
TView == <<hb, he>>
=============================================================================
