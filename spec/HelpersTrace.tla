------------------------------ MODULE HelpersTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions against Helpers: every event of every trace is  *)
(* consumed by the specification's own transition, and every clause its    *)
(* answer breaks is reported (@@BAD), as is the end of each trace (@@END), *)
(* so that the verdict on every trace is explicit.                         *)
(***************************************************************************)
EXTENDS Helpers, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, w

Init == t \in 1..Len(Traces) /\ l = 1 /\ w = InitHelpers

Report(bad, e) ==
  \A b \in bad : PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, op |-> e.op, tags |-> b.tags, clause |-> b.clause]))

Next ==
  /\ l <= Len(Traces[t])
  /\ LET e   == Traces[t][l]
         bad == HJudge(w, e)
     IN /\ Report(bad, e)
        /\ w' = HStep(w, e)
  /\ l' = l + 1
  /\ UNCHANGED t
  /\ IF l = Len(Traces[t]) THEN PrintT("@@END " \o ToString(t)) ELSE TRUE

Spec == Init /\ [][Next]_<<t, l, w>>
=============================================================================
