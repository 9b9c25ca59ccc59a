----------------------------- MODULE FileFlowObs ----------------------------
(***************************************************************************)
(* States of the file system observed after runs of the real command that  *)
(* were killed or had a failing operation, read from obs.json and checked  *)
(* against the properties of FileFlow.                                     *)
(***************************************************************************)
EXTENDS FileFlow

Obs == JsonDeserialize("obs.json")
VARIABLE o
ObsInit == /\ o \in 1..Len(Obs)
           /\ files = Obs[o].files /\ opts = Obs[o].opts /\ fs = Obs[o].fs /\ init = Obs[o].init
           /\ pc = Obs[o].pc /\ i = 1 /\ todo = <<>> /\ out = <<>> /\ done = <<>> /\ bad = {} /\ calls = <<>> /\ faults = <<>>
ObsSpec == ObsInit /\ [][UNCHANGED <<vars, o>>]_<<vars, o>>
\* what existed and does not belong to the run is intact (a killed run may leave temporary files)
Others == \A p \in DOMAIN init \ Touchable : Has(fs, p) /\ fs[p] = init[p]
\* a run that reports success left every result complete
Success == (pc = "end" /\ Obs[o].exit = 0) => \A j \in 1..Len(files) : Written(j) => Complete(j, fs)
Report == LET v == (IF NoLoss THEN {} ELSE {"a source is lost"}) \cup (IF Others THEN {} ELSE {"another file is altered"})
                   \cup (IF Success THEN {} ELSE {"failure not reported"})
          IN PrintT(<<"@@", ToJson([o |-> o, v |-> SeqOf(v)])>>)
=============================================================================
