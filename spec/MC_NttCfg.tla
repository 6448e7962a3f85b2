------------------------------ MODULE MC_NttCfg ------------------------------
(***************************************************************************)
(* The configuration of the transform contract: set at deployment, changed *)
(* by update until make_immutable, never after.  Configurations are        *)
(* symbolic; Emit prints every behaviour for replay on the real contract.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cfgs, MaxOps, Emit
VARIABLES cfg, lock, ops, first
vars == <<cfg, lock, ops, first>>
Init == cfg \in Cfgs /\ lock = FALSE /\ ops = <<<<"new", cfg>>>> /\ first = 0
Do(o, c) == ops' = Append(ops, <<o, c>>)
Update(c) == /\ Do("update", c) /\ cfg' = (IF lock THEN cfg ELSE c) /\ UNCHANGED <<lock, first>>
Lock == /\ Do("lock", 0) /\ lock' = TRUE /\ first' = (IF lock THEN first ELSE Len(ops)) /\ UNCHANGED cfg
Use == /\ Do("use", cfg) /\ UNCHANGED <<cfg, lock, first>>
Next == /\ Len(ops) < MaxOps
        /\ (Lock \/ Use \/ \E c \in Cfgs : Update(c))
        /\ (Emit /\ Len(ops') = MaxOps => PrintT("BEHAV " \o ToJson(ops')))
\* the configuration in force is the last one set before the first lock
LastSet(k) == CHOOSE i \in 1..k : /\ ops[i][1] \in {"new", "update"}
                                  /\ \A j \in (i + 1)..k : ops[j][1] \notin {"new", "update"}
InForce == LET k == IF lock THEN first ELSE Len(ops) IN cfg = ops[LastSet(k)][2]
Frozen == lock => \A i \in (first + 1)..Len(ops) : ops[i][1] = "use" => ops[i][2] = cfg
=============================================================================
