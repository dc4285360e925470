-------------------------------- MODULE Gen ---------------------------------
(* Writes all small trees as inputs for the harness.                          *)
EXTENDS Small, Json, IOUtils

N == ToNat(IOEnv.GEN_N)
M == ToNat(IOEnv.GEN_M)
VARIABLE done
Init == done = FALSE
Next == /\ ~ done
        /\ LET T == SetToSeq(SmallTrees(N, M))
           IN ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN T |-> Desc(T[i])])
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
