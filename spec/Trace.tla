------------------------------- MODULE Trace --------------------------------
(* Trace validation.  A log holds cases; a case is a start state and a list   *)
(* of events; event l starts from the start state (b = 0) or from the state   *)
(* event b left behind.  Every event has to be a step of the specification    *)
(* as far as property PROP is concerned; the others are reported.             *)
EXTENDS Judge, Json, IOUtils

Prop == IOEnv.PROP
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l
vars == <<c, l>>

Report(k, f) == IF f = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<Cases[c].id, k, SetToSeq(f)>>))
Base(k) == LET b == Cases[c].evs[k].b IN IF b = 0 THEN Cases[c].pre ELSE Cases[c].evs[b].post

Init == /\ c \in 1..Len(Cases)
        /\ l = 0
Start == /\ l = 0
         /\ Report(0, StartFaults(Prop, Cases[c].pre))
Consume == /\ l < Len(Cases[c].evs)
           /\ l = 0 => Start
           /\ Report(l + 1, Faults(Prop, Base(l + 1), Cases[c].evs[l + 1]))
           /\ l' = l + 1
           /\ UNCHANGED c
Next == Consume
Spec == Init /\ [][Next]_vars
=============================================================================
