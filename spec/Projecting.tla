----------------------------- MODULE Projecting ------------------------------
(* Projectivisation as a machine: one constituent is moved per step.          *)
EXTENDS TreeOps, Small

CONSTANTS MaxT, MaxN
VARIABLES start, t, seen
pvars == <<start, t, seen>>

Init == /\ start \in SmallTrees(MaxT, MaxN)
        /\ t = start
        /\ seen = {}
Move == \E s \in ProjSteps(start, t, seen) :
           /\ t' = Attach(t, s[2], s[1])
           /\ seen' = seen \union {s[1]}
           /\ UNCHANGED start
Spec == Init /\ [][Move]_pvars /\ WF_pvars(Move)

\* never stuck before everything is continuous, and nothing moves afterwards
Progress == Projective(t) <=> ~ ENABLED Move
Sound == /\ WellFormed(t)
         /\ t.info = start.info /\ t.lab = start.lab /\ t.sec = start.sec /\ t.root = start.root
         /\ Sent(t) = Sent(start)
\* a constituent only ever goes down
Downwards == \A n \in DOMAIN t.par : Above(start, n) \subseteq Above(t, n)
\* every single move fills a gap (it may open others further out), and the sum of
\* all depths grows, so there is an end
RECURSIVE SumD(_, _)
SumD(u, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Depth(u, n) + SumD(u, S \ {n})
Fills == [][\E a \in NTs(t) : Gaps(Yield(t, a)) \intersect Yield(t', a) # {}]_pvars
Deepens == [][SumD(t', Ids(t)) > SumD(t, Ids(t))]_pvars
Terminates == <>[](Projective(t))
\* the final trees are those that the trace specification accepts
Agrees == Projective(t) => t \in Projectivised(start)
=============================================================================
