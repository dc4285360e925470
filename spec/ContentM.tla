------------------------------ MODULE ContentM ------------------------------
(* Reading and writing the contents of nodes: every place holds the value last *)
(* written there, and writing one place leaves all others and the structure    *)
(* alone.  The same operators judge the accessors of the implementation.       *)
EXTENDS Judge, Small

CONSTANTS MaxT, MaxN, Keys

VARIABLES t0,    \* the tree at the beginning
          t,     \* the tree now
          told   \* what was written last, by place

vars == <<t0, t, told>>
Put(f, k, v) == [j \in DOMAIN f \union {k} |-> IF j = k THEN v ELSE f[j]]
Vals == {None, Some("v")}
Init == /\ t0 \in SmallTrees(MaxT, MaxN)
        /\ t = t0
        /\ told = [p \in {} |-> 0]
Write(op, a, place, v) ==
  /\ t' = Exp24(0, t, [op |-> op, a |-> a])
  /\ told' = Put(told, place, v)
  /\ UNCHANGED t0
Places(n) == {<<n, k>> : k \in Keys}
Next ==
  \E n \in Ids(t) :
    \/ \E l \in {"Q", ""} : Write("setlabel", [n |-> n, l |-> l], <<n, "label">>, l)
    \/ IsT(t, n) /\ Write("setform", [n |-> n, f |-> "g"], <<n, "form">>, "g")
    \/ IsT(t, n) /\ \E v \in Vals : Write("setlemma", [n |-> n, m |-> v], <<n, "lemma">>, v)
    \/ \E k \in Keys, v \in Vals : Write("setfeat", [n |-> n, key |-> k, v |-> v], <<n, "x", k>>, v)
    \* replacing all features at once
    \/ \E K \in SUBSET Keys :
         /\ t' = Exp24(0, t, [op |-> "putfeats",
                              a |-> [n |-> n, none |-> K = {}, x |-> SetToSeq({<<k, Some("w")>> : k \in K}) \o SetToSeq({<<k, None>> : k \in K})]])
         /\ told' = [p \in DOMAIN told \union {<<n, "x", k>> : k \in Keys} |->
                       IF p[1] = n /\ p[2] = "x" THEN (IF p[3] \in K THEN None ELSE <<"absent">>) ELSE told[p]]
         /\ UNCHANGED t0
Spec == Init /\ [][Next]_vars

Read(p) == CASE p[2] = "label" -> t.info[p[1]].l
             [] p[2] = "form" -> t.info[p[1]].f
             [] p[2] = "lemma" -> t.info[p[1]].m
             [] OTHER -> IF FeatHas(t.info[p[1]].x, p[3]) THEN FeatGet(t.info[p[1]].x, p[3]) ELSE <<"absent">>
\* the value last written is read
LastWritten == \A p \in DOMAIN told : Read(p) = told[p]
\* nothing else changes
Touched(n, f) == \E p \in DOMAIN told : p[1] = n /\ p[2] = f
Frame ==
  /\ WellFormed(t)
  /\ [t EXCEPT !.info = 0] = [t0 EXCEPT !.info = 0]
  /\ \A n \in Ids(t) :
       /\ t.info[n].k = t0.info[n].k /\ (IsT(t, n) => t.info[n].p = t0.info[n].p)
       /\ ~ Touched(n, "label") => t.info[n].l = t0.info[n].l
       /\ ~ Touched(n, "x") => t.info[n].x = t0.info[n].x
       /\ IsT(t, n) => /\ ~ Touched(n, "form") => t.info[n].f = t0.info[n].f
                       /\ ~ Touched(n, "lemma") => t.info[n].m = t0.info[n].m
=============================================================================
