------------------------------- MODULE Behave -------------------------------
(* Behaviours of the state machine of Lumberjack.tla, for execution in the    *)
(* code.  Run with -simulate; arguments are drawn at random instead of        *)
(* enumerating all successors.  Nodes are named by what they cover and their  *)
(* depth.                                                                     *)
EXTENDS Lumberjack, Json, IOUtils

VARIABLES first, hist
bvars == <<tree, act, first, hist>>
Depth1 == ToNat(IOEnv.DEPTH)
Fam == IOEnv.FAMILY   \* "edit" or "all"
\* weights by repetition
EditKinds == <<"push", "insterm", "insterm", "move", "move", "remove", "removen", "above", "above", "below",
               "reattach", "reattach", "reattach", "anyreattach", "addsec", "addsec", "addsec", "rmsec", "reattsec", "reattsec">>
BulkKinds == <<"filter", "insint", "reterm", "projectivize", "collapse", "restore">>
Kinds == IF Fam = "all" THEN EditKinds \o BulkKinds \o BulkKinds
         ELSE IF Fam = "chain" THEN <<"above", "above", "collapse", "restore", "collapse", "remove", "insterm", "reattach", "filter">>
         ELSE EditKinds

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
R(n) == <<AscSeq(Yield(tree, n)), Depth(tree, n)>>
Rs(S) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> R(q[i])]
Took(step, t) == /\ tree' = t
                 /\ hist' = Append(hist, step)
                 /\ act' = [op |-> step.op]
                 /\ UNCHANGED first
Or(t, err) == IF err THEN tree ELSE t

Do(k) ==
  CASE k = "push" -> NTerm(tree) < 7 /\ Took([op |-> "push", form |-> "n", l |-> "N"], Or(Push(tree, Fresh1(tree), "n", "N"), PushErr(tree)))
    [] k = "insterm" -> \E p \in Pick(NTs(tree)), i \in Pick(0..NTerm(tree)) :
         NTerm(tree) < 7 /\ Took([op |-> "insterm", p |-> R(p), idx |-> i, form |-> "i", l |-> "D"],
                                 InsertTerm(tree, Fresh1(tree), p, "i", "D", i))
    [] k = "move" -> \E n \in Pick(Terms(tree)), i \in Pick(0..(NTerm(tree) - 1)) :
         Took([op |-> "move", n |-> R(n), idx |-> i], MoveTerm(tree, n, i))
    [] k = "remove" -> \E n \in Pick(Terms(tree)) : Took([op |-> "remove", n |-> R(n)], IF RemoveErr(tree, n) THEN tree ELSE RemoveNode(tree, n))
    [] k = "removen" -> \E n \in Pick(NTs(tree)) : Took([op |-> "remove", n |-> R(n)], IF RemoveErr(tree, n) THEN tree ELSE RemoveNode(tree, n))
    [] k = "above" -> \E n \in Pick(Ids(tree)) : Cardinality(NTs(tree)) < 8 /\ Took([op |-> "above", n |-> R(n), l |-> "X"], InsertAbove(tree, Fresh1(tree), n, "X"))
    [] k = "below" -> \E n \in Pick(Ids(tree)) : Cardinality(NTs(tree)) < 8 /\
         Took([op |-> "below", n |-> R(n), l |-> "Y"], IF InsertBelowErr(tree, n) THEN tree ELSE InsertBelow(tree, Fresh1(tree), n, "Y"))
    [] k = "reattach" -> \E q \in Pick({q \in (DOMAIN tree.par) \X NTs(tree) : ~ ReattachErr(tree, q[1], q[2])}) :
         Took([op |-> "reattach", c |-> R(q[1]), np |-> R(q[2])], Reattach(tree, q[1], q[2]))
    [] k = "anyreattach" -> \E c \in Pick(DOMAIN tree.par), p \in Pick(Ids(tree)) :
         Took([op |-> "reattach", c |-> R(c), np |-> R(p)], IF ReattachErr(tree, c, p) THEN tree ELSE Reattach(tree, c, p))
    [] k = "addsec" -> \E p \in Pick(Ids(tree)), c \in Pick(Ids(tree)) :
         /\ p # c /\ Cardinality(tree.sec) < 4 /\ <<p, c>> \notin SecPairs(tree)
         /\ Took([op |-> "addsec", p |-> R(p), c |-> R(c)],
                 AddSec(tree, 1 + Max({0} \union {e[1] : e \in tree.sec}), p, c, Some("s")))
    [] k = "rmsec" -> \E e \in Pick(tree.sec) : Took([op |-> "rmsec", p |-> R(e[2]), c |-> R(e[3])], RemoveSec(tree, e[1]))
    [] k = "reattsec" -> \E e \in Pick(tree.sec), p \in Pick(Ids(tree)) :
         /\ <<p, e[3]>> \notin SecPairs(tree)
         /\ Took([op |-> "reattsec", np |-> R(p), p |-> R(e[2]), c |-> R(e[3])],
                 IF ReattachSecErr(tree, e[1], p) THEN tree ELSE ReattachSec(tree, e[1], p, e[1]))
    [] k = "filter" -> \E K \in Pick(SUBSET NTs(tree)) : Took([op |-> "filter", keep |-> Rs(K)], Filter(tree, K))
    [] k = "insint" -> \E K \in Pick(SUBSET NTs(tree)) :
         Took([op |-> "insint", sel |-> Rs(K)], IF InsertIntermediateErr(tree) THEN tree ELSE InsertIntermediate(tree, [p \in K |-> "I"]))
    [] k = "reterm" -> \E a \in Pick(NTs(tree)), S \in Pick(SUBSET Terms(tree)) :
         Took([op |-> "reterm", att |-> R(a), S |-> Rs(S)], ReattachTerms(tree, a, S))
    [] k = "projectivize" -> \E u \in Pick(Projectivised(tree)) : Took([op |-> "projectivize"], u)
    [] k = "collapse" -> Took([op |-> "collapse"], Collapse(tree, "_"))
    [] k = "restore" -> Took([op |-> "restore"], Restore(tree, "_"))

Starts == SmallTrees(MaxT, MaxN)
\* TLC computes initial states once for all behaviours, so the start tree is drawn in the first step
InitB == /\ tree = CHOOSE t \in Starts : TRUE
         /\ act = [op |-> "start"]
         /\ first = tree
         /\ hist = <<>>
Begin == /\ act.op = "start"
         /\ \E t \in Pick(IF act.op = "start" THEN Starts ELSE {}) : tree' = t /\ first' = t
         /\ act' = [op |-> "init"]
         /\ UNCHANGED hist
\* (depends on the state, or TLC would draw only once)
Kind == Pick(IF act.op = "start" THEN {} ELSE DOMAIN Kinds)
Finish == /\ PrintT("HIST " \o ToJson([t |-> Desc(first), ops |-> hist]))
          /\ act' = [op |-> "end"]
          /\ UNCHANGED <<tree, first, hist>>
\* some steps draw a call that makes no sense for the tree: hence the stuttering
NextB == CASE act.op = "start" -> Begin
           [] act.op = "end" -> UNCHANGED bvars
           [] TLCGet("level") >= Depth1 - 1 -> Finish
           [] OTHER -> UNCHANGED bvars \/ \E i \in Kind : Do(Kinds[i])
SpecB == InitB /\ [][NextB]_bvars

InvB == WellFormed(tree)
=============================================================================
