----------------------------- MODULE Lumberjack -----------------------------
(* The tree API as a state machine: one tree, edited by the calls a user can  *)
(* make.  Rejected calls are steps that leave the tree as it is.              *)
(* Beyond well-formedness, every step is compared with a second, independent  *)
(* formulation of what the edit is for (sentence as a list, dominance as a    *)
(* relation), so that TreeOps does not just say the same thing twice.         *)
EXTENDS TreeOps, Small

CONSTANTS MaxT, MaxN, MaxSec, Family

VARIABLES tree, act
vars == <<tree, act>>

RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN q[2] + SumOf(S \ {q})
Fresh1(t) == Max(Ids(t)) + 1
\* labels stored in unary chains count as nonterminals
ChainLen(t, n) == IF FeatHas(t.info[n].x, "unary_chain") THEN Len(SplitBy(FeatGet(t.info[n].x, "unary_chain")[1], "_")) ELSE 0
NtLoad(t) == Cardinality(NTs(t)) + SumOf({<<n, ChainLen(t, n)>> : n \in Ids(t)})
Roomy(t) == NtLoad(t) < MaxN
On(f) == f \in Family

Init == /\ tree \in SmallTrees(MaxT, MaxN)
        /\ act = [op |-> "init"]

To(t, a) == tree' = t /\ act' = a

(* -- tokens --------------------------------------------------------------- *)
DoPush == /\ On("token") /\ NTerm(tree) < MaxT /\ ~ PushErr(tree)
          /\ To(Push(tree, Fresh1(tree), "n", "N"), [op |-> "push"])
DoInsTerm(p, i) == /\ On("token") /\ NTerm(tree) < MaxT /\ InsertTermOk(tree, p, i)
                   /\ To(InsertTerm(tree, Fresh1(tree), p, "n", "N", i), [op |-> "insterm", p |-> p, idx |-> i])
DoMove(n, i) == /\ On("token") /\ MoveOk(tree, n, i)
                /\ To(MoveTerm(tree, n, i), [op |-> "move", n |-> n, idx |-> i])
DoRemove(n) == /\ On(IF IsT(tree, n) THEN "token" ELSE "struct") /\ ~ RemoveErr(tree, n)
               /\ To(RemoveNode(tree, n), [op |-> "remove", n |-> n])
(* -- structure ------------------------------------------------------------ *)
DoAbove(n) == /\ On("struct") /\ Roomy(tree)
              /\ To(InsertAbove(tree, Fresh1(tree), n, "X"), [op |-> "above", n |-> n])
DoBelow(n) == /\ On("struct") /\ Roomy(tree) /\ ~ InsertBelowErr(tree, n)
              /\ To(InsertBelow(tree, Fresh1(tree), n, "X"), [op |-> "below", n |-> n])
DoReattach(c, p) == /\ On("struct") /\ c # tree.root /\ ~ ReattachErr(tree, c, p)
                    /\ To(Reattach(tree, c, p), [op |-> "reattach", c |-> c, np |-> p])
(* -- secondary edges ------------------------------------------------------ *)
SecPairs(t) == {<<e[2], e[3]>> : e \in t.sec}
DoAddSec(p, c) == /\ On("sec") /\ p # c /\ <<p, c>> \notin SecPairs(tree) /\ Cardinality(tree.sec) < MaxSec
                  /\ To(AddSec(tree, 1 + Max({0} \union {e[1] : e \in tree.sec}), p, c, Some("s")),
                        [op |-> "addsec", p |-> p, c |-> c])
DoRmSec(e) == /\ On("sec") /\ e \in tree.sec
              /\ To(RemoveSec(tree, e[1]), [op |-> "rmsec", e |-> e])
DoReattSec(e, p) == /\ On("sec") /\ e \in tree.sec /\ ~ ReattachSecErr(tree, e[1], p)
                    /\ <<p, e[3]>> \notin SecPairs(tree)
                    /\ To(ReattachSec(tree, e[1], p, e[1]), [op |-> "reattsec", e |-> e, np |-> p])
(* -- bulk edits ----------------------------------------------------------- *)
DoFilter(K) == On("filter") /\ To(Filter(tree, K), [op |-> "filter", keep |-> K])
DoInsInt(S) == /\ On("insint") /\ ~ InsertIntermediateErr(tree)
               /\ LET u == InsertIntermediate(tree, [p \in S |-> "I"])
                  IN NtLoad(u) <= MaxN /\ To(u, [op |-> "insint", sel |-> S])
DoReterm(a, S) == On("reterm") /\ To(ReattachTerms(tree, a, S), [op |-> "reterm", att |-> a, S |-> S])
DoProject == /\ On("project")
             /\ \E u \in Projectivised(tree) : To(u, [op |-> "projectivize"])
DoCollapse == /\ On("chain") /\ ~ RestoreErr(tree)
              /\ To(Collapse(tree, "_"), [op |-> "collapse"])
DoRestore == /\ On("chain") /\ ~ RestoreErr(tree)
             /\ LET u == Restore(tree, "_") IN NtLoad(u) <= MaxN /\ To(u, [op |-> "restore"])
(* -- rejected calls -------------------------------------------------------- *)
Reject(a) == On("reject") /\ UNCHANGED tree /\ act' = a
NoPush == PushErr(tree) /\ Reject([op |-> "push"])
NoRemove(n) == RemoveErr(tree, n) /\ Reject([op |-> "remove", n |-> n])
NoBelow(n) == InsertBelowErr(tree, n) /\ Reject([op |-> "below", n |-> n])
NoReattach(c, p) == c # tree.root /\ ReattachErr(tree, c, p) /\ Reject([op |-> "reattach", c |-> c, np |-> p])

Next ==
  \/ DoPush \/ NoPush \/ DoProject \/ DoCollapse \/ DoRestore
  \/ \E n \in Ids(tree) : DoRemove(n) \/ DoAbove(n) \/ DoBelow(n) \/ NoRemove(n) \/ NoBelow(n)
  \/ \E n \in Ids(tree), i \in 0..MaxT : DoInsTerm(n, i) \/ DoMove(n, i)
  \/ \E n, m \in Ids(tree) : DoReattach(n, m) \/ DoAddSec(n, m) \/ NoReattach(n, m)
  \/ \E e \in tree.sec : DoRmSec(e) \/ \E m \in Ids(tree) : DoReattSec(e, m)
  \/ \E K \in SUBSET NTs(tree) : DoFilter(K) \/ DoInsInt(K)
  \/ \E S \in SUBSET Terms(tree) : \E a \in NTs(tree) : DoReterm(a, S)
Spec == Init /\ [][Next]_vars

\* content does not influence what the calls do to the structure
Shape(t) == <<{Ref(t, n) : n \in NTs(t)}, NTerm(t), {<<Ref(t, e[2]), Ref(t, e[3])>> : e \in t.sec},
              {<<Ref(t, n), FeatGet(t.info[n].x, "unary_chain")>> : n \in {n \in Ids(t) : FeatHas(t.info[n].x, "unary_chain")}}>>
View == Shape(tree)

-----------------------------------------------------------------------------
Inv == WellFormed(tree)

Dom(t) == {<<a, b>> \in Ids(t) \X Ids(t) : Dominates(t, a, b)}
On2(R, S) == {q \in R : q[1] \in S /\ q[2] \in S}
Old(t, u) == Ids(t) \intersect Ids(u)
New(t, u) == Ids(u) \ Ids(t)
Gone(t, u) == Ids(t) \ Ids(u)
SameDom(t, u) == On2(Dom(t), Old(t, u)) = On2(Dom(u), Old(t, u))
SameSent(t, u) == Sent(t) = Sent(u)
SameInfo(t, u) == \A n \in Old(t, u) : [t.info[n] EXCEPT !.p = 0] = [u.info[n] EXCEPT !.p = 0]
SecGone(t, u) == u.sec = {e \in t.sec : e[2] \in Ids(u) /\ e[3] \in Ids(u)}
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
The(S) == CHOOSE x \in S : TRUE
\* deleting nonterminals one at a time, in the order of their ids
RECURSIVE DropEach(_, _)
DropEach(t, S) == IF S = {} THEN t ELSE DropEach(RemoveNT(t, Min(S)), S \ {Min(S)})

StepOk(t, u, a) ==
  CASE a.op = "push" /\ Ids(u) # Ids(t) ->
         LET n == The(New(t, u)) IN Sent(u) = Append(Sent(t), n) /\ u.par[n] = t.root /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
    [] a.op = "insterm" ->
         LET n == The(New(t, u)) IN Sent(u) = InsertAt(Sent(t), a.idx + 1, n) /\ u.par[n] = a.p /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
    [] a.op = "move" -> Sent(u) = InsertAt(Without(Sent(t), a.n), a.idx + 1, a.n) /\ u.par = t.par /\ u.lab = t.lab /\ SameInfo(t, u) /\ SecGone(t, u)
    [] a.op = "remove" /\ Ids(u) # Ids(t) ->
         /\ Gone(t, u) = {a.n} /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
         /\ Sent(u) = Without(Sent(t), a.n)
    [] a.op = "above" -> LET n == The(New(t, u)) IN
         /\ SameSent(t, u) /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
         /\ Kids(u, n) = {a.n} /\ Above(u, n) = Above(t, a.n)
    [] a.op = "below" /\ Ids(u) # Ids(t) -> LET n == The(New(t, u)) IN
         /\ SameSent(t, u) /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
         /\ Kids(u, n) = Kids(t, a.n) /\ Kids(u, a.n) = {n}
    [] a.op = "reattach" /\ u # t ->
         /\ SameSent(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
         /\ \A n \in Ids(t) : Below(u, n) = (Below(t, n) \ (IF Dominates(t, n, a.c) THEN Below(t, a.c) \union {a.c} ELSE {}))
                                           \union (IF n = a.np \/ Dominates(t, n, a.np) THEN Below(t, a.c) \union {a.c} ELSE {})
    [] a.op = "addsec" -> [u EXCEPT !.sec = {}] = [t EXCEPT !.sec = {}] /\ SecPairs(u) = SecPairs(t) \union {<<a.p, a.c>>}
    [] a.op = "rmsec" -> [u EXCEPT !.sec = {}] = [t EXCEPT !.sec = {}] /\ u.sec = t.sec \ {a.e}
    [] a.op = "reattsec" -> [u EXCEPT !.sec = {}] = [t EXCEPT !.sec = {}]
                            /\ SecPairs(u) = (SecPairs(t) \ {<<a.e[2], a.e[3]>>}) \union {<<a.np, a.e[3]>>}
    [] a.op = "filter" ->
         /\ Ids(u) = Terms(t) \union {t.root} \union (NTs(t) \cap a.keep)
         /\ SameSent(t, u) /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
         /\ u.root = t.root /\ u = DropEach(t, Gone(t, u))
    [] a.op = "insint" ->
         /\ SameSent(t, u) /\ SameDom(t, u) /\ SameInfo(t, u) /\ SecGone(t, u)
         /\ \A n \in a.sel : TokKids(u, n) = {}
         /\ \A n \in New(t, u) : /\ u.par[n] \in a.sel /\ Kids(u, n) = TokKids(u, n) /\ Continuous(Yield(u, n))
                                 /\ \A k \in New(t, u) \ {n} : u.par[k] = u.par[n] => ~ Continuous(Yield(u, n) \union Yield(u, k))
         /\ \A n \in Ids(t) \ {t.root} : u.par[n] # t.par[n] => u.par[n] \in New(t, u) /\ t.par[n] \in a.sel
    [] a.op = "reterm" ->
         /\ SameSent(t, u) /\ SameInfo(t, u) /\ SecGone(t, u) /\ Ids(u) \subseteq Ids(t)
         /\ \A n \in a.S : u.par[n] = a.att
         /\ \A n \in Ids(u) \ (a.S \union {t.root}) : u.par[n] = t.par[n]
         /\ u.root = t.root /\ a.att \in Ids(u)
         /\ \A n \in Gone(t, u) : TermsBelow(t, n) \subseteq a.S
    [] a.op = "projectivize" ->
         /\ Projective(u) /\ SameSent(t, u) /\ u.info = t.info /\ u.lab = t.lab /\ u.sec = t.sec /\ u.root = t.root
         /\ Projective(t) => u = t
         \* a constituent only ever goes down, below a node next to the old place
         /\ \A n \in DOMAIN t.par : u.par[n] = t.par[n] \/ Dominates(u, t.par[n], u.par[n])
    [] a.op = "collapse" -> Unary(u) = {} /\ SameSent(t, u) /\ SameDom(t, u) /\ SecGone(t, u)
    [] a.op = "restore" -> ~ (\E n \in Ids(u) : FeatHas(u.info[n].x, "unary_chain")) /\ SameSent(t, u) /\ SameDom(t, u)
    [] OTHER -> u = t
Steps == [][StepOk(tree, tree', act')]_vars

\* The documented conditions are exactly those under which the bare edit would
\* leave something that is not a tree (or is not defined at all).
ErrorsNecessary ==
  /\ \A n \in Terms(tree) : RemoveErr(tree, n) <=> ~ WellFormed(RemoveTerm(tree, n))
  /\ \A c \in DOMAIN tree.par, p \in NTs(tree) :
       ReattachErr(tree, c, p) <=> ~ WellFormed(Reattach(tree, c, p))
=============================================================================
