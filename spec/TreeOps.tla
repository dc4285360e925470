------------------------------ MODULE TreeOps -------------------------------
(* The edits of the public tree API as state transformers on abstract trees.  *)
(* For every edit: XxxErr(t, args) - the documented conditions under which it *)
(* is rejected (and changes nothing), and Xxx(t, args) - the tree afterwards. *)
EXTENDS Trees

SetInfo(t, n, i) == [t EXCEPT !.info[n] = i]
NewNT(l) == [k |-> "N", l |-> l, x |-> {}, f |-> "", m |-> None, p |-> -1]
NewTerm(f, l, p) == [k |-> "T", l |-> l, x |-> {}, f |-> f, m |-> None, p |-> p]
RestrictTo(f, S) == [x \in S |-> f[x]]

\* re-hang the nodes of C below p with empty edges
Hang(t, C, p) == [t EXCEPT !.par = TLCEval([n \in DOMAIN t.par \union C |-> IF n \in C THEN p ELSE t.par[n]]),
                           !.lab = TLCEval([n \in DOMAIN t.lab \union C |-> IF n \in C THEN None ELSE t.lab[n]])]
AddNode(t, id, i) == [t EXCEPT !.info = TLCEval([n \in Ids(t) \union {id} |-> IF n = id THEN i ELSE t.info[n]])]
\* forget a node together with all of its edges (children must have been re-hung)
DropNode(t, n) ==
  [root |-> t.root, info |-> RestrictTo(t.info, Ids(t) \ {n}),
   par |-> RestrictTo(t.par, DOMAIN t.par \ {n}), lab |-> RestrictTo(t.lab, DOMAIN t.lab \ {n}),
   sec |-> {e \in t.sec : e[2] # n /\ e[3] # n}]
Renumber(t, P(_)) == MapInfo(t, LAMBDA n, i : IF i.k = "T" THEN [i EXCEPT !.p = P(i.p)] ELSE i)

-----------------------------------------------------------------------------
(* tokens *)
PushErr(t) == IsT(t, t.root)
Push(t, id, form, pos) == Hang(AddNode(t, id, NewTerm(form, pos, NTerm(t))), {id}, t.root)

InsertTermOk(t, parent, idx) == ~ IsT(t, parent) /\ idx \in 0..NTerm(t)
InsertTerm(t, id, parent, form, pos, idx) ==
  Hang(AddNode(Renumber(t, LAMBDA p : IF p >= idx THEN p + 1 ELSE p), id, NewTerm(form, pos, idx)),
       {id}, parent)

MoveOk(t, n, idx) == IsT(t, n) /\ idx \in 0..(NTerm(t) - 1)
MoveTerm(t, n, idx) ==
  LET old == Pos(t, n)
      P(p) == IF p = old THEN idx
              ELSE IF old < p /\ p <= idx THEN p - 1
              ELSE IF idx <= p /\ p < old THEN p + 1 ELSE p
  IN Renumber(t, P)

Siblings(t, n) == IF n = t.root THEN {} ELSE Kids(t, t.par[n]) \ {n}

RemoveTermErr(t, n) == Siblings(t, n) = {}
RemoveTerm(t, n) == LET old == Pos(t, n)
                    IN Renumber(DropNode(t, n), LAMBDA p : IF p > old THEN p - 1 ELSE p)

-----------------------------------------------------------------------------
(* structure *)
RemoveNTErr(t, n) == n = t.root /\ Cardinality(Kids(t, n)) # 1
RemoveNT(t, n) ==
  IF n # t.root THEN DropNode(Hang(t, Kids(t, n), t.par[n]), n)
  ELSE LET c == CHOOSE c \in Kids(t, n) : TRUE
       IN DropNode([t EXCEPT !.root = c, !.par = RestrictTo(t.par, DOMAIN t.par \ {c}),
                             !.lab = RestrictTo(t.lab, DOMAIN t.lab \ {c})], n)
RemoveErr(t, n) == IF IsT(t, n) THEN RemoveTermErr(t, n) ELSE RemoveNTErr(t, n)
RemoveNode(t, n) == IF IsT(t, n) THEN RemoveTerm(t, n) ELSE RemoveNT(t, n)

InsertAbove(t, id, n, l) ==
  LET t1 == AddNode(t, id, NewNT(l))
  IN IF n = t.root THEN [Hang(t1, {n}, id) EXCEPT !.root = id]
     ELSE LET t2 == Hang(t1, {id}, t.par[n]) IN [t2 EXCEPT !.par[n] = id]

InsertBelowErr(t, n) == IsT(t, n)
InsertBelow(t, id, n, l) == Hang(Hang(AddNode(t, id, NewNT(l)), Kids(t, n), id), {id}, n)

\* reattach the node c (its primary edge) below np
ReattachErr(t, c, np) == \/ IsT(t, np)
                         \/ c = np
                         \/ Dominates(t, c, np)
                         \/ Siblings(t, c) = {} /\ t.par[c] # np
Reattach(t, c, np) == Hang(t, {c}, np)

SecEdge(t, eid) == CHOOSE e \in t.sec : e[1] = eid
AddSec(t, eid, s, d, l) == [t EXCEPT !.sec = @ \union {<<eid, s, d, l>>}]
HasSec(t, eid) == \E e \in t.sec : e[1] = eid
RemoveSec(t, eid) == [t EXCEPT !.sec = {e \in @ : e[1] # eid}]
ReattachSecErr(t, eid, np) == IsT(t, np) \/ SecEdge(t, eid)[3] = np
ReattachSec(t, eid, np, neweid) == AddSec(RemoveSec(t, eid), neweid, np, SecEdge(t, eid)[3], None)

-----------------------------------------------------------------------------
(* bulk edits *)
RECURSIVE FoldSet1(_, _, _)
FoldSet1(Op(_, _), base, S) == IF S = {} THEN base
                               ELSE LET e == CHOOSE e \in S : TRUE IN FoldSet1(Op, Op(base, e), S \ {e})

\* filter: declaratively - every orphan hangs below its closest remaining ancestor
FilterGone(t, keep) == (NTs(t) \ {t.root}) \ keep
ClosestKept(t, n, gone) == LET u == Up(t, n)
                               ks == {i \in DOMAIN u : u[i] \notin gone}
                           IN u[Min(ks)]
DropAll(t, gone) ==   \* gone: nonterminals other than the root
  LET ids == Ids(t) \ gone
      kids == ids \ {t.root}
  IN [root |-> t.root, info |-> RestrictTo(t.info, ids),
      par |-> [n \in kids |-> ClosestKept(t, n, gone)],
      lab |-> [n \in kids |-> IF t.par[n] \in gone THEN None ELSE t.lab[n]],
      sec |-> {e \in t.sec : e[2] \in ids /\ e[3] \in ids}]
Filter(t, keep) == DropAll(t, FilterGone(t, keep))

\* insertion: maximal runs of adjacent token children of a selected parent; sel: parent -> label
TokKids(t, p) == {c \in Kids(t, p) : IsT(t, c)}
Runs(t, p) ==  \* the set of runs, each a set of ids
  LET K == TokKids(t, p)
      ps == {Pos(t, c) : c \in K}
      starts == {i \in ps : i - 1 \notin ps}
      RunEnd(i) == Max({j \in ps : j >= i /\ (i..j) \subseteq ps})
  IN {{c \in K : Pos(t, c) \in i..RunEnd(i)} : i \in starts}
InsertIntermediateErr(t) == IsT(t, t.root)
InsertIntermediate(t, sel) ==
  LET runs == UNION {{<<p, R>> : R \in Runs(t, p)} : p \in {p \in DOMAIN sel : TokKids(t, p) # {}}}
      rs == SetToSeq(runs)   \* <<parent, run>>
      m == Max(Ids(t))
      new == {m + i : i \in DOMAIN rs}
      At0(c) == {i \in DOMAIN rs : c \in rs[i][2]}   \* the run of a token, if any
      t1 == [t EXCEPT !.info = [n \in Ids(t) \union new |-> IF n \in new THEN NewNT(sel[rs[n - m][1]]) ELSE t.info[n]]]
  IN [t1 EXCEPT !.par = [n \in DOMAIN t.par \union new |->
                           IF n \in new THEN rs[n - m][1]
                           ELSE LET at == At0(n) IN IF at = {} THEN t.par[n] ELSE m + Min(at)],
                !.lab = [n \in DOMAIN t.lab \union new |->
                           IF n \in new \/ At0(n) # {} THEN None ELSE t.lab[n]]]

\* reattachment of the tokens in S below att, removing emptied nonterminals
EmptiedBy(t, att, S) == {n \in NTs(t) \ {t.root, att} :
                            /\ TermsBelow(t, n) \subseteq S
                            /\ ~ Dominates(t, n, att)}
ReattachTerms(t, att, S) ==
  LET gone == {n \in EmptiedBy(t, att, S) : TRUE}
      t1 == Hang(t, S, att)
      ids == Ids(t) \ gone
      kids == ids \ {t.root}
  IN [root |-> t.root, info |-> RestrictTo(t.info, ids), par |-> RestrictTo(t1.par, kids),
      lab |-> RestrictTo(t1.lab, kids), sec |-> {e \in t.sec : e[2] \in ids /\ e[3] \in ids}]

-----------------------------------------------------------------------------
(* unary chains.  Declaratively: a nonterminal with one child is removed and  *)
(* its label goes to the lowest node of its chain, bottom-up.                 *)
Unary(t) == {n \in NTs(t) : Cardinality(Kids(t, n)) = 1}
\* the unary nodes directly above the non-unary node n, bottom-up
RECURSIVE ChainIn(_, _, _)
ChainIn(t, n, unary) == IF n = t.root \/ t.par[n] \notin unary THEN <<>>
                        ELSE <<t.par[n]>> \o ChainIn(t, t.par[n], unary)
ChainAbove(t, n) == ChainIn(t, n, Unary(t))
CollapsedFeats(t, n, delim, unary) ==
  LET ch == ChainIn(t, n, unary)
      labels == [i \in DOMAIN ch |-> t.info[ch[i]].l]
      x == t.info[n].x
      old == IF FeatHas(x, "unary_chain") THEN FeatGet(x, "unary_chain") ELSE None
  IN IF ch = <<>> THEN x
     ELSE FeatSet(x, "unary_chain", Some(Join(old \o labels, delim)))
Collapse(t, delim) ==
  LET gone == Unary(t)
      ids == Ids(t) \ gone
      root == CHOOSE n \in ids : ToSet(Up(t, n)) \subseteq gone
      kids == ids \ {root}
  IN [root |-> root,
      info |-> TLCEval([n \in ids |-> [t.info[n] EXCEPT !.x = CollapsedFeats(t, n, delim, gone)]]),
      par |-> [n \in kids |-> ClosestKept(t, n, gone)],
      lab |-> [n \in kids |-> IF t.par[n] \in gone THEN None ELSE t.lab[n]],
      sec |-> {e \in t.sec : e[2] \in ids /\ e[3] \in ids}]
RestoreErr(t) == \E n \in Ids(t) : FeatHas(t.info[n].x, "unary_chain") /\ FeatGet(t.info[n].x, "unary_chain") = None
RECURSIVE RestoreNode(_, _, _, _, _)
RestoreNode(t, n, cur, labels, i) ==
  IF i > Len(labels) THEN t
  ELSE LET new == Max(Ids(t)) + 1 IN RestoreNode(InsertAbove(t, new, cur, labels[i]), n, new, labels, i + 1)
Restore(t, delim) ==
  LET with == {n \in Ids(t) : FeatHas(t.info[n].x, "unary_chain")}
      Step(u, n) == RestoreNode([u EXCEPT !.info[n].x = FeatDel(@, "unary_chain")], n, n,
                                SplitBy(FeatGet(t.info[n].x, "unary_chain")[1], delim), 1)
  IN FoldSet1(Step, t, with)

-----------------------------------------------------------------------------
(* projectivisation: one step moves the constituent c below a, where a is     *)
(* discontinuous, c dominates a gap position of a, and c's parent is the      *)
(* lowest node dominating both.                                               *)
GapSteps(t) ==
  UNION {LET ua == Above(t, a)
             Handle(p) ==  \* the child on the way to p of the lowest ancestor shared with a
               LET path == <<At(t, p)>> \o Up(t, At(t, p))
                   i == Min({i \in DOMAIN path : path[i] \in ua})
               IN path[i - 1]
         IN {<<a, Handle(p)>> : p \in Gaps(Yield(t, a))} : a \in Discont(t)}
IsGapStep(t, a, c) ==   \* <<a, c>> \in GapSteps(t), evaluated locally
  /\ a \in NTs(t) /\ c \in DOMAIN t.par
  /\ t.par[c] \in Above(t, a) /\ c # a /\ ~ Dominates(t, c, a)
  /\ Gaps(Yield(t, a)) \cap Yield(t, c) # {}
\* the moved edge keeps its label
Attach(t, c, a) == [t EXCEPT !.par[c] = a]
\* Nodes are treated bottom-up: the first constituent goes below a only when all
\* nonterminals that were below a at the start (t0) are continuous by now.
ProjSteps(t0, t, seen) ==
  {s \in GapSteps(t) : \/ s[1] \in seen
                       \/ \A b \in Below(t0, s[1]) : IsT(t0, b) \/ Continuous(Yield(t, b))}
\* all complete runs from the states S = {[t |-> .., seen |-> ..]}: the final trees
RECURSIVE ProjRuns(_, _)
ProjRuns(t0, S) ==
  LET Succ(s) == {[t |-> Attach(s.t, q[2], q[1]), seen |-> s.seen \union {q[1]}] : q \in ProjSteps(t0, s.t, s.seen)}
      end == {s \in S : Projective(s.t)}
      rest == S \ end
  IN {s.t : s \in end} \union (IF rest = {} THEN {} ELSE ProjRuns(t0, UNION {Succ(s) : s \in rest}))
Projectivised(t) == ProjRuns(t, {[t |-> t, seen |-> {}]})

-----------------------------------------------------------------------------
(* projections onto tokens *)
ClosestIn(t, n, S) == LET u == Up(t, n)  ks == {i \in DOMAIN u : u[i] \in S}
                      IN IF ks = {} THEN None ELSE Some(u[Min(ks)])
AnnotateParent(t, key) ==
  MapInfo(t, LAMBDA n, i : IF i.k = "T" THEN [i EXCEPT !.x = FeatSet(i.x, key, Some(t.info[t.par[n]].l))] ELSE i)
ProjectTags(t, key, S) ==
  MapInfo(t, LAMBDA n, i : IF i.k = "T" /\ ClosestIn(t, n, S) # None
     THEN [i EXCEPT !.x = FeatSet(i.x, key, Some(t.info[ClosestIn(t, n, S)[1]].l))] ELSE i)
AnnotatePos(t, tags) == MapInfo(t, LAMBDA n, i : IF i.k = "T" THEN [i EXCEPT !.l = tags[i.p + 1]] ELSE i)
=============================================================================
