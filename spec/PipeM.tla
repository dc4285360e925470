-------------------------------- MODULE PipeM -------------------------------
(* The conversion tool working on one tree, step by step.  The machine has no *)
(* notion of the final result: the order of the steps is the order of the     *)
(* states.  What must hold of the tree after each step is stated on its own.  *)
EXTENDS Pipeline, Small

CONSTANTS MaxT, MaxN, Formats

VARIABLES t0,     \* the tree that was read
          o,      \* the options
          outf,   \* the output format
          t,      \* the tree now
          stage,  \* the step that comes next
          failed  \* the tool has stopped with an error

vars == <<t0, o, outf, t, stage, failed>>
Stages == <<"dummies", "project", "tags", "reattach", "ids", "filter", "insert", "parent", "encode", "write">>
Opts == {[multi |-> FALSE, proj |-> ps # "no", sec |-> ps = "sec", dummies |-> d, parent |-> p, reattach |-> r, inslabel |-> None,
          idfeat |-> None, filter |-> f, ids |-> i, insset |-> n, pos |-> q] :
            ps \in {"no", "yes", "sec"}, d \in BOOLEAN, p \in {None, Some("par")}, r \in {None, Some("V")},
            f \in {None, <<<<"A">>>>}, i \in {None, <<<<"A", "B">>>>}, n \in {None, <<<<"B">>>>},
            q \in {None, <<<<<<"V">>>>>>, <<<<<<"V", "N", "V">>>>>>}}
\* some trees contain placeholders
Dummied(u) == MapInfo(u, LAMBDA n, i : IF i.l = "B" THEN [i EXCEPT !.l = "DUMMY"] ELSE i)
Init == /\ t0 \in SmallTrees(MaxT, MaxN) \union {Dummied(u) : u \in SmallTrees(MaxT, MaxN)}
        /\ o \in Opts /\ outf \in Formats
        /\ t = t0 /\ stage = 1 /\ failed = FALSE
Step(S) == \E r \in S : /\ IF r = None THEN failed' = TRUE /\ t' = t ELSE failed' = FALSE /\ t' = r[1]
                        /\ stage' = stage + 1 /\ UNCHANGED <<t0, o, outf>>
At1(s) == ~ failed /\ stage <= Len(Stages) /\ Stages[stage] = s
Write == IF Unwritable([outf |-> outf], t) THEN {None} ELSE {<<t>>}
Next == \/ At1("dummies") /\ Step(DummyStep(o, t))
        \/ At1("project") /\ Step(ProjStep(o, t))
        \/ At1("tags") /\ Step(PosStep(o, t, 1))
        \/ At1("reattach") /\ Step(ReattachStep(o, t))
        \/ At1("ids") /\ Step(IdStep(o, t))
        \/ At1("filter") /\ Step(FilterStep(o, t))
        \/ At1("insert") /\ Step(InsertStep(o, t))
        \/ At1("parent") /\ Step(ParentStep(o, t))
        \/ At1("encode") /\ Step(TagStep(outf, t))
        \/ At1("write") /\ Step(Write)
Spec == Init /\ [][Next]_vars

Passed(s) == ~ failed /\ \E i \in 1..(stage - 1) : Stages[i] = s
Just(s) == ~ failed /\ stage > 1 /\ Stages[stage - 1] = s
-----------------------------------------------------------------------------
Forms(u) == [i \in 1..NTerm(u) |-> u.info[At(u, i - 1)].f]
Sound == ~ failed => WellFormed(t) /\ Forms(t) = Forms(t0)
NoDummies == Passed("dummies") /\ o.dummies => \A n \in NTs(t) : t.info[n].l = "DUMMY" => n = t.root /\ Cardinality(Kids(t, n)) > 1
\* projectivised trees stay so, unless tokens are taken to the root
StaysProjective == Passed("project") /\ o.proj /\ (o.reattach = None \/ ~ Passed("reattach")) => Projective(t)
Marks == Passed("project") =>
  /\ \A e \in t.sec : StartsWith(e[4][1], "np") \/ e[4] = Free
  /\ t.sec # {} => o.sec /\ ~ Projective(t0)
  \* as long as no node was removed every moved constituent has its mark
  /\ ~ Passed("filter") /\ ~ Passed("reattach") /\ o.sec /\ ~ o.dummies => (t.sec = {}) = Projective(t0)
Tagged == Passed("tags") /\ o.pos # None => \A i \in 1..NTerm(t) : t.info[At(t, i - 1)].l = o.pos[1][1][i]
\* the reattachment sees the tags that were annotated before
Reattached == Just("reattach") /\ o.reattach # None => \A n \in Terms(t) : StartsWith(t.info[n].l, o.reattach[1]) /\ n # t.root => t.par[n] = t.root
Numbered == Passed("ids") /\ o.ids # None /\ ~ IsT(t, t.root) => \A n \in Terms(t) : FeatHas(t.info[n].x, "id")
\* ids tell tokens apart by nodes that filtering may have removed since: ids are given before
IdsBeforeFilter ==
  Passed("ids") /\ ~ IsT(t, t.root) /\ o.ids # None /\ o.reattach = None /\ ~ o.dummies /\ ~ o.proj => \A n, m \in Terms(t) :
     (FeatGet(t.info[n].x, "id") = FeatGet(t.info[m].x, "id"))
       = (ClosestIn(t0, n, Labelled(t0, o.ids[1]) \union {t0.root}) = ClosestIn(t0, m, Labelled(t0, o.ids[1]) \union {t0.root}))
Filtered == Passed("filter") /\ o.filter # None => \A n \in NTs(t) \ {t.root} : t.info[n].l \in ToSet(o.filter[1]) \union {"UNK"}
\* insertion works on what the filter left, and its own nodes are not filtered
Inserted == Passed("insert") /\ ~ Passed("encode") /\ o.insset # None =>
              \A n \in Terms(t) : n # t.root => t.info[t.par[n]].l \in ToSet(o.insset[1]) \union {"UNK"}
\* the parent that is annotated may be a node that was inserted
Parents == Passed("parent") /\ ~ Passed("encode") /\ o.parent # None =>
              \A n \in Terms(t) : FeatGet(t.info[n].x, "par") = Some(t.info[t.par[n]].l)
Encoded == Passed("encode") /\ outf \in {"absolute", "relative"} =>
             Unary(t) = {} /\ \A n \in Terms(t) : FeatHas(t.info[n].x, IF outf = "absolute" THEN "abs_ancestor" ELSE "rel_ancestor")
\* what is not asked for is not done
Untouched == ~ failed /\ ~ o.dummies /\ ~ o.proj /\ o.reattach = None /\ o.filter = None /\ o.insset = None /\ outf \notin {"absolute", "relative"}
                => t.par = t0.par /\ t.lab = t0.lab /\ t.sec = t0.sec
\* a failure has a cause
Fails == failed =>
  \/ o.pos # None /\ Len(o.pos[1][1]) # NTerm(t)
  \/ IsT(t, t.root) /\ (o.reattach # None \/ o.insset # None \/ o.parent # None \/ outf = "negra")
  \/ ~ Projective(t) /\ outf \in {"absolute", "relative", "simple", "ptb", "tueba"}
  \/ outf = "negra" /\ ~ NegraRepresentable(t)
\* the machine arrives where the composition that judges the tool says
Composed == stage = 10 \/ (failed /\ Stages[stage - 1] # "write") =>
  LET R == Process([o |-> o, outf |-> outf], t0, 1)
  IN IF failed THEN None \in R ELSE <<t>> \in R
=============================================================================
