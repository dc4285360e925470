------------------------------ MODULE Pipeline ------------------------------
(* The conversion tool: read, a fixed sequence of steps, write.  An option    *)
(* <<t>> is a tree on its way, <<>> a failure (the tool stops with non-zero). *)
EXTENDS TreeOps, Encoding, SpanFeat, Negra

IsConll(f) == f \in {"absolute", "relative", "conllx"}
IsBracket(f) == f \in {"simple", "ptb", "tueba"}

(* -- CONLL-X text ---------------------------------------------------------- *)
\* consecutive nonempty lines, as pairs <<first, last>> of line numbers
Blocks(ls) ==
  LET full(i) == i \in DOMAIN ls /\ ls[i] # ""
      starts == AscSeq({i \in DOMAIN ls : full(i) /\ ~ full(i - 1)})
      End(i) == Min({j \in i..Len(ls) : ~ full(j + 1)})
  IN [k \in DOMAIN starts |-> SubSeq(ls, starts[k], End(starts[k]))]
Col(s) == IF s = "_" THEN None ELSE Some(s)
\* <<form, lemma, tag, feature text>>; a row that is not complete is <<>>
ConllRow(l) == LET w == SplitOn(l, {"\t"})
               IN IF Len(w) < 6 THEN <<>> ELSE <<w[2], Col(w[3]), Col(w[5]), Col(w[6])>>
ConllRows(b) == [i \in DOMAIN b |-> ConllRow(b[i])]
ConllItem(b, rel) ==
  LET rows == ConllRows(b)
  IN IF \E i \in DOMAIN rows : rows[i] = <<>> THEN ErrItem
     ELSE IF ~ RowsOk(rows, rel) THEN ErrItem
     ELSE IF ~ DecodeDomain(RowsEnc(rows, rel)) THEN [k |-> "any", t |-> NoTree]
     ELSE [k |-> "tree", t |-> Restore(DecodeGood(RowsEnc(rows, rel), RowToks(rows)), "_")]
ConllItems(s, rel) == LET b == Blocks(SplitOn(s, {"\n"})) IN [i \in DOMAIN b |-> ConllItem(b[i], rel)]

InItems(a) == CASE a.inf = "negra" -> NegraItems(Lines(a.text))
                [] IsConll(a.inf) -> ConllItems(a.text, a.inf = "relative")
                [] OTHER -> BracketItems(a.text, a.inf, a.o.multi)

(* -- steps ----------------------------------------------------------------- *)
\* the labels of edges that a bulk edit moved are open
Free == Some("?")
FreeOn(t, S) == [t EXCEPT !.lab = TLCEval([n \in DOMAIN t.lab |-> IF n \in S THEN Free ELSE t.lab[n]])]
Under(t, S) == {n \in DOMAIN t.par : t.par[n] \in S}
RECURSIVE NumberSec(_, _)
NumberSec(q, i) == IF i > Len(q) THEN {} ELSE {<<i, q[i][2], q[i][3], q[i][4]>>} \union NumberSec(q, i + 1)
PlainSec(t) == [t EXCEPT !.sec = NumberSec(SetToSeq(t.sec), 1)]
\* projectivisation that leaves a secondary edge at the old place of what it moves
NpLabel(o) == IF o = Free THEN Free ELSE IF o = None THEN Some("np") ELSE Some("np_" \o o[1])
Marking(t, c, a) == LET u == Attach(t, c, a)
                    IN AddSec(u, 1 + Cardinality(u.sec), t.par[c], c, NpLabel(t.lab[c]))
RECURSIVE MarkRuns(_, _)
MarkRuns(t0, S) ==
  LET Succ(s) == {[t |-> Marking(s.t, q[2], q[1]), seen |-> s.seen \union {q[1]}] : q \in ProjSteps(t0, s.t, s.seen)}
      end == {s \in S : Projective(s.t)}
      rest == S \ end
  IN {s.t : s \in end} \union (IF rest = {} THEN {} ELSE MarkRuns(t0, UNION {Succ(s) : s \in rest}))

Prefixed(t, p) == {n \in Terms(t) : StartsWith(t.info[n].l, p)}
Labelled(t, w) == {n \in NTs(t) : t.info[n].l \in ToSet(w)}
IdKey(o) == IF o.idfeat = None THEN "id" ELSE o.idfeat[1]
InsLabel(o) == IF o.inslabel = None THEN "UNK" ELSE o.inslabel[1]

DummyStep(o, t) == {<<IF o.dummies THEN FreeOn(RemoveDummies(t), Under(t, Labelled(t, <<"DUMMY">>))) ELSE t>>}
ProjStep(o, t) == IF ~ o.proj \/ Projective(t) THEN {<<t>>}
                  ELSE {<<u>> : u \in IF o.sec THEN MarkRuns(t, {[t |-> t, seen |-> {}]}) ELSE Projectivised(t)}
PosStep(o, t, k) == IF o.pos = None THEN {<<t>>}
                    ELSE IF k > Len(o.pos[1]) THEN {None}
                    ELSE IF Len(o.pos[1][k]) # NTerm(t) THEN {None}
                    ELSE {<<AnnotatePos(t, o.pos[1][k])>>}
ReattachStep(o, t) ==
  IF o.reattach = None THEN {<<t>>}
  ELSE LET S == Prefixed(t, o.reattach[1])
       IN IF IsT(t, t.root) THEN (IF S = {} THEN {None, <<t>>} ELSE {None}) ELSE {<<FreeOn(ReattachTerms(t, t.root, S), S)>>}
\* which number a node gets is open: its tokens carry a name for it
IdStep(o, t) ==
  IF o.ids = None THEN {<<t>>}
  ELSE LET S == Labelled(t, o.ids[1]) \union {t.root}
       IN {<<MapInfo(t, LAMBDA n, i : IF i.k = "T" /\ n # t.root
                THEN [i EXCEPT !.x = FeatSet(i.x, IdKey(o), Some(ToString(ClosestIn(t, n, S)[1])))] ELSE i)>>}
FilterStep(o, t) == IF o.filter = None THEN {<<t>>}
                    ELSE LET K == Labelled(t, o.filter[1])
                         IN {<<FreeOn(Filter(t, K), Under(t, FilterGone(t, K)))>>}
InsertStep(o, t) ==
  IF o.insset = None THEN {<<t>>}
  ELSE IF InsertIntermediateErr(t) THEN {None}
  ELSE LET S == NTs(t) \ Labelled(t, o.insset[1])
           u == InsertIntermediate(t, [p \in S |-> InsLabel(o)])
       IN {<<FreeOn(u, (Ids(u) \ Ids(t)) \union UNION {TokKids(t, p) : p \in S})>>}
ParentStep(o, t) == IF o.parent = None THEN {<<t>>}
                    ELSE IF IsT(t, t.root) THEN {None} ELSE {<<AnnotateParent(t, o.parent[1])>>}
TagFeatOf(e, c) == (IF e = None THEN "NONE" ELSE e[1]) \o (IF c = None THEN "" ELSE "~" \o c[1])
TagStep(outf, t) ==
  IF outf \notin {"absolute", "relative"} THEN {<<t>>}
  ELSE LET c == Collapse(t, "_")
           enc == AbsEnc(c)
           texts == IF outf = "absolute" THEN AbsTexts(enc) ELSE RelTexts(enc)
           key == IF outf = "absolute" THEN "abs_ancestor" ELSE "rel_ancestor"
       IN IF ~ Projective(t) THEN {None}
          ELSE {<<MapInfo(c, LAMBDA n, i : IF i.k = "T"
                  THEN [i EXCEPT !.x = FeatSet(i.x, key, Some(TagFeatOf(texts[i.p + 1][1], texts[i.p + 1][2])))] ELSE i)>>}
Then(S, F(_)) == UNION {IF s = None THEN {None} ELSE F(s[1]) : s \in S}
\* the k-th tree of the input
Process(a, t, k) ==
  LET o == a.o
      s1 == DummyStep(o, PlainSec(t))
      s2 == Then(s1, LAMBDA u : ProjStep(o, u))
      s3 == Then(s2, LAMBDA u : PosStep(o, u, k))
      s4 == Then(s3, LAMBDA u : ReattachStep(o, u))
      s5 == Then(s4, LAMBDA u : IdStep(o, u))
      s6 == Then(s5, LAMBDA u : FilterStep(o, u))
      s7 == Then(s6, LAMBDA u : InsertStep(o, u))
      s8 == Then(s7, LAMBDA u : ParentStep(o, u))
  IN TLCEval(Then(s8, LAMBDA u : TagStep(a.outf, u)))

(* -- output ---------------------------------------------------------------- *)
Unwritable(a, u) == CASE IsBracket(a.outf) -> ~ Projective(u)
                      [] a.outf = "negra" -> ~ NegraRepresentable(u)
                      [] OTHER -> FALSE
CleanToken(i) == /\ Field(i.f) /\ Field(i.l) /\ FieldOpt(i.m) /\ i.f # "_" /\ i.l # "_" /\ i.m # <<"_">>
                 /\ \A q \in i.x : ~ HasAny(q[1], {"|", ":"}) /\ (q[2] # None => ~ HasAny(q[2][1], {"|"} \union Blank))
Sayable(a, u) == CASE IsBracket(a.outf) -> Expressible(u, a.outf)
                   [] a.outf = "negra" -> NegraExpressible(u)
                   [] OTHER -> \A n \in Terms(u) : CleanToken(u.info[n])
\* whatever label of the input t the open labels of u turn out to be
OpenTo(u, o) == [u EXCEPT !.lab = TLCEval([n \in DOMAIN u.lab |-> IF u.lab[n] = Free THEN o ELSE u.lab[n]]),
                          !.sec = {IF e[4] = Free THEN <<e[1], e[2], e[3], NpLabel(o)>> ELSE e : e \in @}]
AllSayable(a, t, u) == Sayable(a, u) /\ \A o \in {t.lab[n] : n \in DOMAIN t.lab} : Sayable(a, OpenTo(u, o))
OutItems(a, ls) ==
  CASE IsBracket(a.outf) -> LET q == NonEmpty(ls) IN [i \in DOMAIN q |-> Item(q[i], a.outf)]
    [] a.outf = "negra" -> NegraItems(ls)
    [] OTHER -> Blocks(ls)
FeatsOf(text) == IF text = None THEN {} ELSE FSet(FParse(text[1]))
\* rows of the tokens 1..m of u, where the numbers of the ids are open
RowsMatch(a, u, rows) ==
  LET s == Sent(u)
      key == IdKey(a.o)
      Want(i) == LET q == u.info[s[i]] IN <<q.f, q.m, Some(q.l), FeatDel(q.x, key)>>
      Got(i) == <<rows[i][1], rows[i][2], rows[i][3], FeatDel(FeatsOf(rows[i][4]), key)>>
      WantId(i) == IF FeatHas(u.info[s[i]].x, key) THEN FeatGet(u.info[s[i]].x, key) ELSE None
      GotId(i) == IF FeatHas(FeatsOf(rows[i][4]), key) THEN FeatGet(FeatsOf(rows[i][4]), key) ELSE None
      D == DOMAIN rows
  IN /\ Len(rows) <= Len(s)
     /\ \A i \in D : rows[i] # <<>>
     /\ \A i \in D : Got(i) = Want(i)
     /\ IF a.o.ids = None THEN \A i \in D : GotId(i) = WantId(i)
        ELSE /\ \A i, j \in D : (WantId(i) = WantId(j)) = (GotId(i) = GotId(j))
             /\ Len(rows) = Len(s) /\ ~ IsT(u, u.root) =>
                  {GotId(i) : i \in D} = {Some(IntText(n)) : n \in 0..(Cardinality({WantId(i) : i \in D}) - 1)}
\* the observed tree v with the labels left open by u taken out
OpenAs(v, u) ==
  LET R == {Ref(u, n) : n \in {n \in DOMAIN u.lab : u.lab[n] = Free}}
      E == {<<Ref(u, e[2]), Ref(u, e[3])>> : e \in {e \in u.sec : e[4] = Free}}
      w == IF R = {} THEN v ELSE FreeOn(v, {n \in DOMAIN v.lab : Ref(v, n) \in R})
  IN IF E = {} THEN w
     ELSE [w EXCEPT !.sec = {IF <<Ref(v, e[2]), Ref(v, e[3])>> \in E THEN <<e[1], e[2], e[3], Free>> ELSE e : e \in @}]
Denotes(v, u) == LET w == OpenAs(u, u) IN FullCanon(OpenAs(v, w)) = FullCanon(w)
Matches(a, u, out, cut, count) ==
  CASE IsBracket(a.outf) -> (cut /\ out.k = "err") \/ (out.k = "tree" /\ Denotes(out.t, Written(u, a.outf)))
    [] a.outf = "negra" -> (cut /\ out.k = "err")
                           \/ (out.k \in {"tree", "alt"} /\ Denotes(out.t, NegraWritten(u, count)))
    [] OTHER -> LET rows == ConllRows(out)
                    short == IF cut /\ rows[Len(rows)] = <<>> THEN SubSeq(rows, 1, Len(rows) - 1) ELSE rows
                IN RowsMatch(a, u, short) /\ (cut \/ Len(short) = NTerm(u))

(* Is there a run of the tool that ends like the observed one?                *)
(* i: next item of the input, j: next item of the output, k: trees read,      *)
(* count: sentences numbered by the writer                                    *)
CanFail(a, items, from, k0) ==
  \E i \in from..Len(items) :
     \/ items[i].k # "tree"
     \/ \E r \in Process(a, items[i].t, k0 + i - from) : r = None \/ (r # None /\ Unwritable(a, r[1]))
RECURSIVE Run(_, _, _, _, _, _, _, _)
Run(a, ok, items, outs, i, j, k, count) ==
  LET stop == ~ ok /\ j > Len(outs) IN
  IF i > Len(items) THEN ok /\ j > Len(outs)
  ELSE IF items[i].k = "any" THEN TRUE
  ELSE IF items[i].k = "err" THEN stop
  ELSE IF items[i].k = "opt" THEN stop \/ Run(a, ok, items, outs, i + 1, j, k, count)
  ELSE \/ items[i].k = "alt" /\ stop
       \/ \E r \in Process(a, items[i].t, k) :
            IF r = None THEN stop
            ELSE IF Unwritable(a, r[1]) THEN stop
            ELSE IF ~ AllSayable(a, items[i].t, r[1]) THEN TRUE
            ELSE \/ /\ j <= Len(outs)
                    /\ Matches(a, r[1], outs[j], ~ ok /\ j = Len(outs), count)
                    /\ Run(a, ok, items, outs, i + 1, j + 1, k + 1, IF HasId(r[1]) THEN count ELSE count + 1)
                 \* what was written last may be lost when the tool stops
                 \/ stop /\ CanFail(a, items, i + 1, k + 1)
\* ret: <<exit status is zero, lines of the output>>
ToolFaults(a, ret) ==
  LET items == TLCEval(InItems(a))
      outs == TLCEval(OutItems(a, ret[2]))
  IN IF Run(a, ret[1], items, outs, 1, 1, 1, 0) THEN {}
     ELSE IF ret[1] THEN {"cli: the output does not follow from the input and the options"}
     ELSE {"cli: the tool failed, or wrote what does not follow from the input and the options"}
=============================================================================
