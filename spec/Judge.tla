------------------------------- MODULE Judge --------------------------------
(* Is an observed step of the implementation a step of the specification?     *)
(* Faults(prop, pre, ev): the clauses of property prop that the logged event  *)
(* ev = [op, a, out, ret, post], taken in the logged state pre, violates.     *)
(* Each property looks at its own aspects only; what happened before is taken *)
(* from the log, so one fault does not spread.                                *)
EXTENDS TreeOps, Encoding, SpanFeat, Negra, Pipeline

Crashed(ev) == ev.out \notin {"ok", "err"}
C(name, ok) == IF ok THEN {} ELSE {name}
CrashFault(ev) == IF Crashed(ev) THEN {ev.op \o ": " \o ev.out} ELSE {}
\* trees with ev.a.depth nodes above one token.  Reading them, with ev.a.open brackets missing, and
\* then a tree with two nodes: <<trees, errors, nodes, nodes above the tokens>>; writing:
\* <<as expected, 0, nodes, brackets>>; comparing: <<with itself, with another one, nodes, 0>>
DeepAnswer(a) == CASE a.kind = "write" -> <<1, 0, a.depth + 1, a.depth + 1>>
                   [] a.kind = "eq" -> <<1, 0, a.depth + 1, 0>>
                   [] OTHER -> IF a.open = 0 THEN <<2, 0, a.depth + 3, a.depth + 1>> ELSE <<1, 1, 2, 1>>
DeepFault(ev) == IF ev.out = "ok" /\ ev.ret = DeepAnswer(ev.a) THEN {} ELSE {"deep: no or wrong answer"}
GoodState(J) == RawFaults(J) = {}

\* content of the raw state without anything derived
RawContent(J) == <<J.r, J.n, {<<q[1], q[2], q[3], JFeats(q[4]), q[5], q[6], ToSet(q[7]), q[8], q[9]>> : q \in JNodes(J)}, JEdges(J), J.p>>
SecBag(t) == LET K == {<<e[2], e[3], e[4]>> : e \in t.sec}
             IN {<<k, Cardinality({e \in t.sec : <<e[2], e[3], e[4]>> = k})>> : k \in K}
\* differences between the expected tree u and the observed tree t with the same node ids
LabOn(t, S) == RestrictTo(t.lab, DOMAIN t.lab \intersect S)
DiffBut(u, t, freelab) ==
  IF Ids(u) # Ids(t) THEN {"set of nodes"}
  ELSE C("root", u.root = t.root)
       \union C("sentence", \A n \in Ids(u) : u.info[n].p = t.info[n].p)
       \union C("node content", \A n \in Ids(u) : [u.info[n] EXCEPT !.p = 0] = [t.info[n] EXCEPT !.p = 0])
       \union C("dominance", u.par = t.par)
       \union C("edge labels", u.root = t.root => LabOn(u, Ids(u) \ freelab) = LabOn(t, Ids(t) \ freelab))
       \union C("secondary edges", SecBag(u) = SecBag(t))
Diff(u, t) == DiffBut(u, t, {})
Canonically(u, t) == C("structure or content", Canon(u) = Canon(t)) \union C("secondary edges", SecCanon(u) = SecCanon(t))

EdgeOfId(J, e) == CHOOSE q \in JEdges(J) : q[1] = e
HasEdge(J, e) == \E q \in JEdges(J) : q[1] = e
Unchanged(J, ev) == C(ev.op \o ": a rejected call changed the tree", RawContent(ev.post) = RawContent(J))
Bool(o, name) == C(name, o)

-----------------------------------------------------------------------------
(* C01, C02 *)
F01(J, ev) == CrashFault(ev) \union (IF Crashed(ev) THEN {} ELSE {ev.op \o ": " \o f : f \in RawFaults(ev.post)})

SpanFaults(J) ==
  LET odd == RawFaults(J) \ {"positions are 0..n-1", "reported length", "nonterminals have children"}
  IN IF odd # {} \/ "nonterminals have children" \in RawFaults(J) THEN {}
     ELSE LET t == Abs(J)
              Y == TLCEval([n \in Ids(t) |-> YieldRec(t, n)])
          IN C("span bounds", \A q \in JNodes(J) : q[5] = Min(Y[q[1]]) /\ q[6] = Max(Y[q[1]]) + 1)
             \union C("skipped positions", \A q \in JNodes(J) : ToSet(q[7]) = Gaps(Y[q[1]]))
             \union C("projectivity", J.p = \A n \in Ids(t) : Continuous(Y[n]))
Results02(ev) ==
  CASE ev.op \in {"ptbr", "negrar"} -> ToSet(ev.ret)
    [] ev.op = "ptbrt" -> IF ev.out = "ok" THEN ToSet(ev.ret[3]) ELSE {}
    [] ev.op = "negrart" -> IF ev.out = "ok" THEN ToSet(ev.ret[4]) ELSE {}
    [] OTHER -> {}
F02(J, ev) == CrashFault(ev)
              \union (IF Crashed(ev) THEN {} ELSE {ev.op \o ": " \o f : f \in SpanFaults(ev.post)})
              \union {ev.op \o ": " \o f : f \in UNION {SpanFaults(r[2]) : r \in Results02(ev)}}

-----------------------------------------------------------------------------
(* C03: which calls are rejected *)
MustReject(J, t, ev) ==
  CASE ev.op = "push" -> PushErr(t)
    [] ev.op = "remove" -> RemoveErr(t, ev.a.n)
    [] ev.op = "below" -> InsertBelowErr(t, ev.a.n)
    [] ev.op = "reattach" -> (LET e == EdgeOfId(J, ev.a.e)
                              IN IF e[4] = 1 THEN ReattachErr(t, e[3], ev.a.np) ELSE ReattachSecErr(t, ev.a.e, ev.a.np))
    [] ev.op = "insint" -> InsertIntermediateErr(t)
    [] OTHER -> FALSE
Edits03 == {"push", "remove", "below", "reattach", "rmsec", "above", "insterm", "move", "addsec", "insint"}
F03(J, ev) ==
  IF ev.op \notin Edits03 THEN {}
  ELSE LET t == Abs(J) IN
    CrashFault(ev)
    \union C(ev.op \o ": accepted against its documentation", ev.out = "ok" => ~ MustReject(J, t, ev))
    \union C(ev.op \o ": rejected against its documentation", ev.out = "err" => MustReject(J, t, ev))
    \union (IF ev.out = "err" THEN Unchanged(J, ev) ELSE {})
    \union (IF ev.op = "rmsec" /\ ev.out = "ok" /\ ~ (HasEdge(J, ev.a.e) /\ EdgeOfId(J, ev.a.e)[4] = 0)
            THEN C("rmsec: something was removed", ev.ret = <<>>) \union Unchanged(J, ev) ELSE {})

-----------------------------------------------------------------------------
(* C04: tokens as a list *)
WithToken(t, id, a) == [t EXCEPT !.info[id] = [@ EXCEPT !.m = a.m, !.x = JFeats(a.x)]]
RemovedFaults(t, n, ret) ==
  LET i == t.info[n]
  IN C("removed node returned", ret[1] = i.k /\ ret[2] = i.l /\ ret[3] = i.f /\ JFeats(ret[4][1]) = i.x)
F04(J, ev) ==
  IF ~ (ev.op \in {"push", "insterm", "move"} \/ (ev.op = "remove" /\ IsT(Abs(J), ev.a.n))) THEN {}
  ELSE IF ev.out # "ok" THEN CrashFault(ev)
  ELSE IF ~ GoodState(ev.post) THEN {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
  ELSE LET t == Abs(J)
           u == Abs(ev.post)
           a == ev.a
           id == IF ev.op \in {"push", "insterm"} THEN ev.ret[1] ELSE -1
           exp == CASE ev.op = "push" -> Push(t, id, a.form, a.l)
                    [] ev.op = "insterm" -> WithToken(InsertTerm(t, id, a.p, a.form, a.l, a.idx), id, a)
                    [] ev.op = "move" -> MoveTerm(t, a.n, a.idx)
                    [] ev.op = "remove" -> RemoveTerm(t, a.n)
       IN C(ev.op \o ": existing node returned as new", id \notin Ids(t))
          \union C(ev.op \o ": sentence", Sent(u) = Sent(exp))
          \union (IF ev.op = "remove" THEN RemovedFaults(t, a.n, ev.ret) ELSE {})
          \union {ev.op \o ": " \o f : f \in Diff(exp, u)}

-----------------------------------------------------------------------------
(* C05: structure *)
Edits05 == {"above", "below", "remove", "reattach", "addsec", "rmsec", "setlabel", "setedge", "setfeat"}
Exp05(J, t, ev) ==
  LET a == ev.a IN
  CASE ev.op = "above" -> InsertAbove(t, ev.ret[1], a.n, a.l)
    [] ev.op = "below" -> InsertBelow(t, ev.ret[1], a.n, a.l)
    [] ev.op = "remove" -> RemoveNode(t, a.n)
    [] ev.op = "reattach" -> (LET e == EdgeOfId(J, a.e)
                              IN IF e[4] = 1 THEN Reattach(t, e[3], a.np) ELSE ReattachSec(t, a.e, a.np, a.e))
    [] ev.op = "addsec" -> AddSec(t, -1, a.p, a.c, a.l)
    [] ev.op = "rmsec" -> IF HasSec(t, a.e) THEN RemoveSec(t, a.e) ELSE t
    [] ev.op = "setlabel" -> [t EXCEPT !.info[a.n].l = a.l]
    [] ev.op = "setfeat" -> [t EXCEPT !.info[a.n].x = FeatSet(@, a.key, a.v)]
    [] ev.op = "setedge" -> (LET e == EdgeOfId(J, a.e)
                             IN IF e[4] = 1 THEN [t EXCEPT !.lab[e[3]] = a.l]
                                ELSE [t EXCEPT !.sec = {IF s[1] = a.e THEN <<s[1], s[2], s[3], a.l>> ELSE s : s \in @}])
EdgeIs(J, id, src, dst, prim, lab) == HasEdge(J, id) /\ LET q == EdgeOfId(J, id) IN q[2] = src /\ q[3] = dst /\ q[4] = prim /\ q[5] = lab
Ret05(J, t, ev) ==
  LET a == ev.a IN
  CASE ev.op \in {"above", "below"} -> C("existing node returned as new", ev.ret[1] \notin Ids(t))
    [] ev.op = "remove" -> RemovedFaults(t, a.n, ev.ret)
    [] ev.op = "reattach" -> (LET e == EdgeOfId(J, a.e)
         IN C("returned edge", \E q \in JEdges(ev.post) : q[1] = ev.ret[1] /\ q[2] = a.np /\ q[3] = e[3] /\ q[4] = e[4])
            \union C("returned old edge", ev.ret[2] = <<e[4], e[5]>>))
    [] ev.op = "addsec" -> C("returned edge", EdgeIs(ev.post, ev.ret[1], a.p, a.c, 0, a.l) /\ ~ HasEdge(J, ev.ret[1]))
    [] ev.op = "rmsec" -> C("returned edge", ev.ret = IF HasSec(t, a.e) THEN <<<<0, EdgeOfId(J, a.e)[5]>>>> ELSE <<>>)
    [] ev.op = "setlabel" -> C("old value", ev.ret = <<t.info[a.n].l>>)
    [] ev.op = "setedge" -> C("old value", ev.ret = <<EdgeOfId(J, a.e)[5]>>)
    [] ev.op = "setfeat" -> C("old value", ev.ret = <<IF FeatHas(t.info[a.n].x, a.key) THEN FeatGet(t.info[a.n].x, a.key) ELSE None>>)
F05(J, ev) ==
  IF ev.op \notin Edits05 THEN {}
  ELSE IF ev.out # "ok" THEN CrashFault(ev)
  ELSE LET t == Abs(J) IN
       IF MustReject(J, t, ev) THEN {}
       ELSE IF ~ GoodState(ev.post) THEN {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
       ELSE {ev.op \o ": " \o f : f \in Ret05(J, t, ev) \union Diff(Exp05(J, t, ev), Abs(ev.post))}

-----------------------------------------------------------------------------
(* C24: content of nodes and edges, label sets *)
LastWins(x) == {x[i] : i \in {j \in DOMAIN x : \A k \in DOMAIN x : k > j => x[k][1] # x[j][1]}}
Exp24(J, t, ev) ==
  LET a == ev.a IN
  CASE ev.op \in {"setlabel", "setedge", "setfeat"} -> Exp05(J, t, ev)
    [] ev.op = "setform" -> IF IsT(t, a.n) THEN [t EXCEPT !.info[a.n].f = a.f] ELSE t
    [] ev.op = "setlemma" -> IF IsT(t, a.n) THEN [t EXCEPT !.info[a.n].m = a.m] ELSE t
    [] ev.op = "putfeats" -> [t EXCEPT !.info[a.n].x = IF a.none THEN {} ELSE LastWins(a.x)]
    [] OTHER -> t
NodeText(t, n) == LET i == t.info[n] IN IF i.k = "T" THEN i.l \o " " \o i.f ELSE i.l
EdgeText(o) == IF o = None THEN "--" ELSE o[1]
\* a token, the same with lemma and a feature, a nonterminal, the same renamed, ...
Made(a) == LET Tok(m, n) == <<TRUE, a.l, Some(a.f), m, <<a.at>>, n, TRUE>>
               Nt(l) == <<FALSE, l, None, None, <<0>>, 0, TRUE>>
               Edge(p) == <<p, a.el, EdgeText(a.el)>>
           IN <<Tok(None, 0), Tok(Some(a.l), 1), Nt(a.l), Nt(a.f), Some(a.l), TRUE, Edge(TRUE), Edge(FALSE)>>
Ret24(J, t, ev) ==
  LET a == ev.a IN
  CASE ev.op \in {"setlabel", "setedge", "setfeat"} -> Ret05(J, t, ev)
    [] ev.op = "setform" -> C("old value", ev.ret = <<t.info[a.n].f>>)
    [] ev.op = "setlemma" -> C("old value", ev.ret = <<t.info[a.n].m>>)
    [] ev.op = "putfeats" -> C("old value", (IF ev.ret[1] = <<>> THEN {} ELSE ToSet(ev.ret[1][1])) = t.info[a.n].x)
                             \* (features may be present and empty)
                             \union C("new value", IF a.none THEN ev.ret[2] = <<>>
                                                   ELSE Len(ev.ret[2]) = 1 /\ ToSet(ev.ret[2][1]) = LastWins(a.x))
    [] ev.op = "make" -> C("new values", ev.ret = Made(a))
    [] ev.op = "readedges" -> C("edges", ToSet(ev.ret) = {<<e[1], e[4] = 1, e[5], EdgeText(e[5])>> : e \in ToSet(J.E)} /\ Len(ev.ret) = Len(J.E))
    [] ev.op = "labelset" -> C("membership", ev.ret = [i \in DOMAIN a.qs |-> (a.qs[i] \in ToSet(a.labels)) # a.neg])
    [] ev.op = "reads" ->
         C("nodes", {q[1] : q \in ToSet(ev.ret)} = Ids(t) /\ Len(ev.ret) = Cardinality(Ids(t)))
         \union UNION {LET n == q[1] IN
              C("kind", q[2] = IsT(t, n) /\ (q[9] # <<>>) = q[2])
              \union C("label", q[3] = t.info[n].l /\ q[4] = t.info[n].l)
              \union C("features", ToSet(q[5]) = t.info[n].x /\ ToSet(q[6]) = t.info[n].x)
              \union C("text", q[10] = NodeText(t, n) /\ q[11] = q[10])
              \union C("span", q[7] = q[8] /\ (q[2] => q[7] = q[9])) : q \in {r \in ToSet(ev.ret) : r[1] \in Ids(t)}}
F24(J, ev) ==
  IF ev.op \notin {"setlabel", "setedge", "setfeat", "setform", "setlemma", "putfeats", "labelset", "reads", "readedges", "make"} THEN {}
  ELSE LET t == Abs(J) IN
    IF ev.op \in {"setform", "setlemma"} /\ ~ IsT(t, ev.a.n)
      THEN C(ev.op \o ": a nonterminal was taken for a token", ev.out = "err") \union CrashFault(ev)
    ELSE IF ev.out # "ok" THEN {ev.op \o ": " \o ev.out}
    ELSE IF ~ GoodState(ev.post) THEN {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
    ELSE {ev.op \o ": " \o f : f \in Ret24(J, t, ev) \union Diff(Exp24(J, t, ev), Abs(ev.post))}

-----------------------------------------------------------------------------
(* C06: projectivisation.  The log of moves is replayed on the specification. *)
(* A move does not name its target, but the target is where the constituent   *)
(* is found next: the old parent in its next move, or its parent in the end.  *)
MayHang(t0, t, seen, c, a) ==   \* the constituent c fills a gap of a, and a's turn may have come
  /\ a \in NTs(t) /\ IsGapStep(t, a, c)
  /\ a \in seen \/ \A b \in Below(t0, a) : IsT(t0, b) \/ Continuous(Yield(t, b))
TargetOf(moves, i, u) ==
  LET later == {j \in (i + 1)..Len(moves) : moves[j][4] = moves[i][4]}
  IN IF later # {} THEN moves[Min(later)][1] ELSE u.par[moves[i][4]]
RECURSIVE Replay(_, _, _, _, _, _)
Replay(t0, t, seen, moves, i, u) ==   \* the tree reached, or None
  IF i > Len(moves) THEN Some(t)
  ELSE LET m == moves[i] IN
    IF ~ (m[4] \in DOMAIN t.par /\ m[4] \in DOMAIN u.par /\ t.par[m[4]] = m[1] /\ t.lab[m[4]] = m[3] /\ m[2] = 1) THEN None
    ELSE LET a == TargetOf(moves, i, u)
         IN IF MayHang(t0, t, seen, m[4], a) THEN Replay(t0, TLCEval(Attach(t, m[4], a)), seen \union {a}, moves, i + 1, u) ELSE None
F06(J, ev) ==
  IF ev.op # "projectivize" THEN {}
  ELSE IF ev.out # "ok" THEN {"projectivize: " \o ev.out}
  ELSE IF ~ GoodState(ev.post) THEN {"projectivize: " \o f : f \in RawFaults(ev.post)}
  ELSE LET t == Abs(J)
           u == Abs(ev.post)
       IN IF Projective(t)
          THEN C("a continuous tree was reported as changed", ev.ret = <<>>) \union Diff(t, u)
          ELSE C("a discontinuous tree was reported as continuous", ev.ret # <<>>)
               \union C("discontinuous nodes remain", Projective(u))
               \union C("sentence, nodes or labels changed", u.info = t.info /\ u.root = t.root)
               \union C("secondary edges changed", SecBag(u) = SecBag(t))
               \union C("edge labels changed", u.lab = t.lab)
               \union (IF ev.ret = <<>> THEN {}
                       ELSE LET r == Replay(t, t, {}, ev.ret[1], 1, u)
                            IN IF r = None THEN {"a reported move is not a projectivisation step"}
                               ELSE C("the reported moves do not lead to the result", r[1].par = u.par))

-----------------------------------------------------------------------------
(* C07: unary chains *)
LabelFree(t, d) == \A n \in NTs(t) : ~ HasSub(t.info[n].l, d)
HasChains(t) == \E n \in Ids(t) : FeatHas(t.info[n].x, "unary_chain")
F07(J, ev) ==
  IF ev.op \notin {"collapse", "restore", "colres"} THEN {}
  ELSE LET t == Abs(J)  d == ev.a.d IN
    IF ~ LabelFree(t, d) \/ d = "" THEN {}
    ELSE IF RestoreErr(t) \/ (ev.op = "collapse" /\ RestoreErr(t)) THEN {}
    ELSE IF ev.out # "ok" THEN {ev.op \o ": " \o ev.out}
    ELSE IF ~ GoodState(ev.post) THEN {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
    ELSE LET u == Abs(ev.post) IN
      CASE ev.op = "collapse" ->
             (LET e == Collapse(t, d)
              IN {"collapse: " \o f : f \in DiffBut(e, u, {n \in DOMAIN t.par : t.par[n] \in Unary(t)})})
        [] ev.op = "colres" ->
             (LET e == IF HasChains(t) THEN Restore(Collapse(t, d), d)
                       ELSE MapInfo(t, LAMBDA n, i : IF n \in Unary(t) THEN [i EXCEPT !.x = {}] ELSE i)
              IN C("colres: the original tree is not restored", Canon(NoEdges(e)) = Canon(NoEdges(u))))
        [] ev.op = "restore" ->
             C("restore: chains", Canon(NoEdges(Restore(t, d))) = Canon(NoEdges(u)))

-----------------------------------------------------------------------------
(* C08: encodings of continuous trees *)
CleanLabels(t) == \A n \in NTs(t) : ~ HasAny(t.info[n].l, {"_", "~", "+"}) /\ t.info[n].l # ""
EncFeat(t, key) == [j \in 1..NTerm(t) |-> FeatHas(t.info[At(t, j - 1)].x, key)
                                           /\ FeatGet(t.info[At(t, j - 1)].x, key) # None]
TagFeat(tag, chain) == (IF tag = None THEN "NONE" ELSE tag[1]) \o (IF chain = None THEN "" ELSE "~" \o chain[1])
Annotated(t, key, texts) ==
  MapInfo(t, LAMBDA n, i : IF i.k = "T" THEN [i EXCEPT !.x = FeatSet(i.x, key, Some(TagFeat(texts[i.p + 1][1], texts[i.p + 1][2])))] ELSE i)
\* features of tokens, and the tags made of labels, survive being written as one text of features
TokenText(t) == \A n \in Terms(t) : \A q \in t.info[n].x : /\ q[1] # "" /\ ~ HasAny(q[1], {"|", ":"})
                                                        /\ q[2] # None => ~ HasAny(q[2][1], {"|"} \union Blank)
TagText(t) == TokenText(t) /\ \A n \in NTs(t) : ~ HasAny(t.info[n].l, {"|"}) /\ t.info[n].l # "NONE"
NoTokFeats(t) == MapInfo(t, LAMBDA n, i : [i EXCEPT !.x = {}])
NoLemma(t) == MapInfo(t, LAMBDA n, i : [i EXCEPT !.m = None])
F08(J, ev) ==
  IF ev.op \notin {"encabs", "encrel", "encrelabs", "encabsrel", "annabs", "annrel", "cyc"} THEN {}
  ELSE LET t == Abs(J) IN
    IF ~ CleanLabels(t) THEN {}
    ELSE IF ~ Projective(t) THEN C(ev.op \o ": a discontinuous tree was accepted", ev.out # "ok") \union CrashFault(ev)
    ELSE IF ev.op # "cyc" /\ Unary(t) # {} THEN {}
    ELSE IF ev.op = "cyc" /\ HasChains(t) THEN {}
    ELSE IF ev.op = "cyc" /\ ev.a.via \in {"cabs", "crel"} /\ ~ TagText(t) THEN {}
    ELSE IF ev.out # "ok" THEN {ev.op \o ": " \o ev.out}
    ELSE LET enc == TLCEval(AbsEnc(t)) IN
      CASE ev.op = "encabs" -> C("encabs: tags", ev.ret = AbsTexts(enc))
        [] ev.op = "encrel" -> C("encrel: tags", ev.ret = RelTexts(enc))
        [] ev.op = "encrelabs" -> C("encrelabs: conversion", ev.ret = <<"ok", AbsTexts(enc)>>)
        [] ev.op = "encabsrel" -> C("encabsrel: conversion", ev.ret = RelTexts(enc))
        [] ev.op = "annabs" -> {"annabs: " \o f : f \in Diff(Annotated(t, "abs_ancestor", AbsTexts(enc)), Abs(ev.post))}
        [] ev.op = "annrel" -> {"annrel: " \o f : f \in Diff(Annotated(t, "rel_ancestor", RelTexts(enc)), Abs(ev.post))}
        [] ev.op = "cyc" ->
             IF ~ GoodState(ev.post) THEN {"cyc: " \o f : f \in RawFaults(ev.post)}
             ELSE C("cyc: structure, labels or tokens", Canon(NoLemma(NoEdges(NoFeats(t)))) = Canon(NoLemma(NoEdges(NoFeats(Abs(ev.post))))))

-----------------------------------------------------------------------------
(* C09: arbitrary tags *)
TokensFault(t, toks) ==
  LET s == Sent(t)
  IN C("tokens", Len(s) = Len(toks) /\ \A i \in DOMAIN s : LET q == t.info[s[i]] IN q.f = toks[i][1] /\ q.l = toks[i][2] /\ q.m = toks[i][3])
Simple(enc) == \A i \in DOMAIN enc : enc[i][2] = None /\ (enc[i][1] # None => ~ HasAny(enc[i][1][1][1], {"_"}))
Shallow(enc) == \A i \in DOMAIN enc : enc[i][1] # None => enc[i][1][1][2] <= 500
DecodedFaults(J, enc, toks, restored) ==
  IF ~ GoodState(J) THEN RawFaults(J)
  ELSE LET t == Abs(J)
       IN TokensFault(t, toks)
          \union C("shared ancestors", GoodTags(enc) /\ (restored => Simple(enc)) => SharesAsTold(t, enc))
F09(J, ev) ==
  CASE ev.op = "decode" ->
         (LET enc == AbsOfTexts(ev.a.enc)
          IN IF ~ Shallow(enc) THEN {} ELSE IF ev.out # "ok" THEN {"decode: " \o ev.out}
             ELSE {"decode: " \o f : f \in DecodedFaults(ev.post, enc, ev.a.toks, FALSE)})
    [] ev.op = "absrel" ->
         (LET enc == AbsOfTexts(ev.a.enc) IN IF ev.out # "ok" THEN {"absrel: " \o ev.out} ELSE C("absrel: tags", ev.ret = RelTexts(enc)))
    [] ev.op = "tag" ->
         (LET want == ParseAbsTag(ev.a.t[1])
          IN IF want = None THEN C("tag: not a tag, but accepted", ev.out = "err") \union CrashFault(ev)
             ELSE IF ev.out # "ok" THEN {"tag: " \o ev.out}
             ELSE LET q == want[1] IN C("tag: parts and text", ev.ret = <<q[1], q[2], AbsText(q), q[1], q[2]>>))
    [] ev.op = "relabs" ->
         (LET r == FromRel(RelOf(AbsOfTexts(ev.a.enc)))
          IN IF ev.out # "ok" THEN {"relabs: " \o ev.out}
             ELSE C("relabs: fixable", (ev.ret[1] = "fix") = r.fixed)
                  \union C("relabs: tags", ev.ret[2] = AbsTexts(r.enc) /\ ev.ret[3] = AbsTexts(r.enc)))
    [] ev.op = "fromconll" ->
         (LET rows == ev.a.rows  rel == ev.a.rel IN
          IF ~ RowsOk(rows, rel) THEN C("fromconll: unusable tags were accepted", ev.out # "ok") \union CrashFault(ev)
          ELSE LET enc == RowsEnc(rows, rel)
               IN IF ~ Shallow(enc) THEN {} ELSE IF ev.out # "ok" THEN {"fromconll: " \o ev.out}
                  ELSE {"fromconll: " \o f : f \in DecodedFaults(ev.post, enc, RowToks(rows), TRUE)})
    [] ev.op = "remdummy" ->
         (IF ev.out # "ok" THEN {"remdummy: " \o ev.out}
          ELSE IF ~ GoodState(ev.post) THEN {"remdummy: " \o f : f \in RawFaults(ev.post)}
          ELSE LET t == Abs(J)  u == Abs(ev.post)
               IN {"remdummy: " \o f : f \in DiffBut(RemoveDummies(t), u, {n \in DOMAIN t.par : t.info[t.par[n]].l = "DUMMY"})}
                  \union C("remdummy: placeholders remain", \A n \in NTs(u) : u.info[n].l = "DUMMY" => n = u.root /\ Cardinality(Kids(u, n)) > 1))
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* C10 - C12: bulk edits *)
Bulk(J, ev, exp, free) ==
  IF ev.out # "ok" THEN {ev.op \o ": " \o ev.out}
  ELSE IF ~ GoodState(ev.post) THEN {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
  ELSE {ev.op \o ": " \o f : f \in DiffBut(exp, Abs(ev.post), free)}
F10(J, ev) ==
  IF ev.op \notin {"filter", "filterlab"} THEN {}
  ELSE LET t == Abs(J)
           keep == IF ev.op = "filter" THEN ToSet(ev.a.keep) ELSE {n \in NTs(t) : (t.info[n].l \in ToSet(ev.a.labels)) # ev.a.neg}
       IN Bulk(J, ev, Filter(t, keep), {n \in DOMAIN t.par : t.par[n] \in FilterGone(t, keep)})
SelOf(t, ev) == IF ev.op = "insint" THEN [p \in {q[1] : q \in ToSet(ev.a.sel)} |-> (CHOOSE q \in ToSet(ev.a.sel) : q[1] = p)[2]]
                ELSE [p \in {n \in NTs(t) : t.info[n].l \in ToSet(ev.a.labels)} |-> ev.a.l]
F11(J, ev) ==
  IF ev.op \notin {"insint", "insintlab"} THEN {}
  ELSE LET t == Abs(J) IN
    IF InsertIntermediateErr(t) THEN C(ev.op \o ": accepted", ev.out = "err")
    ELSE IF ev.out # "ok" THEN {ev.op \o ": " \o ev.out}
    ELSE IF ~ GoodState(ev.post) THEN {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
    ELSE LET u == Abs(ev.post)
             sel == SelOf(t, ev)
             e == InsertIntermediate(t, sel)
             moved == UNION {TokKids(t, p) : p \in DOMAIN sel}
             Blanked(w, old) == [w EXCEPT !.lab = TLCEval([n \in DOMAIN w.lab |-> IF n \in moved \/ n \notin old THEN None ELSE w.lab[n]])]
         IN C(ev.op \o ": nodes lost or changed", Ids(t) \subseteq Ids(u) /\ \A n \in Ids(t) : u.info[n] = t.info[n])
            \union {ev.op \o ": " \o f : f \in Canonically(Blanked(e, Ids(t)), Blanked(u, Ids(t)))}
F12(J, ev) ==
  IF ev.op # "reterm" THEN {}
  ELSE LET t == Abs(J)
           S == ToSet(ev.a.S)
       IN Bulk(J, ev, ReattachTerms(t, ev.a.att, S), S)

-----------------------------------------------------------------------------
(* C13: projections *)
IdsFaults(t, u, key, S) ==
  LET toks == {n \in Terms(t) : ClosestIn(t, n, S) # None}
      Val(n) == FeatGet(u.info[n].x, key)
      ok == \A n \in toks : FeatHas(u.info[n].x, key) /\ Val(n) # None
      groups == {ClosestIn(t, n, S)[1] : n \in toks}
  IN IF ~ ok THEN {"missing ids"}
     ELSE C("ids are equal exactly for tokens with the same ancestor",
            \A n, m \in toks : (Val(n) = Val(m)) = (ClosestIn(t, n, S) = ClosestIn(t, m, S)))
          \union C("ids are consecutive from zero", {Val(n)[1] : n \in toks} = {IntText(i) : i \in 0..(Cardinality(groups) - 1)})
          \union Diff(MapInfo(t, LAMBDA n, i : IF n \in toks THEN [i EXCEPT !.x = FeatDel(i.x, key)] ELSE i),
                      MapInfo(u, LAMBDA n, i : IF n \in toks THEN [i EXCEPT !.x = FeatDel(i.x, key)] ELSE i))
Climbed(t, n, S) == LET up == Up(t, n)  hit == {i \in DOMAIN up : up[i] \in S}
                    IN IF hit = {} THEN up ELSE SubSeq(up, 1, Min(hit))
F13(J, ev) ==
  IF ev.op \notin {"annparent", "projtags", "projids", "projidx", "annpos", "climb"} THEN {}
  ELSE LET t == Abs(J)  a == ev.a IN
    CASE Crashed(ev) -> CrashFault(ev)
      [] ev.op = "annparent" /\ IsT(t, t.root) -> C("annparent: a token without parent", ev.out = "err")
      [] ev.op = "annpos" /\ Len(a.tags) # NTerm(t) -> C("annpos: wrong number of tags accepted", ev.out = "err")
      [] ev.out # "ok" -> {ev.op \o ": " \o ev.out}
      [] ~ GoodState(ev.post) -> {ev.op \o ": " \o f : f \in RawFaults(ev.post)}
      [] OTHER ->
         LET u == Abs(ev.post) IN
         {ev.op \o ": " \o f : f \in
           CASE ev.op = "annparent" -> Diff(AnnotateParent(t, a.key), u)
             [] ev.op = "projtags" -> Diff(ProjectTags(t, a.key, ToSet(a.S)), u)
             [] ev.op = "projids" -> IdsFaults(t, u, a.key, ToSet(a.S))
             [] ev.op = "projidx" ->
                  Diff(t, u) \union C("indices", ev.ret = [i \in 1..NTerm(t) |->
                     LET c == ClosestIn(t, At(t, i - 1), ToSet(a.S)) IN IF c = None THEN t.root ELSE c[1]])
             [] ev.op = "annpos" -> Diff(AnnotatePos(t, a.tags), u)
             [] ev.op = "climb" ->
                  Diff(t, u)
                  \union C("ancestors visited", \A n \in Terms(t) :
                       LET mine == SelectSeq(ev.ret, LAMBDA q : q[1] = n)
                       IN [i \in DOMAIN mine |-> mine[i][2]] = Climbed(t, n, ToSet(a.S)))
                  \union C("visits", \A i \in DOMAIN ev.ret : ev.ret[i][1] \in Terms(t))}

-----------------------------------------------------------------------------
(* C14, C15: brackets *)
F14(J, ev) ==
  IF ev.op = "deep" THEN DeepFault(ev)
  ELSE IF ev.op # "ptbrt" THEN {}
  ELSE LET t == Abs(J)  fmt == ev.a.fmt IN
    IF ~ Projective(t) THEN C("ptbrt: a discontinuous tree was accepted", ev.out = "err")
    ELSE IF ev.out # "ok" THEN {"ptbrt: " \o ev.out}
    ELSE IF ~ Expressible(t, fmt) THEN {}
    ELSE LET w == Written(t, fmt)
             own == ParseBracket(ev.ret[1], fmt)
             file == SingleItems(ev.ret[2], fmt)
         IN {"ptbrt " \o fmt \o ": " \o f : f \in
              C("the text is not a bracketing", own.ok)
              \union C("the text denotes another tree", own.ok => FullCanon(own.t) = FullCanon(w))
              \union C("stream writer", Len(file) = 1 /\ file[1].k = "tree" /\ FullCanon(file[1].t) = FullCanon(w))
              \union C("reading it back failed", ev.ret[3][1][1] = "ok")
              \union C("another tree is read back", ev.ret[3][1][1] = "ok" => SameTree(ev.ret[3][1][2], w))
              \union C("writing it again gives another text", ev.ret[4] = ev.ret[1])}
F15(J, ev) ==
  IF ev.op = "deep" THEN DeepFault(ev)
  ELSE IF ev.op # "ptbr" THEN {}
  ELSE IF ev.out # "ok" THEN {"ptbr: " \o ev.out}
  ELSE {"ptbr: " \o f : f \in ReadFaults(BracketItems(ev.a.text, ev.a.fmt, ev.a.multi), ev.ret)}

-----------------------------------------------------------------------------
(* C16, C17: NEGRA *)
F16(J, ev) ==
  IF ev.op # "negrart" THEN {}
  ELSE IF ev.out # "ok" THEN {"negrart: " \o ev.out}
  ELSE IF \E i \in DOMAIN ev.ret[1] : ~ GoodState(ev.ret[1][i]) THEN {}
  ELSE LET ts == [i \in DOMAIN ev.ret[1] |-> Abs(ev.ret[1][i])]
           str == StreamOf(ts, 1, 0)
           okay == {i \in DOMAIN str : str[i][1]}
           want == [k \in 1..Cardinality(okay) |-> [k |-> "tree", t |-> str[AscSeq(okay)[k]][2]]]
           items == NegraItems(ev.ret[3])
       IN C("negrart: unrepresentable trees are rejected and only those", ev.ret[2] = [i \in DOMAIN str |-> str[i][1]])
          \union (IF \E i \in okay : ~ NegraExpressible(ts[i]) THEN {}
                  ELSE {"negrart: " \o f : f \in ReadFaults(want, ev.ret[4])}
                       \union C("negrart: the text is not laid out as the format requires", NegraLayout(ev.ret[3]))
                       \union C("negrart: the text denotes other trees",
                                Len(items) = Len(want) /\ \A i \in DOMAIN want :
                                   items[i].k \in {"tree", "alt"} /\ FullCanon(items[i].t) = FullCanon(want[i].t)))
F17(J, ev) ==
  IF ev.op # "negrar" THEN {}
  ELSE IF ev.out # "ok" THEN {"negrar: " \o ev.out}
  ELSE {"negrar: " \o f : f \in ReadFaults(NegraItems(Lines(ev.a.text)), ev.ret)}

-----------------------------------------------------------------------------
(* C18: CONLL-X *)
TokenOf(i) == <<i.f, i.m, Some(i.l), i.x>>
GotToken(q) == <<q[1], q[2], q[3], IF q[4] = <<>> THEN {} ELSE JFeats(q[4][1])>>
F18(J, ev) ==
  CASE ev.op = "toconll" ->
         (IF ev.out # "ok" THEN {"toconll: " \o ev.out}
          ELSE LET t == Abs(J)
                   s == Sent(t)
                   want == [i \in DOMAIN s |-> TokenOf(t.info[s[i]])]
                   got(q) == [i \in DOMAIN q |-> GotToken(q[i])]
                   clear == \A n \in Terms(t) : /\ Field(t.info[n].f) /\ Field(t.info[n].l) /\ FieldOpt(t.info[n].m)
                                                /\ t.info[n].f # "_" /\ t.info[n].l # "_" /\ t.info[n].m # <<"_">>
               IN IF ~ clear \/ ~ TokenText(t) THEN {}
                  ELSE C("toconll: borrowed tree", got(ev.ret[1]) = want)
                       \union C("toconll: consumed tree", got(ev.ret[2]) = want)
                       \union C("toconll: written text", Len(ev.ret[4]) = 1 /\ got(ev.ret[4][1]) = want)
                       \union {"toconll: " \o f : f \in Diff(t, Abs(ev.post))})
    [] ev.op = "cyc" -> IF ev.a.via \in {"cabs", "crel"} THEN F08(J, ev) ELSE {}
    [] ev.op = "fromconll" ->
         (LET rows == ev.a.rows  rel == ev.a.rel IN
          IF RowsOk(rows, rel) /\ ev.out = "ok" /\ GoodState(ev.post) /\ Shallow(RowsEnc(rows, rel)) /\ DecodeDomain(RowsEnc(rows, rel))
          THEN C("fromconll: tree", Canon(NoEdges(Abs(ev.post))) = Canon(NoEdges(Restore(DecodeGood(RowsEnc(rows, rel), RowToks(rows)), "_"))))
          ELSE F09(J, ev))
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* C19: equality *)
F19(J, ev) ==
  IF ev.op = "deep" THEN DeepFault(ev)
  ELSE IF ev.op # "eq" THEN {}
  ELSE IF ev.out # "ok" THEN {"eq: " \o ev.out}
  ELSE IF ~ GoodState(ev.ret[4]) THEN {}
  ELSE LET a == Abs(J)  b == Abs(ev.ret[4]) IN
    IF a.sec # {} \/ b.sec # {} THEN {}
    ELSE LET same == Canon(a) = Canon(b)
         IN C("eq: equal trees differ", same => ev.ret[1])
            \union C("eq: different trees are equal", ~ same => ~ ev.ret[1])
            \union C("eq: not symmetric", ev.ret[1] = ev.ret[2])
            \union C("eq: not reflexive", ev.ret[3])

(* C20: the tool, see Pipeline *)
F20(J, ev) ==
  IF ev.op # "cli" THEN {} ELSE IF ev.out # "ok" THEN {"cli: " \o ev.out} ELSE ToolFaults(ev.a, ev.ret)

(* C21, C22 *)
F21(J, ev) ==
  IF ev.op # "spans" THEN {}
  ELSE IF ev.out # "ok" THEN {"spans: " \o ev.out}
  ELSE LET Y == TLCEval([n \in {q[1] : q \in JNodes(J)} |-> JSpan(CHOOSE q \in JNodes(J) : q[1] = n)])
       IN IF \E n \in DOMAIN Y : Y[n] = {} THEN {}
          ELSE UNION {SpanFaults1(Y[q[1]], q) : q \in ToSet(ev.ret.per)}
               \union C("covers", \A q \in ToSet(ev.ret.rel) : q[3] = (Y[q[2]] \subseteq Y[q[1]]))
               \union C("order", \A q \in ToSet(ev.ret.rel) : q[4] = SpanCmp(Y[q[1]], Y[q[2]]) /\ q[5] = q[4])
               \union C("equality", \A q \in ToSet(ev.ret.rel) : q[6] = (Y[q[1]] = Y[q[2]]))
F22(J, ev) == IF ev.op # "feats" THEN {} ELSE IF ev.out # "ok" THEN {"feats: " \o ev.out} ELSE FeatFaults(ev.a.ops, ev.ret)

-----------------------------------------------------------------------------
(* C23: navigation *)
NavFaults1(prim, secd, t, q) ==
  LET n == q[1]
      EP(dst) == {<<e[2], e[1]>> : e \in {d \in prim : d[3] = dst}}
      ES(dst) == {<<e[2], e[1]>> : e \in {d \in secd : d[3] = dst}}
      KP(src) == {<<e[3], e[1]>> : e \in {d \in prim : d[2] = src}}
      KS(src) == {<<e[3], e[1]>> : e \in {d \in secd : d[2] = src}}
      Exactly(list, set) == ToSet(list) = set /\ Len(list) = Cardinality(set)
      up == Up(t, n)
  IN C("parent", ToSet(q[2]) = EP(n) /\ Len(q[2]) <= 1)
     \union C("secondary parent", Len(q[3]) <= 1 /\ ToSet(q[3]) \subseteq ES(n) /\ (ES(n) # {} => q[3] # <<>>))
     \union C("children", Exactly(q[4], KP(n)))
     \union C("secondary children", Exactly(q[5], KS(n)))
     \union C("siblings", Exactly(q[6], IF n = t.root THEN {} ELSE {k \in KP(t.par[n]) : k[1] # n}))
     \union C("terminal descendants", Exactly(q[7], TermsBelow(t, n)))
     \union C("climbing", q[8] = up)
     \union C("climbing with edges", Len(q[9]) = Len(up) /\ \A i \in DOMAIN up :
                 q[9][i][1] = up[i] /\ <<up[i], q[9][i][2]>> \in EP(IF i = 1 THEN n ELSE up[i - 1]))
F23(J, ev) ==
  IF ev.op # "nav" THEN {}
  ELSE IF ev.out # "ok" THEN {"nav: " \o ev.out}
  ELSE LET t == Abs(J)
           prim == {d \in JEdges(J) : d[4] = 1}
           secd == {d \in JEdges(J) : d[4] = 0}
           sib == ToSet(ev.ret.sib)
       IN
    {"nav: " \o f : f \in
      UNION {NavFaults1(prim, secd, t, q) : q \in ToSet(ev.ret.per)}
      \union C("nodes", {q[1] : q \in ToSet(ev.ret.per)} = Ids(t))
      \union C("terminals", ToSet(ev.ret.terms) = Terms(t) /\ Len(ev.ret.terms) = NTerm(t))
      \union C("nonterminals", ToSet(ev.ret.nts) = NTs(t) /\ Len(ev.ret.nts) = Cardinality(NTs(t)))
      \union C("sibling test", \A n, m \in Ids(t) : n # m =>
                (<<n, m>> \in sib) = (n # t.root /\ m # t.root /\ t.par[n] = t.par[m]))}

-----------------------------------------------------------------------------
(* C25: what is computed from a tree depends on the tree alone.               *)
(* ret: <<the other tree, the texts: <<what, of this tree, of its copy, of    *)
(* the other>>, repeated edits: <<what, the states afterwards>>>>             *)
F25(J, ev) ==
  CASE ev.op = "again" ->
         (IF ev.out # "ok" THEN {"again: " \o ev.out}
          ELSE LET same == GoodState(ev.ret[1]) /\ FullCanon(Abs(J)) = FullCanon(Abs(ev.ret[1]))
                   texts == ToSet(ev.ret[2])
               IN C("again: not the tree that was asked for", same)
                  \union {"again: another result for the same tree: " \o q[1] : q \in {q \in texts : q[2] # q[3]}}
                  \union {"again: another result for an equal tree: " \o q[1] : q \in {q \in texts : same /\ q[2] # q[4]}}
                  \union {"again: repeating does not give the same tree: " \o q[1] :
                            q \in {q \in ToSet(ev.ret[3]) : Cardinality({FullCanon(Abs(q[2][i])) : i \in DOMAIN q[2]}) # 1}})
    [] ev.op = "cli2" -> IF ev.out # "ok" THEN {"cli2: " \o ev.out} ELSE C("cli2: a second run gives another output", ev.ret[1] = ev.ret[2])
    [] OTHER -> {}

-----------------------------------------------------------------------------
Faults(prop, J, ev) ==
  CASE prop = "C02" -> F02(J, ev)
    [] prop = "C21" -> F21(J, ev)
    [] prop = "C22" -> F22(J, ev)
    [] ~ GoodState(J) -> {}
    [] prop = "C01" -> F01(J, ev)
    [] prop = "C03" -> F03(J, ev)
    [] prop = "C04" -> F04(J, ev)
    [] prop = "C05" -> F05(J, ev)
    [] prop = "C06" -> F06(J, ev)
    [] prop = "C07" -> F07(J, ev)
    [] prop = "C08" -> F08(J, ev)
    [] prop = "C09" -> F09(J, ev)
    [] prop = "C10" -> F10(J, ev)
    [] prop = "C11" -> F11(J, ev)
    [] prop = "C24" -> F24(J, ev)
    [] prop = "C12" -> F12(J, ev)
    [] prop = "C13" -> F13(J, ev)
    [] prop = "C14" -> F14(J, ev)
    [] prop = "C15" -> F15(J, ev)
    [] prop = "C16" -> F16(J, ev)
    [] prop = "C17" -> F17(J, ev)
    [] prop = "C18" -> F18(J, ev)
    [] prop = "C19" -> F19(J, ev)
    [] prop = "C20" -> F20(J, ev)
    [] prop = "C23" -> F23(J, ev)
    [] prop = "C25" -> F25(J, ev)
\* faults of the state a case starts from, which was itself built through the API
StartFaults(prop, J) ==
  CASE prop = "C01" -> {"start: " \o f : f \in RawFaults(J)}
    [] prop = "C02" -> {"start: " \o f : f \in SpanFaults(J)}
    [] OTHER -> {}
=============================================================================
