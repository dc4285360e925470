------------------------------- MODULE Trees --------------------------------
(* Constituency trees, abstractly.  A tree is a record                        *)
(*   root : node id                                                           *)
(*   info : id -> [k |-> "T"/"N", l |-> label/tag, x |-> set of <<name, opt>>,*)
(*                 f |-> form, m |-> opt lemma, p |-> position (0-based) / -1]*)
(*   par  : id (except root) -> id        the primary parent                  *)
(*   lab  : id (except root) -> opt label of the primary edge above it        *)
(*   sec  : set of <<edge id, source, target, opt label>>                     *)
(* Everything the implementation caches (spans, number of terminals, count of *)
(* discontinuous nodes) is *derived* here.                                    *)
EXTENDS Text, Functions

Ids(t) == DOMAIN t.info
IsT(t, n) == t.info[n].k = "T"
Terms(t) == {n \in Ids(t) : t.info[n].k = "T"}
NTs(t) == {n \in Ids(t) : t.info[n].k = "N"}
NTerm(t) == Cardinality(Terms(t))
Kids(t, n) == {c \in DOMAIN t.par : t.par[c] = n}
Pos(t, n) == t.info[n].p

\* proper ancestors from the parent up to the root
RECURSIVE Up(_, _)
Up(t, n) == IF n = t.root THEN <<>> ELSE <<t.par[n]>> \o Up(t, t.par[n])
Above(t, n) == ToSet(Up(t, n))
Dominates(t, a, n) == a \in Above(t, n)
Depth(t, n) == Len(Up(t, n))
Below(t, n) == {c \in Ids(t) : Dominates(t, n, c)}
TermsBelow(t, n) == {c \in Terms(t) : c = n \/ Dominates(t, n, c)}
Yield(t, n) == {Pos(t, c) : c \in TermsBelow(t, n)}
RECURSIVE YieldRec(_, _)
YieldRec(t, n) == IF IsT(t, n) THEN {Pos(t, n)} ELSE UNION {YieldRec(t, c) : c \in Kids(t, n)}

Gaps(Y) == (Min(Y)..Max(Y)) \ Y
Continuous(Y) == Gaps(Y) = {}
Discont(t) == {n \in NTs(t) : ~ Continuous(Yield(t, n))}
Projective(t) == Discont(t) = {}

\* the sentence: terminal ids in linear order
Sent(t) == SetToSortSeq(Terms(t), LAMBDA a, b : Pos(t, a) < Pos(t, b))
At(t, i) == CHOOSE n \in Terms(t) : Pos(t, n) = i

-----------------------------------------------------------------------------
(* Well-formedness *)
RECURSIVE ReachesRoot(_, _, _)
ReachesRoot(t, n, k) == \/ n = t.root
                        \/ k > 0 /\ n \in DOMAIN t.par /\ ReachesRoot(t, t.par[n], k - 1)
WellFormed(t) ==
  /\ t.root \in Ids(t)
  /\ DOMAIN t.par = Ids(t) \ {t.root}
  /\ DOMAIN t.lab = DOMAIN t.par
  /\ \A n \in DOMAIN t.par : t.par[n] \in NTs(t)
  /\ \A n \in Ids(t) : ReachesRoot(t, n, Cardinality(Ids(t)))
  /\ \A n \in NTs(t) : Kids(t, n) # {}
  /\ {Pos(t, n) : n \in Terms(t)} = 0..(NTerm(t) - 1)
  /\ \A e \in t.sec : e[2] \in Ids(t) /\ e[3] \in Ids(t)

-----------------------------------------------------------------------------
(* Numbering-independent content *)
RECURSIVE CanonAt(_, _)
CanonAt(t, n) ==
  LET i == t.info[n] IN
  IF i.k = "T" THEN <<"T", i.p, i.l, i.f, i.m, i.x>>
  ELSE <<"N", i.l, i.x, {<<t.lab[c], CanonAt(t, c)>> : c \in Kids(t, n)}>>
Canon(t) == CanonAt(t, t.root)
\* a name for a node that does not depend on numbering
Ref(t, n) == <<Yield(t, n), Depth(t, n)>>
\* as bag: number of edges per <<source, target, label>>
SecCanon(t) == LET K == {<<Ref(t, e[2]), Ref(t, e[3]), e[4]>> : e \in t.sec}
               IN {<<k, Cardinality({e \in t.sec : <<Ref(t, e[2]), Ref(t, e[3]), e[4]>> = k})>> : k \in K}
FullCanon(t) == <<Canon(t), SecCanon(t)>>

\* content with one aspect blanked out
MapInfo(t, F(_, _)) == [t EXCEPT !.info = [n \in Ids(t) |-> F(n, t.info[n])]]
NoFeats(t) == MapInfo(t, LAMBDA n, i : [i EXCEPT !.x = {}])
NoEdges(t) == [t EXCEPT !.lab = [n \in DOMAIN t.lab |-> None]]
NoSec(t) == [t EXCEPT !.sec = {}]
DropFeat(t, key) == MapInfo(t, LAMBDA n, i : [i EXCEPT !.x = {q \in i.x : q[1] # key}])
KeepFeats(t, K) == MapInfo(t, LAMBDA n, i : [i EXCEPT !.x = {q \in i.x : q[1] \in K}])

FeatSet(x, key, opt) == {q \in x : q[1] # key} \union {<<key, opt>>}
FeatDel(x, key) == {q \in x : q[1] # key}
FeatHas(x, key) == \E q \in x : q[1] = key
FeatGet(x, key) == (CHOOSE q \in x : q[1] = key)[2]   \* an option

-----------------------------------------------------------------------------
(* From the projected state of the implementation (JSON) to abstract trees:   *)
(* J.N: <<id, kind, label, features, start, end, skips, form, lemma>>         *)
(* J.E: <<edge id, source, target, 1 if primary, opt label>>                  *)
JNodes(J) == ToSet(J.N)
JEdges(J) == ToSet(J.E)
JPrim(J) == {e \in JEdges(J) : e[4] = 1}
JFeats(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}
NodeInfo(q) == [k |-> q[2], l |-> q[3], x |-> JFeats(q[4]), f |-> q[8], m |-> q[9],
                p |-> IF q[2] = "T" THEN q[5] ELSE -1]
JSpan(q) == (q[5]..(q[6] - 1)) \ ToSet(q[7])

\* the clauses of C01 on the raw projected state
RawFaults(J) ==
  LET ids == {q[1] : q \in JNodes(J)}
      ts == {q \in JNodes(J) : q[2] = "T"}
      E == JPrim(J)
      In(n) == {e \in E : e[3] = n}
      Out(n) == {e \in E : e[2] = n}
      RECURSIVE Grow(_)
      Grow(S) == LET S2 == S \union {e[3] : e \in {d \in E : d[2] \in S}}
                 IN IF S2 = S THEN S ELSE Grow(S2)
      F(name, ok) == IF ok THEN {} ELSE {name}
  IN F("node ids distinct", Cardinality(ids) = Len(J.N))
     \union F("root is a node", J.r \in ids)
     \union F("root has no parent", In(J.r) = {})
     \union F("one primary parent", \A n \in ids \ {J.r} : Cardinality(In(n)) = 1)
     \union F("dominated by root", Grow({J.r}) = ids)
     \union F("terminals are leaves", \A q \in ts : Out(q[1]) = {})
     \union F("nonterminals have children", \A q \in JNodes(J) \ ts : Out(q[1]) # {})
     \union F("positions are 0..n-1", {q[5] : q \in ts} = 0..(Cardinality(ts) - 1))
     \union F("reported length", J.n = Cardinality(ts))
Abs(J) ==
  LET nodes == JNodes(J)
      prim == JPrim(J)
      ids == {q[1] : q \in nodes}
      kids == {e[3] : e \in prim}
  IN [root |-> J.r,
      info |-> TLCEval([n \in ids |-> NodeInfo(CHOOSE q \in nodes : q[1] = n)]),
      par  |-> TLCEval([n \in kids |-> (CHOOSE e \in prim : e[3] = n)[2]]),
      lab  |-> TLCEval([n \in kids |-> (CHOOSE e \in prim : e[3] = n)[5]]),
      sec  |-> {<<e[1], e[2], e[3], e[5]>> : e \in JEdges(J) \ prim}]
=============================================================================
