-------------------------------- MODULE Laws --------------------------------
(* Laws of the operators that the trace validation uses as oracle, checked on *)
(* whole small input spaces: every tree over MaxT tokens with up to MaxN      *)
(* nonterminals, every pair of small trees, every short text, ...             *)
(* A configuration picks an input space (INIT) and a law (INVARIANT).         *)
EXTENDS Judge, Small

CONSTANTS MaxT, MaxN, MaxL

VARIABLE x
NoStep == UNCHANGED x
-----------------------------------------------------------------------------
InitTrees == x \in SmallTrees(MaxT, MaxN)
InitPairs == x \in SmallTrees(MaxT, MaxN) \X SmallTrees(MaxT, MaxN)

\* the same tree with other contents
Marked(t) == MapInfo(t, LAMBDA n, i : IF i.k = "N" /\ n % 2 = 1 THEN [i EXCEPT !.x = {<<"node_annotation", Some("HD")>>}]
                                      ELSE IF i.k = "T" /\ i.p % 2 = 1 THEN [i EXCEPT !.f = "x(", !.l = ")y"] ELSE i)
Rooted(t) == ~ IsT(t, t.root)

(* C07 *)
ChainsInverse == LET c == Collapse(x, "_") IN
  /\ WellFormed(c) /\ Unary(c) = {}
  /\ FullCanon(Collapse(c, "_")) = FullCanon(c)
  /\ Canon(NoEdges(Restore(c, "_"))) = Canon(NoEdges(x))
  /\ Sent(c) = Sent(x)
\* the same by removing unary nodes one at a time, lowest first
RECURSIVE ByHand(_)
ByHand(t) ==
  IF Unary(t) = {} THEN t
  ELSE LET n == CHOOSE n \in Unary(t) : \A m \in Unary(t) : ~ Dominates(t, n, m)
           c == CHOOSE c \in Kids(t, n) : TRUE
           o == IF FeatHas(t.info[c].x, "unary_chain") THEN FeatGet(t.info[c].x, "unary_chain")[1] \o "_" ELSE ""
           u == [t EXCEPT !.info[c].x = FeatSet(@, "unary_chain", Some(o \o t.info[n].l))]
       IN ByHand(RemoveNT(u, n))
ChainsByHand == Canon(NoEdges(ByHand(x))) = Canon(NoEdges(Collapse(x, "_")))

(* C08 *)
ToksOf(t) == [i \in 1..NTerm(t) |-> LET q == t.info[At(t, i - 1)] IN <<q.f, q.l, q.m>>]
EncodingInverse ==
  Projective(x) =>
    LET c == Collapse(x, "_")
        e == AbsEnc(c)
        d == DecodeGood(e, ToksOf(c))
    IN /\ DecodeDomain(e) /\ SharesAsTold(c, e)
       /\ WellFormed(d)
       /\ Canon(NoEdges(d)) = Canon(NoEdges(c))
       /\ Canon(NoEdges(Restore(d, "_"))) = Canon(NoEdges(x))
       /\ LET r == FromRel(RelOf(e)) IN ~ r.fixed /\ r.enc = e
       \* the texts are read back
       /\ \A i \in DOMAIN e : e[i][1] # None =>
            /\ ParseAbsTag(AbsText(e[i][1][1])) = e[i][1]
            /\ ParseRelTag(RelTexts(e)[i][1][1]) = RelOf(e)[i][1]
\* tokens that are separated share as many ancestors as the encoding says: nothing else is used
(* C10 *)
Subsets == SUBSET NTs(x)
FilterLaws ==
  /\ Filter(x, NTs(x)) = x
  /\ \A K \in Subsets : Filter(Filter(x, K), K) = Filter(x, K)
  /\ \A K, L \in Subsets : Filter(Filter(x, K), L) = Filter(x, K \intersect L)
(* C11 *)
InsertLaws ==
  Rooted(x) =>
  /\ InsertIntermediate(x, [p \in {} |-> "I"]) = x
  /\ \A K \in Subsets :
       LET u == InsertIntermediate(x, [p \in K |-> "I"])
       IN /\ WellFormed(u)
          /\ InsertIntermediate(u, [p \in K |-> "I"]) = u
          /\ Discont(u) = Discont(x)
          /\ \A L \in Subsets : K \intersect L = {} =>
               FullCanon(InsertIntermediate(u, [p \in L |-> "J"]))
               = FullCanon(InsertIntermediate(x, [p \in K \union L |-> IF p \in K THEN "I" ELSE "J"]))
(* C12: one token after the other; a node that was emptied stays gone *)
RECURSIVE OneByOne(_, _, _)
OneByOne(t, att, S) ==
  IF S = {} THEN t
  ELSE LET n == CHOOSE n \in S : \A m \in S : Pos(t, n) <= Pos(t, m)
       IN OneByOne(ReattachTerms(t, att, {n}), att, S \ {n})
ReattachLaws ==
  \A a \in NTs(x), S \in SUBSET Terms(x) :
     LET u == ReattachTerms(x, a, S)
     IN /\ WellFormed(u) /\ Canon(NoEdges(OneByOne(x, a, S))) = Canon(NoEdges(u))
        /\ ReattachTerms(u, a, S) = [u EXCEPT !.lab = [n \in DOMAIN u.lab |-> IF n \in S THEN None ELSE @[n]]]
(* C13 *)
ClimbLaws ==
  \A S \in Subsets, n \in Terms(x) :
     LET c == ClosestIn(x, n, S)
     IN IF c = None THEN Above(x, n) \intersect S = {}
        ELSE c[1] \in S /\ Dominates(x, c[1], n) /\ \A m \in S : Dominates(x, c[1], m) => ~ Dominates(x, m, n)
(* C14 *)
BracketInverse ==
  \A fmt \in {"simple", "ptb", "tueba"}, t \in {x, Marked(x)} :
     LET r == ParseBracket(Show(t, fmt), fmt)
     IN Projective(t) => /\ Expressible(t, fmt)
                         /\ r.ok
                         /\ FullCanon(r.t) = FullCanon(Written(t, fmt))
                         /\ Show(r.t, fmt) = Show(t, fmt)
(* C16: a plain writer for the line format *)
NegraShow(t, id) ==
  LET nts == SetToSeq(NTs(t) \ {t.root})
      Num(n) == IF n = t.root THEN "0" ELSE IntText(499 + (CHOOSE i \in DOMAIN nts : nts[i] = n))
      O(o) == IF o = None THEN "--" ELSE o[1]
      Secs(n) == LET q == SetToSeq({e \in t.sec : e[3] = n}) IN Join([i \in DOMAIN q |-> " " \o O(q[i][4]) \o " " \o Num(q[i][2])], "")
      Tok(n) == LET i == t.info[n] IN i.f \o " " \o O(i.m) \o " " \o i.l \o " " \o O(OptFeat(i.x, "morph")) \o " " \o O(t.lab[n])
                                      \o " " \o Num(t.par[n]) \o Secs(n)
      Nt(n) == LET a == OptFeat(t.info[n].x, "node_annotation")
               IN "#" \o Num(n) \o " -- " \o t.info[n].l \o (IF a = None THEN "" ELSE "=" \o a[1]) \o " -- " \o O(t.lab[n]) \o " " \o Num(t.par[n]) \o Secs(n)
      s == Sent(t)
  IN <<"#BOS " \o IntText(id)>> \o [i \in DOMAIN s |-> Tok(s[i])] \o [i \in DOMAIN nts |-> Nt(nts[i])] \o <<"#EOS " \o IntText(id)>>
WithSec(t) ==
  LET top == Max(Ids(t))
      inner == NTs(t) \ {t.root}
      first == {<<1, t.root, top, Some("s")>>}
      second == IF inner = {} THEN {} ELSE {<<2, Min(inner), top, None>>}
  IN [t EXCEPT !.sec = first \union second]
NegraInverse ==
  Rooted(x) => \A t \in {x, WithSec(x)} :
     LET items == NegraItems(NegraShow(t, 7))
     IN /\ NegraRepresentable(t) /\ NegraExpressible(t)
        /\ Len(items) = 1 /\ items[1].k \in {"tree", "alt"}
        /\ FullCanon(items[1].t) = FullCanon(NegraWritten(t, 7))
\* the order of the nonterminal lines does not matter
NegraOrder ==
  Rooted(x) =>
     LET l == NegraShow(x, 7)
         n == NTerm(x)
         nts == SubSeq(l, n + 2, Len(l) - 1)
         back == SubSeq(l, 1, n + 1) \o Reverse(nts) \o <<l[Len(l)]>>
     IN FullCanon(NegraItems(back)[1].t) = FullCanon(NegraItems(l)[1].t)
\* a broken sentence costs itself and nothing else
NegraDamage ==
  Rooted(x) =>
     LET l == NegraShow(x, 7)
         good == NegraShow(x, 8)
     IN \A i \in 1..Len(l) :
          LET cut == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
              items == NegraItems(cut \o good)
              survives == \E k \in DOMAIN items : /\ items[k].k \in {"tree", "alt"}
                                                 /\ FullCanon(items[k].t) = FullCanon(NegraWritten(x, 8))
          IN i = Len(l) \/ survives    \* without #EOS the next #BOS is what fails
(* C18 *)
RowsInverse ==
  Projective(x) =>
    LET c == Collapse(x, "_")
        e == AbsEnc(c)
        Row(i, key, texts) == LET q == c.info[At(c, i - 1)]
                              IN <<q.f, q.m, Some(q.l), Some("a|" \o key \o ":" \o TagFeat(texts[i][1], texts[i][2]) \o "|b:1")>>
        abs == [i \in DOMAIN e |-> Row(i, "abs_ancestor", AbsTexts(e))]
        rel == [i \in DOMAIN e |-> Row(i, "rel_ancestor", RelTexts(e))]
    IN /\ RowsOk(abs, FALSE) /\ RowsOk(rel, TRUE)
       /\ RowsEnc(abs, FALSE) = e /\ RowsEnc(rel, TRUE) = e
       /\ ~ RowsOk(abs, TRUE) /\ ~ RowsOk(rel, FALSE)
(* C23 *)
NavLaws ==
  /\ \A n \in Ids(x), c \in DOMAIN x.par : (c \in Kids(x, n)) <=> (x.par[c] = n)
  /\ \A n, m \in Ids(x) : n \in Siblings(x, m) <=> m \in Siblings(x, n)
  /\ \A n \in Ids(x) : Yield(x, n) = YieldRec(x, n) /\ TermsBelow(x, n) = {At(x, p) : p \in Yield(x, n)}
  /\ \A n \in Ids(x) : n = x.root <=> Up(x, n) = <<>>
(* C02: spans of descendants are covered, siblings are disjoint *)
SpanLaws ==
  /\ \A c \in DOMAIN x.par : Yield(x, c) \subseteq Yield(x, x.par[c])
  /\ \A n, m \in Ids(x) : n \in Siblings(x, m) => Yield(x, n) \intersect Yield(x, m) = {}
  /\ Yield(x, x.root) = 0..(NTerm(x) - 1)
(* C06 *)
(* C25: nodes are treated in some bottom-up order; the order in which the     *)
(* gaps of a node are closed makes no difference to the outcome.              *)
RECURSIVE CloseGaps(_, _)
CloseGaps(S, a) ==
  LET open == {t \in S : ~ Continuous(Yield(t, a))}
  IN IF open = {} THEN S
     ELSE CloseGaps((S \ open) \union UNION {{Attach(t, q[2], q[1]) : q \in {q \in GapSteps(t) : q[1] = a}} : t \in open}, a)
BottomUp(t) == {o \in [1..Cardinality(NTs(t)) -> NTs(t)] :
                  \A i, j \in DOMAIN o : i < j => o[i] # o[j] /\ ~ Dominates(t, o[i], o[j])}
Treated(t, o) == FoldLeft(CloseGaps, {t}, o)
GapOrderIrrelevant == \A o \in BottomUp(x) : /\ Cardinality(Treated(x, o)) = 1
                                             /\ Treated(x, o) \subseteq Projectivised(x)
ProjLaws == \A u \in Projectivised(x) : WellFormed(u) /\ Projective(u) /\ Projectivised(u) = {u}

-----------------------------------------------------------------------------
(* C19: comparing node by node while walking both trees, children by position *)
OrderedKids(t, n) == SetToSortSeq(Kids(t, n), LAMBDA a, b : Min(YieldRec(t, a)) < Min(YieldRec(t, b)))
RECURSIVE WalkEq(_, _, _, _)
WalkEq(t, n, u, m) ==
  LET c == OrderedKids(t, n)  d == OrderedKids(u, m)
      i == t.info[n]  j == u.info[m]
  IN /\ i.k = j.k /\ i.l = j.l /\ i.x = j.x /\ i.f = j.f /\ i.m = j.m /\ i.p = j.p
     /\ Len(c) = Len(d)
     /\ \A k \in DOMAIN c : t.lab[c[k]] = u.lab[d[k]] /\ WalkEq(t, c[k], u, d[k])
EqualityLaw == (Canon(x[1]) = Canon(x[2])) = WalkEq(x[1], x[1].root, x[2], x[2].root)

-----------------------------------------------------------------------------
(* C15: all texts up to MaxL tokens *)
TextTokens == {"(", ")", "a", " ", "\n", "%"}
InitTexts == x = ""
GrowTexts == Len(x) < MaxL /\ \E c \in TextTokens : x' = x \o c
Trees1(items) == SelectSeq(items, LAMBDA i : i.k = "tree")
\* what a reader returns for a text does not depend on what was read before, as long
\* as that was complete; a text of single-line trees reads the same in both modes
Complete1(s) == LET i == MultiItems(s, "simple") IN \A k \in DOMAIN i : i[k].k = "tree"
ReaderLaws ==
  LET p == "(a (a a))\n"
      m == MultiItems(p \o x, "simple")
      s == SingleItems(p \o x, "simple")
  IN /\ Len(m) >= 1 /\ m[1].k = "tree" /\ Tail(m) = MultiItems(x, "simple")
     /\ s[1].k = "tree" /\ Tail(s) = SingleItems(x, "simple")
     \* balanced lines: same trees
     /\ (\A i \in DOMAIN Lines(x) : Item(Lines(x)[i], "simple").k = "tree")
          => MultiItems(x, "simple") = SingleItems(x, "simple")
     \* an accepted bracketing is balanced, and no prefix closes more than it opened
     /\ LET r == ParseBracket(x, "simple")
        IN r.ok => /\ Opens(x) = Closes(x)
                   /\ \A i \in 1..Len(x) : Opens(Cut(x, 1, i)) >= Closes(Cut(x, 1, i))
                   /\ Cardinality(Ids(r.t)) = Opens(x)
                   /\ WellFormed(r.t)
                   /\ ParseBracket(Show(r.t, "simple"), "simple").ok
\* C17: every sequence of short lines has a verdict, and one result per #BOS at least
LineKinds == {"#BOS 1", "#EOS 1", "w -- T -- -- 0", "w -- T -- -- 500", "#500 -- X -- -- 0", "#500 -- X -- -- 500", "%% c"}
InitLines == x = <<>>
GrowLines == Len(x) < MaxL /\ \E c \in LineKinds : x' = Append(x, c)
LineLaws ==
  LET items == NegraItems(x)
      trees == {i \in DOMAIN items : items[i].k \in {"tree", "alt"}}
      bos == {i \in DOMAIN x : x[i] = "#BOS 1"}
      eos == {i \in DOMAIN x : x[i] = "#EOS 1"}
  IN /\ \A i \in trees : WellFormed(items[i].t) /\ NTerm(items[i].t) >= 1
     /\ Cardinality(trees) <= Cardinality(bos) /\ Cardinality(trees) <= Cardinality(eos)
     \* a good sentence at the end is read unless a sentence is still open
     /\ LET good == <<"#BOS 2", "w -- T -- -- 0", "#EOS 2">>
            all == NegraItems(x \o good)
        IN (bos = {} \/ \E e \in eos : \A b \in bos : b < e) => all # <<>> /\ all[Len(all)].k = "tree"

-----------------------------------------------------------------------------
(* C09: all sequences of up to MaxL tags *)
TagSpace == {<<None, None>>} \union {<<Some(<<l, k>>), None>> : l \in {"A", "B"}, k \in 0..4}
InitTags == x = <<>>
GrowTags == Len(x) < MaxL /\ \E c \in TagSpace : x' = Append(x, c)
TagLaws == x = <<>> \/
  LET toks == [i \in DOMAIN x |-> <<"w", "T", None>>]
      r == FromRel(RelOf(x))
  IN /\ Len(r.enc) = Len(x)
     /\ \A i \in DOMAIN x : r.enc[i][1] # None => r.enc[i][1][1][2] >= 1
     /\ r.fixed <=> \E i \in DOMAIN x : x[i][1] # None /\ x[i][1][1][2] < 1
     /\ ~ r.fixed => r.enc = x
     /\ DecodeDomain(x) => LET d == DecodeGood(x, toks)
                           IN WellFormed(d) /\ SharesAsTold(d, x)

-----------------------------------------------------------------------------
(* C21: spans are nonempty sets of positions *)
InitSpans == x \in (SUBSET (0..MaxL) \ {{}}) \X (SUBSET (0..MaxL) \ {{}}) \X (SUBSET (0..2) \ {{}})
SpanOrder ==
  /\ SpanCmp(x[1], x[2]) = 2 - SpanCmp(x[2], x[1])
  /\ SpanCmp(x[1], x[1]) = 1
  /\ SpanCmp(x[1], x[2]) <= 1 /\ SpanCmp(x[2], x[3]) <= 1 => SpanCmp(x[1], x[3]) <= 1
  /\ x[1] = x[2] => SpanCmp(x[1], x[2]) = 1
  /\ Continuous(x[1]) <=> Cardinality(x[1]) = Max(x[1]) - Min(x[1]) + 1
(* C22 *)
FKeys == {"a", "b", "ab"}
FVals == {None, Some(""), Some("v"), Some("x:y")}
InitFeats == x \in UNION {[K -> FVals] : K \in SUBSET FKeys}
FeatLaws ==
  /\ FParse(FText(x)) = x
  /\ FText(FParse(FText(x))) = FText(x)
  /\ \A k \in FKeys, v \in FVals :
       LET y == FInsert(x, k, v)
       IN FGet(y, k) = Some(v) /\ (\A j \in FKeys \ {k} : FGet(y, j) = FGet(x, j)) /\ FRemove(y, k) = FRemove(x, k)
=============================================================================
