------------------------------- MODULE Small --------------------------------
(* All trees over n tokens with at most m nonterminals, discontinuous ones    *)
(* and unary chains included, each once.                                      *)
EXTENDS Trees

\* shapes: [p |-> position or -1, c |-> set of shapes]
Leaf(i) == [p |-> i, c |-> {}]
RECURSIVE Shapes(_, _), Forests(_, _), Daughters(_, _)
\* shapes over the positions Y with exactly k nonterminals
Shapes(Y, k) == IF k = 0 THEN (IF Cardinality(Y) = 1 THEN {Leaf(CHOOSE i \in Y : TRUE)} ELSE {})
                ELSE {[p |-> -1, c |-> f] : f \in Forests(Y, k - 1)}
\* sets of shapes that together cover Y
Forests(Y, k) ==
  IF Y = {} THEN (IF k = 0 THEN {{}} ELSE {})
  ELSE UNION {LET B == {Min(Y)} \union R IN
              UNION {{{s} \union f : s \in Shapes(B, j), f \in Forests(Y \ B, k - j)} : j \in 0..k}
              : R \in SUBSET (Y \ {Min(Y)})}
Daughters(Y, k) == Forests(Y, k)

RECURSIVE ShapeYield(_), Flat(_, _)
ShapeYield(s) == IF s.c = {} THEN {s.p} ELSE UNION {ShapeYield(d) : d \in s.c}
\* the nonterminals of a shape as pairs <<positions, depth>>
Flat(s, d) == IF s.c = {} THEN {} ELSE {<<ShapeYield(s), d>>} \union UNION {Flat(x, d + 1) : x \in s.c}

TokName == <<"a", "b", "c", "d", "e", "f">>
TagName == <<"N", "V", "N", "D", "V", "N">>
NtName == <<"S", "A", "B", "A", "C", "B", "D">>
\* ids: nonterminals 0..k-1 (root 0), tokens 10 + position
TreeOf(s, n) ==
  LET K == TLCEval(SetToSortSeq(Flat(s, 0), LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ Min(a[1]) < Min(b[1]))))
      ids == {i - 1 : i \in DOMAIN K} \union {10 + i : i \in 0..(n - 1)}
      Cover(id) == IF id >= 10 THEN {id - 10} ELSE K[id + 1][1]
      Lvl(id) == IF id >= 10 THEN 1 + Max({-1} \union {K[i][2] : i \in {i \in DOMAIN K : id - 10 \in K[i][1]}}) ELSE K[id + 1][2]
      root == IF K = <<>> THEN 10 ELSE 0
  IN [root |-> root,
      info |-> TLCEval([id \in ids |-> IF id >= 10
                  THEN [k |-> "T", l |-> TagName[id - 9], x |-> {}, f |-> TokName[id - 9], m |-> None, p |-> id - 10]
                  ELSE [k |-> "N", l |-> NtName[id + 1], x |-> {}, f |-> "", m |-> None, p |-> -1]]),
      par |-> TLCEval([id \in ids \ {root} |-> (CHOOSE i \in DOMAIN K : Cover(id) \subseteq K[i][1] /\ K[i][2] = Lvl(id) - 1) - 1]),
      lab |-> TLCEval([id \in ids \ {root} |-> IF id % 3 = 1 THEN Some("E" \o IntText(id)) ELSE None]),
      sec |-> {}]
TreesOver(n, m) == UNION {{TreeOf(s, n) : s \in Shapes(0..(n - 1), k)} : k \in 0..m}
SmallTrees(n, m) == UNION {TreesOver(i, m) : i \in 1..n}

\* as input for the harness
FeatSeq(x) == LET q == SetToSeq(x) IN [i \in DOMAIN q |-> <<q[i][1], q[i][2]>>]
DescNode(t, n) == LET i == t.info[n] IN <<n, i.k, i.l, FeatSeq(i.x), IF i.k = "T" THEN i.p ELSE 0, i.f, i.m>>
Desc(t) ==
  LET ns == SetToSeq(Ids(t))
      es == SetToSeq(DOMAIN t.par)
      ss == SetToSeq(t.sec)
  IN [r |-> t.root, N |-> [i \in DOMAIN ns |-> DescNode(t, ns[i])],
      E |-> [i \in DOMAIN es |-> <<t.par[es[i]], es[i], 1, t.lab[es[i]]>>]
            \o [i \in DOMAIN ss |-> <<ss[i][2], ss[i][3], 0, ss[i][4]>>]]
=============================================================================
