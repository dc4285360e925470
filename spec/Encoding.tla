------------------------------ MODULE Encoding ------------------------------
(* Sequence encodings of trees and their inverse.                             *)
(* An encoding is a sequence of <<opt <<label, number>>, opt chain>>, one per *)
(* token; relative encodings hold <<label, "root">> or <<label, difference>>  *)
(* in their textual form only.                                                *)
EXTENDS TreeOps

Chain(t, n) == IF FeatHas(t.info[n].x, "unary_chain") THEN FeatGet(t.info[n].x, "unary_chain") ELSE None
TagLabel(t, a) == IF Chain(t, a) = None THEN t.info[a].l ELSE Chain(t, a)[1] \o "_" \o t.info[a].l
\* the lowest node above token i that also dominates token i+1 and its depth (root: 1)
SharedTag(t, i) ==
  LET u == Up(t, At(t, i))
      k == Min({k \in DOMAIN u : Dominates(t, u[k], At(t, i + 1))})
  IN <<TagLabel(t, u[k]), Len(u) - k + 1>>
AbsEnc(t) == [j \in 1..NTerm(t) |->
                <<IF j = NTerm(t) THEN None ELSE Some(SharedTag(t, j - 1)), Chain(t, At(t, j - 1))>>]

AbsText(tag) == tag[1] \o "+" \o IntText(tag[2])
RelText(tag, prev) == IF tag[2] = 1 THEN tag[1] ELSE tag[1] \o "+" \o IntText(tag[2] - prev)
AbsTexts(enc) == [i \in DOMAIN enc |-> <<IF enc[i][1] = None THEN None ELSE Some(AbsText(enc[i][1][1])), enc[i][2]>>]
\* the number of the last present tag before i (0 if there is none)
PrevNum(enc, i) == LET P == {j \in 1..(i - 1) : enc[j][1] # None}
                   IN IF P = {} THEN 0 ELSE enc[Max(P)][1][1][2]
RelTexts(enc) == [i \in DOMAIN enc |-> <<IF enc[i][1] = None THEN None
                                         ELSE Some(RelText(enc[i][1][1], PrevNum(enc, i))), enc[i][2]>>]

\* reading tags: <<>> if the text is not a tag
ParseAbsTag(s) == LET p == SplitOn(s, {"+"})
                  IN IF Len(p) < 2 \/ ~ IsUsize(p[2]) THEN None ELSE Some(<<p[1], ToNat(p[2])>>)
\* relative tags: <<label, opt difference>>
ParseRelTag(s) == LET p == SplitOn(s, {"+"})
                  IN IF p[1] = "" THEN None
                     ELSE IF Len(p) < 2 THEN Some(<<p[1], None>>)
                     ELSE IF ~ IsIsize(p[2]) THEN None ELSE Some(<<p[1], Some(ToInt(p[2]))>>)
AbsOfTexts(enc) == [i \in DOMAIN enc |-> <<IF enc[i][1] = None THEN None ELSE ParseAbsTag(enc[i][1][1]), enc[i][2]>>]

\* relative -> absolute; depths that become non-positive are replaced by two
RECURSIVE FromRelFold(_, _, _, _, _)
FromRelFold(rel, i, prev, fixed, acc) ==
  IF i > Len(rel) THEN [fixed |-> fixed, enc |-> acc]
  ELSE IF rel[i][1] = None THEN FromRelFold(rel, i + 1, prev, fixed, Append(acc, rel[i]))
  ELSE LET tag == rel[i][1][1]
           n == IF tag[2] = None THEN 1 ELSE prev + tag[2][1]
           m == IF n < 1 THEN 2 ELSE n
       IN FromRelFold(rel, i + 1, m, fixed \/ n < 1, Append(acc, <<Some(<<tag[1], m>>), rel[i][2]>>))
\* rel: sequence of <<opt <<label, opt difference>>, opt chain>>
FromRel(rel) == FromRelFold(rel, 1, 0, FALSE, <<>>)
RelOf(enc) == [i \in DOMAIN enc |-> <<IF enc[i][1] = None THEN None
                 ELSE Some(<<enc[i][1][1][1], IF enc[i][1][1][2] = 1 THEN None
                                              ELSE Some(enc[i][1][1][2] - PrevNum(enc, i))>>), enc[i][2]>>]

\* "every non-final tag is present and at least one"
GoodTags(enc) == \A i \in 1..(Len(enc) - 1) : enc[i][1] # None /\ enc[i][1][1][2] >= 1
SharedAncestors(t, i) == Above(t, At(t, i)) \intersect Above(t, At(t, i + 1))
SharesAsTold(t, enc) == \A i \in 1..(Len(enc) - 1) : Cardinality(SharedAncestors(t, i - 1)) = enc[i][1][1][2]

-----------------------------------------------------------------------------
(* The tree denoted by a sequence of good tags (last tag absent), declaratively: *)
(* the nodes at depth k are the maximal intervals whose inner tags are all >= k. *)
(* toks: sequence of <<form, tag, opt lemma>>                                  *)
SplitTagLabel(s) == LET i == Last1(s, {"_"})
                    IN IF i = 0 THEN <<None, s>> ELSE <<Some(Cut(s, 1, i - 1)), Cut(s, i + 1, Len(s))>>
DecodeGood(enc, toks) ==
  LET N == Len(toks)
      Tag(i) == enc[i][1][1]
      num == [i \in 1..(N - 1) |-> Tag(i)[2]]
      top == Max({1} \union {num[i] : i \in 1..(N - 1)})
      \* maximal intervals of length > 1 whose inner tags are all >= k
      Cuts(k) == <<0>> \o AscSeq({i \in 1..(N - 1) : num[i] < k}) \o <<N>>
      RunsAt(k) == LET c == TLCEval(Cuts(k))
                 IN {<<k, c[j] + 1, c[j + 1]>> : j \in {j \in 1..(Len(c) - 1) : c[j + 1] > c[j] + 1}}
      runs == TLCEval(UNION {RunsAt(k) : k \in 1..top})
      TokInfo(i) == [k |-> "T", l |-> toks[i][2], f |-> toks[i][1], m |-> toks[i][3], p |-> i - 1,
                     x |-> IF enc[i][2] = None THEN {} ELSE {<<"unary_chain", enc[i][2]>>}]
      Marks(r) == {i \in r[2]..(r[3] - 1) : num[i] = r[1]}
      Chains(r) == {i \in Marks(r) : SplitTagLabel(Tag(i)[1])[1] # None}
      RunInfo(r) == [k |-> "N", f |-> "", m |-> None, p |-> -1,
                     l |-> IF Marks(r) = {} THEN "DUMMY" ELSE SplitTagLabel(Tag(Max(Marks(r)))[1])[2],
                     x |-> IF Chains(r) = {} THEN {}
                           ELSE {<<"unary_chain", SplitTagLabel(Tag(Max(Chains(r)))[1])[1]>>}]
      id(r) == r[1] * 1000000 + r[2] * 1000 + r[3]
      toksIds == {0 - i : i \in 1..N}
      ids == toksIds \union {id(r) : r \in runs}
      root == IF N = 1 THEN -1 ELSE id(<<1, 1, N>>)
      TokPar(i) == LET over == {r \in runs : r[2] <= i /\ i <= r[3]}
                   IN CHOOSE r \in over : \A q \in over : q[1] <= r[1]
      RunPar(r) == CHOOSE q \in runs : q[1] = r[1] - 1 /\ q[2] <= r[2] /\ r[3] <= q[3]
      RunOf(n) == <<n \div 1000000, (n \div 1000) % 1000, n % 1000>>
  IN [root |-> root,
      info |-> TLCEval([n \in ids |-> IF n < 0 THEN TokInfo(0 - n) ELSE RunInfo(RunOf(n))]),
      par |-> TLCEval([n \in ids \ {root} |-> IF n < 0 THEN id(TokPar(0 - n)) ELSE id(RunPar(RunOf(n)))]),
      lab |-> [n \in ids \ {root} |-> None], sec |-> {}]

\* a tree whose only token has no tag is that token
DecodeDomain(enc) == GoodTags(enc) /\ enc[Len(enc)][1] = None

-----------------------------------------------------------------------------
(* placeholders *)
RemoveDummies(t) ==
  LET u == Filter(t, {n \in NTs(t) : t.info[n].l # "DUMMY"})
  IN IF ~ IsT(u, u.root) /\ u.info[u.root].l = "DUMMY" /\ Cardinality(Kids(u, u.root)) = 1
     THEN RemoveNT(u, u.root) ELSE u

-----------------------------------------------------------------------------
(* rows of a CONLL-X sentence: <<form, opt lemma, opt tag, opt feature text>> *)
(* value of the feature key in a feature text: <<>> absent, <<opt value>>     *)
FeatIn(text, key) ==
  LET parts == SplitOn(text, {"|"})
      Name(s) == LET c == First(s, {":"}) IN IF c = 0 THEN s ELSE Cut(s, 1, c - 1)
      hits == {i \in DOMAIN parts : Name(parts[i]) = key}
  IN IF hits = {} THEN None
     ELSE LET s == parts[Max(hits)]  c == First(s, {":"})
          IN Some(IF c = 0 THEN None ELSE Some(Cut(s, c + 1, Len(s))))
\* the tag of a row: [ok |-> FALSE] or [ok |-> TRUE, tag |-> opt .., chain |-> opt ..]
RowTag(row, rel) ==
  LET v == IF row[4] = None THEN None ELSE FeatIn(row[4][1], IF rel THEN "rel_ancestor" ELSE "abs_ancestor")
      bad == [ok |-> FALSE, tag |-> None, chain |-> None]
  IN IF v = None \/ (v # None /\ v[1] = None) THEN bad
     ELSE LET p == SplitOn(v[1][1], {"~"})
              ch == IF Len(p) < 2 \/ (Len(p) >= 2 /\ p[2] = "") THEN None ELSE Some(p[2])
              tag == IF p[1] = "NONE" THEN None ELSE IF rel THEN ParseRelTag(p[1]) ELSE ParseAbsTag(p[1])
          IN IF p[1] # "NONE" /\ tag = None THEN bad ELSE [ok |-> TRUE, tag |-> tag, chain |-> ch]
RowsOk(rows, rel) == rows # <<>> /\ \A i \in DOMAIN rows : RowTag(rows[i], rel).ok
RowsEnc(rows, rel) ==
  LET e == [i \in DOMAIN rows |-> <<RowTag(rows[i], rel).tag, RowTag(rows[i], rel).chain>>]
  IN IF rel THEN FromRel(e).enc ELSE e
RowToks(rows) == [i \in DOMAIN rows |-> <<rows[i][1], IF rows[i][3] = None THEN "_" ELSE rows[i][3][1], None>>]
=============================================================================
