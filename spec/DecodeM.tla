------------------------------ MODULE DecodeM --------------------------------
(* The construction of a tree from tags as the code performs it: token by     *)
(* token along the right frontier.  kids[n] holds the daughters of n, newest  *)
(* first.  Node 0 is the root, i is token i, 10, 11, ... are the others.      *)
EXTENDS Encoding

CONSTANTS MaxLen, MaxNum, Labels
VARIABLES enc, i, kids, lbl, chn, cur, prev, prevN
dvars == <<enc, i, kids, lbl, chn, cur, prev, prevN>>

Tags == {None} \union {Some(<<s, k>>) : s \in Labels, k \in 0..MaxNum}
\* the labels only matter where tags agree on a node: two of them are enough
Init == /\ enc \in UNION {[1..n -> {<<g, None>> : g \in Tags}] : n \in 1..MaxLen}
        /\ i = 1 /\ kids = [n \in {0} |-> <<>>] /\ lbl = [n \in {0} |-> "DUMMY"] /\ chn = [n \in {0} |-> None]
        /\ cur = 0 /\ prev = None /\ prevN = 0
Len1 == Len(enc)
IsTok(n) == n \in 1..Len1
\* attach the new node m below n
Under(k, n, m) == [x \in DOMAIN k \union {m} |-> IF x = m THEN <<>> ELSE IF x = n THEN <<m>> \o k[x] ELSE k[x]]
NewestNT(k, n) == LET q == SelectSeq(k[n], LAMBDA m : ~ IsTok(m)) IN IF q = <<>> THEN None ELSE Some(q[1])
\* down the newest nonterminals, at most j steps
RECURSIVE Descend(_, _, _)
Descend(k, n, j) == IF j = 0 \/ NewestNT(k, n) = None THEN n ELSE Descend(k, NewestNT(k, n)[1], j - 1)
\* walk to depth j + 1, opening nodes: <<kids, opened, node>>
RECURSIVE Walk(_, _, _, _)
Walk(k, n, j, last) ==
  IF j > last THEN <<k, n>>
  ELSE LET top == IF k[n] = <<>> \/ IsTok(k[n][1]) THEN None ELSE Some(k[n][1])
           new == 10 + Cardinality({m \in DOMAIN k : m >= 10})
       IN IF top = None \/ j > prevN THEN Walk(Under(k, n, new), new, j + 1, last) ELSE Walk(k, top[1], j + 1, last)

NoTag == /\ enc[i][1] = None
         /\ kids' = Under(kids, Descend(kids, 0, prevN), i)
         /\ UNCHANGED <<lbl, chn, prev, prevN>> /\ cur' = cur
WithTag == /\ enc[i][1] # None
           /\ LET tag == enc[i][1][1]
                  w == Walk(kids, 0, 1, tag[2] - 1)
                  at == IF prev = None \/ tag[2] > prevN THEN w[2] ELSE prev[1]
                  p == SplitTagLabel(tag[1])
                  nts == {n \in DOMAIN w[1] : ~ IsTok(n)}
                  l2 == [n \in nts |-> IF n \in DOMAIN lbl THEN lbl[n] ELSE "DUMMY"]
                  c2 == [n \in nts |-> IF n \in DOMAIN chn THEN chn[n] ELSE None]
              IN /\ kids' = Under(w[1], at, i)
                 /\ cur' = w[2] /\ prev' = Some(w[2])
                 /\ prevN' = IF tag[2] = 0 THEN 0 ELSE tag[2] - 1
                 /\ lbl' = [l2 EXCEPT ![w[2]] = p[2]]
                 /\ chn' = IF p[1] = None THEN c2 ELSE [c2 EXCEPT ![w[2]] = p[1]]
Single == Len1 = 1 /\ enc[1][1] = None
Step == /\ i <= Len1 /\ ~ Single
        /\ (NoTag \/ WithTag)
        /\ i' = i + 1 /\ UNCHANGED enc
Spec == Init /\ [][Step]_dvars

Toks == [j \in 1..Len1 |-> <<"w" \o IntText(j), "T", None>>]
Built ==
  LET ids == IF Single THEN {1} ELSE DOMAIN kids
      root == IF Single THEN 1 ELSE 0
  IN [root |-> root,
      info |-> TLCEval([n \in ids |-> IF IsTok(n) THEN [k |-> "T", l |-> "T", f |-> "w" \o IntText(n), m |-> None, p |-> n - 1, x |-> {}]
                              ELSE [k |-> "N", l |-> lbl[n], f |-> "", m |-> None, p |-> -1,
                                    x |-> IF chn[n] = None THEN {} ELSE {<<"unary_chain", chn[n]>>}]]),
      par |-> TLCEval([n \in ids \ {root} |-> CHOOSE q \in DOMAIN kids : \E j \in DOMAIN kids[q] : kids[q][j] = n]),
      lab |-> [n \in ids \ {root} |-> None], sec |-> {}]
Done == i > Len1 \/ Single
\* any tags at all give a tree over the tokens; well-behaved ones the tree they denote
Total == Done => WellFormed(Built) /\ Projective(Built)
Denotes == Done /\ DecodeDomain(enc) => Canon(Built) = Canon(DecodeGood(enc, Toks))
\* the tokens read so far are always the right frontier: nothing is attached to a closed node
Frontier == i > 1 => \A n \in DOMAIN kids : kids[n] = <<>> => IsTok(n)
=============================================================================
