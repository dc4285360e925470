------------------------------- MODULE Caches --------------------------------
(* What the implementation stores along with a tree: for every node the set   *)
(* of positions it covers, and the number of discontinuous nonterminals.      *)
(* The edits update these as the code does - partly from scratch, partly      *)
(* incrementally - and the stored values must be the derived ones.            *)
EXTENDS Lumberjack

VARIABLES span, disc
cvars == <<tree, act, span, disc>>

Derived(t) == [n \in Ids(t) |-> YieldRec(t, n)]
NumDisc(t) == Cardinality(Discont(t))
CInit == Init /\ span = Derived(tree) /\ disc = NumDisc(tree)

Broken1(Y) == ~ Continuous(Y)
\* from scratch
Reset(t) == span' = Derived(t) /\ disc' = NumDisc(t)
\* the change of the counter when the nodes in the domain of new get new spans
Count(old, new, S) == Cardinality({n \in S : Broken1(new[n])}) - Cardinality({n \in S : Broken1(old[n])})

\* a token at the end below the root: only the root grows
CPush == /\ DoPush
         /\ LET n == Fresh1(tree)
                new == [m \in Ids(tree) \union {n} |-> IF m = n THEN {NTerm(tree)}
                                                       ELSE IF m = tree.root THEN span[m] \union {NTerm(tree)} ELSE span[m]]
            IN span' = new /\ disc' = disc + Count(span, new, {tree.root})
CInsTerm(p, i) == DoInsTerm(p, i) /\ Reset(tree')
CMove(n, i) == DoMove(n, i) /\ Reset(tree')
CAbove(n) == /\ DoAbove(n)
             /\ span' = [m \in Ids(tree') |-> IF m = Fresh1(tree) THEN span[n] ELSE span[m]]
             /\ disc' = disc + (IF Broken1(span[n]) THEN 1 ELSE 0)
CBelow(n) == /\ DoBelow(n)
             /\ span' = [m \in Ids(tree') |-> IF m = Fresh1(tree) THEN span[n] ELSE span[m]]
             /\ disc' = disc + (IF Broken1(span[n]) THEN 1 ELSE 0)
CRemove(n) == /\ DoRemove(n)
              /\ IF IsT(tree, n) THEN Reset(tree')
                 ELSE /\ span' = RestrictTo(span, Ids(tree'))
                      /\ disc' = disc - (IF Broken1(span[n]) THEN 1 ELSE 0)

(* Reattachment: the ancestors of c below the first node that dominates the   *)
(* new parent lose what c covers; then the new ancestors gain it, up to the   *)
(* first that has it already.                                                 *)
RECURSIVE Lose(_, _, _, _), Gain(_, _, _)
Lose(sp, path, keep, Y) == IF path = <<>> \/ path[1] \in keep THEN sp
                           ELSE Lose([sp EXCEPT ![path[1]] = @ \ Y], Tail(path), keep, Y)
Gain(sp, path, Y) == IF path = <<>> \/ Y \subseteq sp[path[1]] THEN sp
                     ELSE Gain([sp EXCEPT ![path[1]] = @ \union Y], Tail(path), Y)
ReattachSpans(t, t2, c, p, sp) ==
  LET keep == {p} \union Above(t, p)
  IN Gain(Lose(sp, Up(t, c), keep, sp[c]), Up(t2, c), sp[c])
CReattach(c, p) == /\ DoReattach(c, p)
                   /\ LET new == ReattachSpans(tree, tree', c, p, span)
                      IN span' = new /\ disc' = disc + Count(span, new, NTs(tree))
CFilter(K) == /\ DoFilter(K)
              /\ span' = RestrictTo(span, Ids(tree'))
              /\ disc' = disc - Cardinality({n \in Gone(tree, tree') : Broken1(span[n])})
(* One step of projectivisation is a reattachment.                            *)
CProject == /\ On("project")
            /\ \E s \in GapSteps(tree) :
                 /\ To(Attach(tree, s[2], s[1]), [op |-> "projstep", a |-> s[1], c |-> s[2]])
                 /\ LET new == ReattachSpans(tree, tree', s[2], s[1], span)
                    IN span' = new /\ disc' = disc + Count(span, new, NTs(tree))

CNext ==
  \/ CPush \/ CProject
  \/ \E n \in Ids(tree) : CRemove(n) \/ CAbove(n) \/ CBelow(n)
  \/ \E n \in Ids(tree), i \in 0..MaxT : CInsTerm(n, i) \/ CMove(n, i)
  \/ \E n, m \in Ids(tree) : CReattach(n, m)
  \/ \E K \in SUBSET NTs(tree) : CFilter(K)
CSpec == CInit /\ [][CNext]_cvars

CacheInv == span = Derived(tree) /\ disc = NumDisc(tree)
\* no span is ever empty while a reattachment is under way, either: nodes that
\* lose positions keep some
CacheView == <<View, disc>>
=============================================================================
