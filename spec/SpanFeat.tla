------------------------------ MODULE SpanFeat ------------------------------
(* Spans as sets of positions and features as ordered maps.                   *)
EXTENDS Trees

SpanCmp(Y, Z) ==   \* 0 less, 1 equal, 2 greater: first position, last position, size
  LET a == <<Min(Y), Max(Y), Cardinality(Y)>>
      b == <<Min(Z), Max(Z), Cardinality(Z)>>
      d == {i \in 1..3 : a[i] # b[i]}
  IN IF d = {} THEN 1 ELSE IF a[Min(d)] < b[Min(d)] THEN 0 ELSE 2
SpanEq(Y, Z) == Y = Z

\* what the query event answers about one node with positions Y: see the harness
SpanFaults1(Y, q) ==
  LET F(name, ok) == IF ok THEN {} ELSE {name}
  IN F("contains", \A i \in DOMAIN q[2] : q[2][i] = ((i - 1) \in Y))
     \union F("number of positions", q[3] = Cardinality(Y))
     \union F("bounds", q[4] = <<Min(Y), Max(Y) + 1>>)
     \union F("continuity", q[5] = ~ Continuous(Y))
     \union F("iteration", q[6] = AscSeq(Y))
     \union F("skips", q[7] = ~ Continuous(Y))

-----------------------------------------------------------------------------
(* features: a function from names to options *)
FEmpty == [k \in {} |-> None]
FInsert(f, k, v) == [j \in DOMAIN f \union {k} |-> IF j = k THEN v ELSE f[j]]
FRemove(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
FGet(f, k) == IF k \in DOMAIN f THEN Some(f[k]) ELSE None
FSorted(f) == SetToSortSeq(DOMAIN f, StrLess)
FEntry(k, v) == IF v = None THEN k ELSE k \o ":" \o v[1]
FText(f) == LET ks == FSorted(f) IN Join([i \in DOMAIN ks |-> FEntry(ks[i], f[ks[i]])], "|")
\* parsing: entries separated by bars; a name ends at the first colon
FParseEntry(s) == LET c == First(s, {":"})
                  IN IF c = 0 THEN <<s, None>> ELSE <<Cut(s, 1, c - 1), Some(Cut(s, c + 1, Len(s)))>>
RECURSIVE FAll(_, _, _)
FAll(f, kvs, i) == IF i > Len(kvs) THEN f ELSE FAll(FInsert(f, kvs[i][1], kvs[i][2]), kvs, i + 1)
FParse(s) == LET es == NonEmpty(SplitOn(s, {"|"}))
             IN FAll(FEmpty, [i \in DOMAIN es |-> FParseEntry(es[i])], 1)
FSet(f) == {<<k, f[k]>> : k \in DOMAIN f}
\* one step: <<op, args..>> -> [f, ret]
FStep(f, q) ==
  CASE q[1] = "ins" -> [f |-> FInsert(f, q[2], q[3]), ret |-> <<IF q[2] \in DOMAIN f THEN f[q[2]] ELSE None>>]
    [] q[1] = "get" -> [f |-> f, ret |-> FGet(f, q[2])]
    [] q[1] = "rm" -> [f |-> FRemove(f, q[2]), ret |-> FGet(f, q[2])]
    [] q[1] = "parse" -> [f |-> FParse(q[2]), ret |-> None]
    [] q[1] = "text" -> [f |-> f, ret |-> <<Some(FText(f))>>]
    [] q[1] = "rt" -> [f |-> f, ret |-> None]
    [] q[1] = "coll" -> [f |-> FAll(FEmpty, q[2], 1), ret |-> None]
RECURSIVE FeatFaultsFrom(_, _, _, _)
FeatFaultsFrom(f, ops, rets, i) ==
  IF i > Len(ops) THEN {}
  ELSE LET s == FStep(f, ops[i])
           F(name, ok) == IF ok THEN {} ELSE {name}
       IN F("returned value of " \o ops[i][1], rets[i][1] = s.ret)
          \union F("map after " \o ops[i][1], ToSet(rets[i][2]) = FSet(s.f) /\ Len(rets[i][2]) = Cardinality(DOMAIN s.f))
          \union FeatFaultsFrom(s.f, ops, rets, i + 1)
FeatFaults(ops, rets) == FeatFaultsFrom(FEmpty, ops, rets, 1)
=============================================================================
