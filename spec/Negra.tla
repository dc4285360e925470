------------------------------- MODULE Negra --------------------------------
(* NEGRA export format: a line-driven reader, and what a tree has to look     *)
(* like when it is written and read again.                                    *)
EXTENDS Bracket

\* a sentence under construction.  early: a nonterminal line came before any line that
\* refers to it; such a sentence may be rejected there or accepted
Idle == [mode |-> "out", id |-> 0, meta |-> None, toks |-> <<>>, nts |-> <<>>, early |-> FALSE, items |-> <<>>]
Bad(st) == [Idle EXCEPT !.items = Append(st.items, ErrItem)]

(* edge fields: label parent (label parent)* until a word starting with %     *)
(* [ok, edge, parent, sec: set of <<index, label, parent>>]                   *)
Dash(s) == IF s = "--" THEN None ELSE Some(s)
EdgeFields(w, from) ==
  LET rest == SubSeq(w, from, Len(w))
      comment == {i \in 3..Len(rest) : i % 2 = 1 /\ Ch(rest[i], 1) = "%"}
      stop == IF comment = {} THEN Len(rest) ELSE Min(comment) - 1
      secs == {i \in 3..stop : i % 2 = 1}
  IN [ok |-> /\ Len(rest) >= 2 /\ IsUsize(rest[2])
             /\ stop % 2 = 0 /\ \A i \in secs : IsUsize(rest[i + 1]),
      edge |-> IF Len(rest) < 1 THEN None ELSE Dash(rest[1]),
      parent |-> IF Len(rest) < 2 \/ (Len(rest) >= 2 /\ ~ IsUsize(rest[2])) THEN 0 ELSE ToNat(rest[2]),
      sec |-> IF stop % 2 = 1 \/ \E i \in secs : ~ IsUsize(rest[i + 1]) THEN {}
              ELSE {<<i, Dash(rest[i]), ToNat(rest[i + 1])>> : i \in secs}]

Refs(st) == {0} \union {st.toks[i].e.parent : i \in DOMAIN st.toks} \union {st.nts[i].e.parent : i \in DOMAIN st.nts}
Seen(st) == {st.nts[i].id : i \in DOMAIN st.nts}

TokenLine(st, l) ==
  LET w == Words(l)
      e == EdgeFields(w, 5)
      ok == st.nts = <<>> /\ Len(w) >= 6 /\ e.ok
  IN IF ~ ok THEN Bad(st)
     ELSE [st EXCEPT !.toks = Append(@, [f |-> w[1], m |-> Dash(w[2]), l |-> w[3], morph |-> Dash(w[4]), e |-> e])]
NtLine(st, l) ==
  LET w == Words(l)
      num == Cut(w[1], 2, Len(w[1]))
      e == EdgeFields(w, 5)
      p == Halves(w[3], {"="})
      ok == /\ st.toks # <<>> /\ Len(w) >= 6 /\ IsUsize(num) /\ e.ok
      id == ToNat(num)
  IN IF ~ ok THEN Bad(st)
     ELSE IF id = 0 \/ id \in Seen(st) THEN Bad(st)
     ELSE [st EXCEPT !.nts = Append(@, [id |-> id, l |-> p[1], ann |-> p[2], e |-> e]),
                     !.early = @ \/ id \notin Refs(st)]

\* secondary edges as a set of <<key, source, target, label>>
SecOf(st) ==
  UNION {{<<<<0 - i, s[1]>>, s[3], 0 - i, s[2]>> : s \in st.toks[i].e.sec} : i \in DOMAIN st.toks}
  \union UNION {{<<<<st.nts[i].id, s[1]>>, s[3], st.nts[i].id, s[2]>> : s \in st.nts[i].e.sec} : i \in DOMAIN st.nts}
\* the tree of a complete sentence
SentenceTree(st) ==
  LET T == DOMAIN st.toks
      ntid == [i \in DOMAIN st.nts |-> st.nts[i].id]
      tid(i) == 0 - i
      Nt(n) == st.nts[CHOOSE i \in DOMAIN ntid : ntid[i] = n]
      ids == {0} \union ToSet(ntid) \union {tid(i) : i \in T}
      E(n) == IF n < 0 THEN st.toks[0 - n].e ELSE Nt(n).e
      Info(n) == IF n = 0 THEN [k |-> "N", l |-> "VROOT", f |-> "", m |-> None, p |-> -1,
                                x |-> {<<"sentence_id", Some(IntText(st.id))>>}
                                      \union (IF st.meta = None THEN {} ELSE {<<"metadata", st.meta>>})]
                 ELSE IF n < 0 THEN LET q == st.toks[0 - n]
                                    IN [k |-> "T", l |-> q.l, f |-> q.f, m |-> q.m, p |-> 0 - n - 1,
                                        x |-> IF q.morph = None THEN {} ELSE {<<"morph", q.morph>>}]
                 ELSE [k |-> "N", l |-> Nt(n).l, f |-> "", m |-> None, p |-> -1,
                       x |-> IF Nt(n).ann = None THEN {} ELSE {<<"node_annotation", Nt(n).ann>>}]
  IN [root |-> 0, info |-> TLCEval([n \in ids |-> Info(n)]),
      par |-> TLCEval([n \in ids \ {0} |-> E(n).parent]),
      lab |-> TLCEval([n \in ids \ {0} |-> E(n).edge]),
      sec |-> SecOf(st)]
SentenceOk(st) ==
  LET ids == Seen(st)
      parents == Refs(st) \ {0}
  IN /\ st.toks # <<>>
     /\ parents = ids
     /\ \A q \in SecOf(st) : q[2] \in ids \union {0}
Complete(st) ==
  LET t == SentenceTree(st)
  IN IF SentenceOk(st) /\ WellFormed(t) THEN [ok |-> TRUE, t |-> t] ELSE [ok |-> FALSE, t |-> NoTree]

Header(st, l) ==
  LET cuts == Where(l, Blank)
      a == IF cuts = {} THEN Len(l) + 1 ELSE Min(cuts)
      later == {i \in cuts : i > a}
      b == IF later = {} THEN Len(l) + 1 ELSE Min(later)
      num == Cut(l, a + 1, b - 1)
  IN IF ~ IsUsize(num) THEN Bad(st)
     ELSE [Idle EXCEPT !.mode = "in", !.id = ToNat(num), !.items = st.items,
                       !.meta = IF b > Len(l) THEN None ELSE Some(Trim(Cut(l, b + 1, Len(l))))]
Footer(st, l) ==
  LET w == Words(l)
      c == Complete(st)
      \* an early sentence may have been given up before this line
      Reject == IF st.early THEN [Idle EXCEPT !.items = st.items \o <<ErrItem, OptItem>>] ELSE Bad(st)
  IN IF Len(w) < 2 \/ ~ IsUsize(w[2]) THEN Reject
     ELSE IF ToNat(w[2]) # st.id \/ ~ c.ok THEN Reject
     ELSE [Idle EXCEPT !.items = Append(st.items, [k |-> IF st.early THEN "alt" ELSE "tree", t |-> c.t])]

NegraStep(st, raw) ==
  LET l == Trim(raw) IN
  IF StartsWith(l, "#BOS") THEN (IF st.mode = "in" THEN (IF st.early THEN Header(Bad(st), l) ELSE Bad(st)) ELSE Header(st, l))
  ELSE IF StartsWith(l, "#EOS") THEN
    (IF st.mode = "in" THEN Footer(st, l) ELSE [Idle EXCEPT !.items = Append(st.items, OptItem)])
  ELSE IF st.mode # "in" THEN st
  ELSE IF l # "" /\ Ch(l, 1) = "#" THEN NtLine(st, l) ELSE TokenLine(st, l)
NegraItems(lines) ==
  LET end == FoldLeft(NegraStep, Idle, lines)
  IN IF end.mode = "in" THEN Append(end.items, ErrItem) ELSE end.items

-----------------------------------------------------------------------------
(* writing *)
OptFeat(x, key) == IF FeatHas(x, key) THEN FeatGet(x, key) ELSE None
OneFeat(key, o) == IF o = None THEN {} ELSE {<<key, o>>}
HasId(t) == OptFeat(t.info[t.root].x, "sentence_id") # None
\* the tree that reading the written one has to give; id: the number used if there is none
NegraWritten(t, id) ==
  LET rx == t.info[t.root].x
      Info(n) == LET i == t.info[n] IN
        IF n = t.root THEN [i EXCEPT !.l = "VROOT",
             !.x = {<<"sentence_id", IF HasId(t) THEN OptFeat(rx, "sentence_id") ELSE Some(IntText(id))>>}
                   \union OneFeat("metadata", OptFeat(rx, "metadata"))]
        ELSE IF i.k = "T" THEN [i EXCEPT !.x = OneFeat("morph", OptFeat(i.x, "morph"))]
        ELSE [i EXCEPT !.x = OneFeat("node_annotation", OptFeat(i.x, "node_annotation"))]
  IN [t EXCEPT !.info = TLCEval([n \in Ids(t) |-> Info(n)])]
NegraRepresentable(t) == /\ ~ IsT(t, t.root)
                         /\ \A e \in t.sec : ~ IsT(t, e[2]) /\ e[3] # t.root
Field(s) == s # "" /\ ~ HasAny(s, Blank)
FieldOpt(o) == o # None => Field(o[1]) /\ o[1] # "--"
NegraExpressible(t) ==
  /\ \A n \in Ids(t) : LET i == t.info[n] IN
       IF i.k = "T" THEN /\ Field(i.f) /\ Ch(i.f, 1) # "#" /\ Field(i.l) /\ FieldOpt(i.m) /\ FieldOpt(OptFeat(i.x, "morph"))
       ELSE n # t.root => /\ Field(i.l) /\ ~ HasAny(i.l, {"="})
                          /\ LET a == OptFeat(i.x, "node_annotation") IN a # None => ~ HasAny(a[1], Blank)
  /\ \A n \in DOMAIN t.lab : FieldOpt(t.lab[n])
  /\ \A e \in t.sec : FieldOpt(e[4]) /\ (e[4] # None => Ch(e[4][1], 1) # "%")
  /\ LET s == OptFeat(t.info[t.root].x, "sentence_id") IN s # None => IsNatText(s[1]) /\ IntText(ToNat(s[1])) = s[1]
  /\ LET m == OptFeat(t.info[t.root].x, "metadata") IN m # None => m[1] # "" /\ Trim(m[1]) = m[1] /\ ~ HasAny(m[1], {"\n", "\r"})
\* the layout of the export format, whoever reads it: numbers of nonterminals are at least 500, unused columns hold "--"
NegraLayout(lines) == \A i \in DOMAIN lines : LET l == lines[i]  w == Words(l) IN
  \/ l = "" \/ Ch(l, 1) # "#" \/ StartsWith(l, "#BOS") \/ StartsWith(l, "#EOS")
  \/ /\ Len(w) >= 6 /\ w[2] = "--" /\ w[4] = "--"
     /\ LET num == Cut(w[1], 2, Len(w[1])) IN IsUsize(num) /\ ToNat(num) >= 500
\* what writing the trees ts to one stream has to give: <<writable?, tree read back>>
RECURSIVE StreamOf(_, _, _)
StreamOf(ts, i, count) ==
  IF i > Len(ts) THEN <<>>
  ELSE IF ~ NegraRepresentable(ts[i]) THEN <<<<FALSE, NoTree>>>> \o StreamOf(ts, i + 1, count)
  ELSE <<<<TRUE, NegraWritten(ts[i], count)>>>> \o StreamOf(ts, i + 1, IF HasId(ts[i]) THEN count ELSE count + 1)
=============================================================================
