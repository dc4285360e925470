------------------------------ MODULE Bracket -------------------------------
(* The three bracketed formats: what a text denotes, and the stream readers.  *)
EXTENDS Trees

WS == {" ", "\n", "\r"}
\* tokens: "(", ")" and words.  FoldLeft over the characters.
Tokens(s) ==
  LET step(acc, i) ==
        LET c == Ch(s, i)
            flushed == IF acc.w = "" THEN acc.q ELSE Append(acc.q, acc.w)
        IN IF c \in {"(", ")"} THEN [q |-> Append(flushed, c), w |-> ""]
           ELSE IF c \in WS THEN [q |-> flushed, w |-> ""]
           ELSE [q |-> acc.q, w |-> acc.w \o c]
      end == FoldLeft(step, [q |-> <<>>, w |-> ""], [i \in 1..Len(s) |-> i])
  IN IF end.w = "" THEN end.q ELSE Append(end.q, end.w)
IsWord(w) == w \notin {"(", ")"}

(* A stack machine for the grammar  node = "(" word (word | node+) ")".       *)
(* Stack entries: index of the opening token, number of daughters seen, word  *)
(* seen.  nodes: <<index, parent index or 0, label, form, "T"/"N">>           *)
Fresh == [ok |-> TRUE, done |-> FALSE, stack |-> <<>>, nodes |-> {}]
Fail == [ok |-> FALSE, done |-> FALSE, stack |-> <<>>, nodes |-> {}]
PushTok(st, toks, i) ==
  LET w == toks[i]
      top == st.stack[Len(st.stack)]
      below == SubSeq(st.stack, 1, Len(st.stack) - 1)
  IN IF ~ st.ok \/ st.done THEN Fail
     ELSE IF w = "(" THEN
       IF st.stack = <<>> THEN [st EXCEPT !.stack = <<[at |-> i, label |-> "", kids |-> 0, word |-> ""]>>]
       ELSE IF top.label = "" \/ top.word # "" THEN Fail
       ELSE [st EXCEPT !.stack = below \o <<[top EXCEPT !.kids = @ + 1], [at |-> i, label |-> "", kids |-> 0, word |-> ""]>>]
     ELSE IF st.stack = <<>> THEN Fail
     ELSE IF w = ")" THEN
       IF top.label = "" \/ (top.word = "" /\ top.kids = 0) THEN Fail
       ELSE [st EXCEPT !.stack = below, !.done = (below = <<>>),
                       !.nodes = @ \union {<<top.at, IF below = <<>> THEN 0 ELSE below[Len(below)].at, top.label, top.word>>}]
     ELSE IF top.label = "" THEN [st EXCEPT !.stack = below \o <<[top EXCEPT !.label = w]>>]
     ELSE IF top.kids > 0 \/ top.word # "" THEN Fail
     ELSE [st EXCEPT !.stack = below \o <<[top EXCEPT !.word = w]>>]
ParseTokens(toks) ==
  LET step(acc, i) == PushTok(acc, toks, i)
      end == FoldLeft(step, Fresh, [i \in DOMAIN toks |-> i])
  IN IF end.ok /\ end.done THEN end ELSE Fail

(* labels: <<label, opt edge label, opt annotation>> *)
SplitLabel(fmt, s) ==
  CASE fmt = "ptb" -> (LET i == First(s, {"-"})
                       IN IF i <= 1 THEN <<s, None, None>> ELSE <<Cut(s, 1, i - 1), None, Some(Cut(s, i + 1, Len(s)))>>)
    [] fmt = "tueba" -> (LET p == Halves(s, {":"})
                             q == Halves(p[1], {"="})
                         IN <<q[1], IF p[2] = Some("--") THEN None ELSE p[2], q[2]>>)
    [] OTHER -> <<s, None, None>>

NoTree == [root |-> 0, info |-> <<>>, par |-> <<>>, lab |-> <<>>, sec |-> {}]
TreeOfParse(st, fmt) ==
  LET ids == {q[1] : q \in st.nodes}
      Node(i) == CHOOSE q \in st.nodes : q[1] = i
      root == (CHOOSE q \in st.nodes : q[2] = 0)[1]
      words == AscSeq({q[1] : q \in {r \in st.nodes : r[4] # ""}})
      posOf == [i \in ToSet(words) |-> (CHOOSE k \in DOMAIN words : words[k] = i) - 1]
      Info(i) == LET q == Node(i)  l == SplitLabel(fmt, q[3])
                 IN IF q[4] # "" THEN [k |-> "T", l |-> l[1], f |-> q[4], m |-> None, p |-> posOf[i],
                                            x |-> IF l[3] = None THEN {} ELSE {<<"node_annotation", l[3]>>}]
                    ELSE [k |-> "N", l |-> l[1], f |-> "", m |-> None, p |-> -1,
                          x |-> IF l[3] = None THEN {} ELSE {<<"node_annotation", l[3]>>}]
  IN [root |-> root, info |-> TLCEval([i \in ids |-> Info(i)]),
      par |-> TLCEval([i \in ids \ {root} |-> Node(i)[2]]),
      lab |-> TLCEval([i \in ids \ {root} |-> SplitLabel(fmt, Node(i)[3])[2]]), sec |-> {}]
\* [ok, t]
ParseBracket(s, fmt) == LET st == ParseTokens(Tokens(s))
                        IN IF st.ok THEN [ok |-> TRUE, t |-> TreeOfParse(st, fmt)] ELSE [ok |-> FALSE, t |-> NoTree]

-----------------------------------------------------------------------------
(* writing *)
Paren(s) == Replace(Replace(s, "(", "LBR"), ")", "RBR")
Ann(t, n) == IF FeatHas(t.info[n].x, "node_annotation") THEN FeatGet(t.info[n].x, "node_annotation") ELSE None
EdgeOf(t, n) == IF n = t.root THEN None ELSE t.lab[n]
\* the tree that reading the written text has to give
Written(t, fmt) ==
  LET Info(n) == LET i == t.info[n]
                 IN IF i.k = "T" THEN [i EXCEPT !.l = Paren(@), !.f = Paren(@), !.m = None,
                                               !.x = IF fmt = "simple" \/ Ann(t, n) = None THEN {} ELSE {<<"node_annotation", Some(Paren(Ann(t, n)[1]))>>}]
                    ELSE [i EXCEPT !.x = IF fmt = "simple" \/ Ann(t, n) = None THEN {} ELSE {<<"node_annotation", Ann(t, n)>>}]
  IN [t EXCEPT !.info = TLCEval([n \in Ids(t) |-> Info(n)]),
               !.lab = TLCEval([n \in DOMAIN t.lab |-> IF fmt = "tueba" THEN t.lab[n] ELSE None]),
               !.sec = {}]
Plain(s) == s # "" /\ ~ HasAny(s, WS \union {"(", ")"})
Wordlike(s) == s # "" /\ ~ HasAny(s, WS)
DashOk(l, ann) == ~ HasAny(l, {"-"}) \/ (Ch(l, 1) = "-" /\ ann = None)
ExpressibleAt(t, n, fmt) ==
  LET i == t.info[n]  ann == Ann(t, n)  e == EdgeOf(t, n) IN
  IF i.k = "T" THEN /\ Wordlike(i.f) /\ Wordlike(i.l)
                    /\ fmt # "simple" /\ ann # None => ann[1] = "" \/ Wordlike(ann[1])
                    /\ fmt = "ptb" => DashOk(i.l, ann)
                    /\ fmt = "tueba" => /\ ~ HasAny(i.l, {":", "="})
                                        /\ ann # None => ~ HasAny(ann[1], {":"})
                                        /\ e # None => Plain(e[1]) /\ e[1] # "--"
  ELSE /\ Plain(i.l)
       /\ fmt = "ptb" => /\ DashOk(i.l, ann)
                         /\ ann # None => ann[1] = "" \/ Plain(ann[1])
       /\ fmt = "tueba" => /\ ~ HasAny(i.l, {":", "="})
                           /\ ann # None => ann[1] = "" \/ (Plain(ann[1]) /\ ~ HasAny(ann[1], {":"}))
                           /\ e # None => Plain(e[1]) /\ e[1] # "--"
Expressible(t, fmt) == \A n \in Ids(t) : ExpressibleAt(t, n, fmt)

RECURSIVE ShowAt(_, _, _)
ShowAt(t, n, fmt) ==
  LET i == t.info[n]
      e == IF EdgeOf(t, n) = None THEN "--" ELSE EdgeOf(t, n)[1]
      kids == SetToSortSeq(Kids(t, n), LAMBDA a, b : Min(YieldRec(t, a)) < Min(YieldRec(t, b)))
      a == Ann(t, n)
      mark == IF a = None \/ fmt = "simple" THEN "" ELSE (IF fmt = "ptb" THEN "-" ELSE "=") \o a[1]
  IN IF i.k = "T" THEN "(" \o Paren(i.l \o mark) \o (IF fmt = "tueba" THEN ":" \o e ELSE "") \o " " \o Paren(i.f) \o ")"
     ELSE "(" \o i.l
          \o (CASE fmt = "ptb" -> (IF a = None THEN "" ELSE "-" \o a[1])
                [] fmt = "tueba" -> (IF a = None THEN "" ELSE "=" \o a[1]) \o ":" \o e
                [] OTHER -> "")
          \o (IF fmt = "tueba" THEN "" ELSE " ")
          \o Join([k \in DOMAIN kids |-> ShowAt(t, kids[k], fmt)], IF fmt = "tueba" THEN "" ELSE " ") \o ")"
Show(t, fmt) == ShowAt(t, t.root, fmt)

-----------------------------------------------------------------------------
(* streams.  Results are a sequence of items [k |-> "tree", t |-> ..],        *)
(* [k |-> "err"] (an error is due) and [k |-> "opt"] (an error is permitted). *)
Lines(s) ==
  LET p == SplitOn(s, {"\n"})
      q == [i \in DOMAIN p |-> IF i < Len(p) /\ p[i] # "" /\ Ch(p[i], Len(p[i])) = "\r"
                               THEN Cut(p[i], 1, Len(p[i]) - 1) ELSE p[i]]
  IN IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Item(s, fmt) == LET r == ParseBracket(s, fmt)
                IN IF r.ok THEN [k |-> "tree", t |-> r.t] ELSE [k |-> "err", t |-> NoTree]
ErrItem == [k |-> "err", t |-> NoTree]
OptItem == [k |-> "opt", t |-> NoTree]
SingleItems(s, fmt) == LET ls == SelectSeq(Lines(s), LAMBDA l : ~ StartsWith(l, "%"))
                       IN [i \in DOMAIN ls |-> Item(ls[i], fmt)]

Opens(l) == Cardinality(Where(l, {"("}))
Closes(l) == Cardinality(Where(l, {")"}))
OnlyBlank(l) == \A i \in 1..Len(l) : Ch(l, i) \in Blank
(* multi-line reader: buf collects the lines of the current bracketing, open  *)
(* is the number of brackets it leaves open                                   *)
MultiStep(st, l, fmt) ==
  LET buf == IF st.buf = "" THEN l ELSE st.buf \o " " \o l
      left == st.open + Opens(l) - Closes(l)
  IN IF l = "" \/ (st.buf = "" /\ StartsWith(l, "%")) THEN st
     ELSE IF st.buf = "" /\ OnlyBlank(l) THEN [st EXCEPT !.items = Append(@, OptItem)]
     ELSE IF left < 0 THEN [buf |-> "", open |-> 0, items |-> Append(st.items, ErrItem)]
     ELSE IF left > 0 THEN [st EXCEPT !.buf = buf, !.open = left]
     ELSE [buf |-> "", open |-> 0, items |-> Append(st.items, Item(buf, fmt))]
MultiItems(s, fmt) ==
  LET step(acc, l) == MultiStep(acc, l, fmt)
      end == FoldLeft(step, [buf |-> "", open |-> 0, items |-> <<>>], Lines(s))
  IN IF end.buf = "" THEN end.items ELSE Append(end.items, ErrItem)
BracketItems(s, fmt, multi) == IF multi THEN MultiItems(s, fmt) ELSE SingleItems(s, fmt)

(* does a list of results agree with a list of items?                         *)
(* results: <<"ok", J>> / <<"err", _>>; trees are compared canonically        *)
SameTree(J, t) == RawFaults(J) = {} /\ FullCanon(Abs(J)) = FullCanon(t)
RECURSIVE Agree(_, _, _, _)
Agree(items, i, res, j) ==
  IF i > Len(items) THEN j > Len(res)
  ELSE LET it == items[i] IN
    CASE it.k = "opt" -> Agree(items, i + 1, res, j) \/ (j <= Len(res) /\ res[j][1] = "err" /\ Agree(items, i + 1, res, j + 1))
      [] it.k = "err" -> j <= Len(res) /\ res[j][1] = "err" /\ Agree(items, i + 1, res, j + 1)
      [] it.k = "tree" -> j <= Len(res) /\ res[j][1] = "ok" /\ SameTree(res[j][2], it.t) /\ Agree(items, i + 1, res, j + 1)
      [] it.k = "alt" -> /\ j <= Len(res)
                         /\ \/ res[j][1] = "ok" /\ SameTree(res[j][2], it.t) /\ Agree(items, i + 1, res, j + 1)
                            \/ res[j][1] = "err" /\ Agree(<<OptItem>> \o SubSeq(items, i + 1, Len(items)), 1, res, j + 1)
ReadFaults(items, res) ==
  IF Agree(items, 1, res, 1) THEN {}
  ELSE IF Len(res) = Len(items) THEN
    {"item " \o IntText(i) \o (IF items[i].k = "tree" THEN (IF res[i][1] = "ok" THEN " differs from the text" ELSE " rejected")
                               ELSE " not rejected") :
       i \in {i \in DOMAIN items : \/ items[i].k = "tree" /\ ~ (res[i][1] = "ok" /\ SameTree(res[i][2], items[i].t))
                                   \/ items[i].k = "err" /\ res[i][1] = "ok"}}
    \union {"results disagree with the text"}
  ELSE {"number of results"}
=============================================================================
