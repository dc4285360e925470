-------------------------------- MODULE Text --------------------------------
(* Operations on TLC strings that the text formats of lumberjack need.        *)
(* TLC treats a string as a sequence of characters: Len, SubSeq and \o apply. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Ch(s, i) == SubSeq(s, i, i)
Cut(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
StartsWith(s, p) == Len(s) >= Len(p) /\ Cut(s, 1, Len(p)) = p
AscSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* positions of the characters of s that belong to the set C
Where(s, C) == {i \in 1..Len(s) : Ch(s, i) \in C}
HasAny(s, C) == \E i \in 1..Len(s) : Ch(s, i) \in C

\* s split at every character of C; empty pieces are kept
SplitOn(s, C) ==
  LET cuts == <<0>> \o AscSeq(Where(s, C)) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(cuts) - 1) |-> Cut(s, cuts[k] + 1, cuts[k + 1] - 1)]

\* s split at the (possibly longer) delimiter d, leftmost match first
RECURSIVE FindFrom(_, _, _)
FindFrom(s, d, i) == IF i + Len(d) - 1 > Len(s) THEN 0
                     ELSE IF Cut(s, i, i + Len(d) - 1) = d THEN i
                     ELSE FindFrom(s, d, i + 1)
RECURSIVE SplitBy(_, _)
SplitBy(s, d) == LET i == FindFrom(s, d, 1)
                 IN IF i = 0 THEN <<s>>
                    ELSE <<Cut(s, 1, i - 1)>> \o SplitBy(Cut(s, i + Len(d), Len(s)), d)
HasSub(s, d) == FindFrom(s, d, 1) # 0

NonEmpty(q) == SelectSeq(q, LAMBDA w : w # "")
Blank == {" ", "\t", "\r", "\n", "\f"}
Words(s) == NonEmpty(SplitOn(s, Blank))
\* without leading and trailing blanks
Trim(s) == LET in == {i \in 1..Len(s) : Ch(s, i) \notin Blank}
           IN IF in = {} THEN "" ELSE Cut(s, Min(in), Max(in))
First(s, C) == LET w == Where(s, C) IN IF w = {} THEN 0 ELSE Min(w)
\* <<what is before the first character of C, opt what is behind it>>
Halves(s, C) == LET i == First(s, C) IN IF i = 0 THEN <<s, <<>>>> ELSE <<Cut(s, 1, i - 1), <<Cut(s, i + 1, Len(s))>>>>
Last1(s, C) == LET w == Where(s, C) IN IF w = {} THEN 0 ELSE Max(w)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN "" ELSE IF i = Len(q) THEN q[i]
                       ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

RECURSIVE Replace(_, _, _)
Replace(s, c, r) == Join(SplitOn(s, {c}), r)

\* numbers
DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Digits == DOMAIN DigitVal
IsNatText(s) == Len(s) \in 1..9 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
\* what Rust's usize::from_str accepts (an optional plus sign, then digits)
IsUsize(s) == IsNatText(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "+" /\ IsNatText(Cut(s, 2, Len(s))))
RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
ToNat(s) == IF Ch(s, 1) = "+" THEN NatFrom(s, 2, 0) ELSE NatFrom(s, 1, 0)
IsIsize(s) == IsUsize(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ IsNatText(Cut(s, 2, Len(s))))
ToInt(s) == IF Ch(s, 1) = "-" THEN 0 - NatFrom(s, 2, 0) ELSE ToNat(s)
IntText(i) == ToString(i)

\* byte order of ASCII strings (TLC has no order on strings)
Ascii == " !" \o "\"" \o "#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiRank == TLCEval([c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c])
IsAscii(s) == \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN AsciiRank
RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
   ELSE IF Ch(a, i) = Ch(b, i) THEN StrLessFrom(a, b, i + 1)
   ELSE AsciiRank[Ch(a, i)] < AsciiRank[Ch(b, i)]
StrLess(a, b) == StrLessFrom(a, b, 1)

\* options are sequences of length zero or one
None == <<>>
Some(v) == <<v>>
IsSome(o) == Len(o) = 1
=============================================================================
