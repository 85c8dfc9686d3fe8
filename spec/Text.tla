------------------------------- MODULE Text -------------------------------
(* String helpers (TLC evaluates Len, SubSeq and \o on strings). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

StartsAt(s, pat, i) ==
    i + Len(pat) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(pat) - 1) = pat

\* 1-based position of the first occurrence, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, pat, i) ==
    IF i + Len(pat) - 1 > Len(s) THEN 0
    ELSE IF StartsAt(s, pat, i) THEN i
    ELSE FindFrom(s, pat, i + 1)

Find(s, pat)      == FindFrom(s, pat, 1)
HasSub(s, pat)  == Find(s, pat) # 0
EndsWith(s, pat)  == Len(s) >= Len(pat) /\ StartsAt(s, pat, Len(s) - Len(pat) + 1)
StartsWith(s, pat) == StartsAt(s, pat, 1)
DropFront(s, n)   == IF n >= Len(s) THEN "" ELSE SubSeq(s, n + 1, Len(s))

AlNum == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R",
          "S","T","U","V","W","X","Y","Z","a","b","c","d","e","f","g","h","i","j",
          "k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "0","1","2","3","4","5","6","7","8","9"}

RECURSIVE KeepFrom(_, _, _)
KeepFrom(s, i, set) ==
    IF i > Len(s) THEN ""
    ELSE LET c == SubSeq(s, i, i)
         IN (IF c \in set THEN c ELSE "") \o KeepFrom(s, i + 1, set)
CleanName(s) == KeepFrom(s, 1, AlNum)

RECURSIVE Replaced(_, _, _, _)
Replaced(s, i, a, b) ==
    IF i > Len(s) THEN ""
    ELSE LET c == SubSeq(s, i, i)
         IN (IF c = a THEN b ELSE c) \o Replaced(s, i + 1, a, b)
Subst(s, a, b) == Replaced(s, 1, a, b)

RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = "/" THEN i ELSE LastSlash(s, i - 1)
BaseName(s) == DropFront(s, LastSlash(s, Len(s)))

RECURSIVE JoinFrom(_, _, _)
JoinFrom(seq, sep, i) ==
    IF i > Len(seq) THEN ""
    ELSE (IF i = 1 THEN "" ELSE sep) \o seq[i] \o JoinFrom(seq, sep, i + 1)
Join(seq, sep) == JoinFrom(seq, sep, 1)

\* sorted sequence of a set of strings, by a rank function given with the trace
SortByRank(set, rank) == SetToSortSeq(set, LAMBDA a, b: rank[a] < rank[b])

Has(f, k) == k \in DOMAIN f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Dedup(s) == FoldLeft(LAMBDA acc, x: IF \E i \in 1..Len(acc): acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)
EmptyFun == [x \in {} |-> 0]
SetOf(s) == {s[i]: i \in 1..Len(s)}
===========================================================================
