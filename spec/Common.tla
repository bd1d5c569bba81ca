------------------------------- MODULE Common -------------------------------
(* Shared by all specifications.  Every action that chooses an argument does so
   with  \E x \in Pick(S) : ...  where Pick is a constant operator: the whole set
   when a model is checked exhaustively, one random element when behaviours are
   generated for replay against the code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

PickSeqAll(S, n) == [1..n -> S]
PickSeqOne(S, n) == {TLCEval([i \in 1..n |-> RandomElement(S)])}

Null == -1

Range1(s) == {s[i] : i \in 1..Len(s)}
SortInts(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* stable insertion sort of a sequence of integers
RECURSIVE InsertSorted(_, _)
InsertSorted(s, x) == IF s = <<>> \/ Head(s) >= x THEN <<x>> \o s
                      ELSE <<Head(s)>> \o InsertSorted(Tail(s), x)
SortSeqInts(s) == FoldLeft(LAMBDA acc, x : InsertSorted(acc, x), <<>>, s)
RemoveFrom(s, x) == SelectSeq(s, LAMBDA y : y # x)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* the sequence s[a..b], empty if a > b
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
=============================================================================
