------------------------------- MODULE Lists -------------------------------
(* Lists, stacks and deques as sequences of integers (null is -1), with the
   position of one iterator; the list helpers of Collections and Arrays.
   Bound to java.util.ArrayList, LinkedList, Vector, Stack, ArrayDeque,
   Arrays.asList and Collections.synchronizedList. *)
EXTENDS Common
CONSTANTS Kinds, Vals, MaxLen, MaxSize, Bulk, Record, Pick(_), PickSeq(_, _)
VARIABLES kind, s, it, mode, hist
vars == <<kind, s, it, mode, hist>>

MCVals == {-1, 0, 1}
SimVals == (-1)..12
N == Len(s)
Off == [on |-> FALSE, pos |-> 0, last |-> 0, dir |-> 1]
Elems == IF kind = "deque" THEN Vals \ {Null} ELSE Vals
Room == N < MaxSize

\* -------- sequences
Ins(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
InsAll(q, i, xs) == SubSeq(q, 1, i) \o xs \o SubSeq(q, i + 1, Len(q))
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
IndexesOf(q, x) == {i \in 1..Len(q) : q[i] = x}
First(q, x) == LET I == IndexesOf(q, x) IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
LastOf(q, x) == LET I == IndexesOf(q, x) IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Sorted(q) == SortSeqInts(q)
NoNull(q) == IndexesOf(q, Null) = {}
Ascending(q) == NoNull(q) /\ \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Take(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE Null]

\* -------- recording
\* what changes: the sequence and the iterator
Set(op, args, q, i, r) == /\ s' = q /\ it' = i /\ UNCHANGED kind
                          /\ hist' = IF Record THEN Append(hist, <<op, args, r>>) ELSE hist
Ask(op, args, r) == Set(op, args, s, it, r)
\* a change not made through the iterator: it is not used again
Mod(op, args, q, r) == Set(op, args, q, Off, r)
IOOBE == "!I"
NSEE == "!NoSuchElementException"

Idx == (0 - 1)..(N + 1)
In(i) == i >= 0 /\ i < N

DoAdd == Room /\ \E x \in Pick(Elems) : Mod("add", <<x>>, Append(s, x), TRUE)
DoAddAt == Room /\ \E i \in Pick(Idx), x \in Pick(Elems) :
  IF i < 0 \/ i > N THEN Ask("addAt", <<i, x>>, IOOBE) ELSE Mod("addAt", <<i, x>>, Ins(s, i, x), 0)
DoAddAll == \E n \in Pick(0..Bulk) : N + n <= MaxSize /\ \E xs \in PickSeq(Elems, n) : Mod("addAll", <<xs>>, s \o xs, n > 0)
DoAddAllAt == \E n \in Pick(0..Min2(Bulk, 4)) : N + n <= MaxSize /\ \E i \in Pick(0..N) : \E xs \in PickSeq(Elems, n) : Mod("addAllAt", <<i, xs>>, InsAll(s, i, xs), n > 0)
DoGet == \E i \in Pick(Idx) : Ask("get", <<i>>, IF In(i) THEN s[i + 1] ELSE IOOBE)
DoSet == \E i \in Pick(Idx), x \in Pick(Elems) :
  IF In(i) THEN Set("set", <<i, x>>, [s EXCEPT ![i + 1] = x], it, s[i + 1]) ELSE Ask("set", <<i, x>>, IOOBE)
DoRemoveAt == \E i \in Pick(Idx) : IF In(i) THEN Mod("removeAt", <<i>>, Del(s, i + 1), s[i + 1]) ELSE Ask("removeAt", <<i>>, IOOBE)
DoRemove == \E x \in Pick(Elems) : LET i == First(s, x) IN
  IF i = 0 THEN Mod("remove", <<x>>, s, FALSE) ELSE Mod("remove", <<x>>, Del(s, i), TRUE)
DoRemoveLastOcc == \E x \in Pick(Elems) : LET i == LastOf(s, x) IN
  IF i = 0 THEN Mod("removeLastOccurrence", <<x>>, s, FALSE) ELSE Mod("removeLastOccurrence", <<x>>, Del(s, i), TRUE)
DoRemoveFirstOcc == \E x \in Pick(Elems) : LET i == First(s, x) IN
  IF i = 0 THEN Mod("removeFirstOccurrence", <<x>>, s, FALSE) ELSE Mod("removeFirstOccurrence", <<x>>, Del(s, i), TRUE)
DoRemoveAll == \E n \in Pick(0..2) : \E xs \in PickSeq(Elems, n) :
  LET q == SelectSeq(s, LAMBDA y : y \notin Range1(xs)) IN Mod("removeAll", <<xs>>, q, q # s)
DoContains == \E x \in Pick(Elems) : Ask("contains", <<x>>, First(s, x) > 0)
DoContainsAll == \E n \in Pick(0..2) : \E xs \in PickSeq(Elems, n) : Ask("containsAll", <<xs>>, Range1(xs) \subseteq Range1(s))
DoIndexOf == \E x \in Pick(Elems) : Ask("indexOf", <<x>>, First(s, x) - 1)
DoLastIndexOf == \E x \in Pick(Elems) : Ask("lastIndexOf", <<x>>, LastOf(s, x) - 1)
DoSize == Ask("size", <<>>, N)
DoIsEmpty == Ask("isEmpty", <<>>, N = 0)
DoClear == Mod("clear", <<>>, <<>>, 0)
DoToArray == Ask("toArray", <<>>, s)
\* into an array with n spare elements, all holding 7: the first spare one becomes null
DoToArrayIn == \E n \in Pick(0..3) : Ask("toArrayIn", <<n>>, s \o [i \in 1..n |-> IF i = 1 THEN Null ELSE 7])
DoCopy == Ask("copy", <<>>, s)
DoString == Ask("string", <<>>, s)
DoEach == Ask("each", <<>>, s)

\* -------- ends
Add1(op, x, r) == Room /\ Mod(op, <<x>>, <<x>> \o s, r)
AddN(op, x, r) == Room /\ Mod(op, <<x>>, Append(s, x), r)
\* remove and look at an end; e: what an empty one answers
Rem(op, front, e) == IF N = 0 THEN Mod(op, <<>>, s, e) ELSE Mod(op, <<>>, IF front THEN Tail(s) ELSE SubSeq(s, 1, N - 1), IF front THEN s[1] ELSE s[N])
Look(op, front, e) == Ask(op, <<>>, IF N = 0 THEN e ELSE IF front THEN s[1] ELSE s[N])
DequeOp(op) ==
  CASE op \in {"addFirst", "push"} -> \E x \in Pick(Elems) : Add1(op, x, 0)
    [] op = "offerFirst" -> \E x \in Pick(Elems) : Add1(op, x, TRUE)
    [] op \in {"addLast"} -> \E x \in Pick(Elems) : AddN(op, x, 0)
    [] op \in {"offerLast", "offer"} -> \E x \in Pick(Elems) : AddN(op, x, TRUE)
    [] op \in {"poll", "pollFirst"} -> Rem(op, TRUE, Null)
    [] op = "pollLast" -> Rem(op, FALSE, Null)
    [] op \in {"removeFirst", "pop", "removeHead"} -> Rem(op, TRUE, NSEE)
    [] op = "removeLast" -> Rem(op, FALSE, NSEE)
    [] op \in {"peek", "peekFirst"} -> Look(op, TRUE, Null)
    [] op = "peekLast" -> Look(op, FALSE, Null)
    [] op \in {"getFirst", "element"} -> Look(op, TRUE, NSEE)
    [] op = "getLast" -> Look(op, FALSE, NSEE)
DequeOps == <<"addFirst", "push", "offerFirst", "addLast", "offerLast", "offer", "poll", "pollFirst", "pollLast", "removeFirst", "pop", "removeHead", "removeLast",
              "peek", "peekFirst", "peekLast", "getFirst", "element", "getLast">>
ESE == "!EmptyStackException"
StackOp(op) ==
  CASE op = "spush" -> \E x \in Pick(Elems) : AddN(op, x, x)
    [] op = "spop" -> Rem(op, FALSE, ESE)
    [] op = "speek" -> Look(op, FALSE, ESE)
    [] op = "sempty" -> Ask(op, <<>>, N = 0)
StackOps == <<"spush", "spush", "spop", "speek", "sempty">>
VectorOp(op) ==
  CASE op = "addElement" -> \E x \in Pick(Elems) : AddN(op, x, 0)
    [] op = "insertElementAt" -> Room /\ \E i \in Pick(Idx), x \in Pick(Elems) : IF i < 0 \/ i > N THEN Ask(op, <<x, i>>, IOOBE) ELSE Mod(op, <<x, i>>, Ins(s, i, x), 0)
    [] op = "elementAt" -> \E i \in Pick(Idx) : Ask(op, <<i>>, IF In(i) THEN s[i + 1] ELSE IOOBE)
    [] op = "setElementAt" -> \E i \in Pick(Idx), x \in Pick(Elems) : IF In(i) THEN Set(op, <<x, i>>, [s EXCEPT ![i + 1] = x], it, 0) ELSE Ask(op, <<x, i>>, IOOBE)
    [] op = "removeElementAt" -> \E i \in Pick(Idx) : IF In(i) THEN Mod(op, <<i>>, Del(s, i + 1), 0) ELSE Ask(op, <<i>>, IOOBE)
    [] op = "removeElement" -> \E x \in Pick(Elems) : LET i == First(s, x) IN IF i = 0 THEN Mod(op, <<x>>, s, FALSE) ELSE Mod(op, <<x>>, Del(s, i), TRUE)
    [] op = "removeAllElements" -> Mod(op, <<>>, <<>>, 0)
    [] op \in {"copyInto", "clone", "elements"} -> Ask(op, <<>>, s)
VectorOps == <<"addElement", "insertElementAt", "elementAt", "setElementAt", "removeElementAt", "removeElement", "removeAllElements", "copyInto", "clone", "elements">>

\* -------- iterators: pos elements lie before the position, last is the index of the element a remove would take (0: none)
DoIter == Set("iterator", <<>>, s, [on |-> TRUE, pos |-> 0, last |-> 0, dir |-> 1], 0)
DoListIter == \E i \in Pick(Idx) : IF i < 0 \/ i > N THEN Set("listIterator", <<i>>, s, Off, IOOBE)
                                   ELSE Set("listIterator", <<i>>, s, [on |-> TRUE, pos |-> i, last |-> 0, dir |-> 2], 0)
DoDescIter == Set("descendingIterator", <<>>, s, [on |-> TRUE, pos |-> N, last |-> 0, dir |-> -1], 0)
Fwd(op) == IF it.pos = N THEN Ask(op, <<>>, NSEE) ELSE Set(op, <<>>, s, [it EXCEPT !.pos = it.pos + 1, !.last = it.pos + 1], s[it.pos + 1])
Bwd(op) == IF it.pos = 0 THEN Ask(op, <<>>, NSEE) ELSE Set(op, <<>>, s, [it EXCEPT !.pos = it.pos - 1, !.last = it.pos], s[it.pos])
DoNext == it.on /\ IF it.dir = -1 THEN Bwd("next") ELSE Fwd("next")
DoHasNext == it.on /\ Ask("hasNext", <<>>, IF it.dir = -1 THEN it.pos > 0 ELSE it.pos < N)
DoPrev == it.on /\ it.dir = 2 /\ Bwd("previous")
DoHasPrev == it.on /\ it.dir = 2 /\ Ask("hasPrevious", <<>>, it.pos > 0)
DoItRemove == it.on /\ kind # "aslist" /\
  IF it.last = 0 THEN Ask("itRemove", <<>>, "!IllegalStateException")
  ELSE Set("itRemove", <<>>, Del(s, it.last), [it EXCEPT !.pos = IF it.last <= it.pos THEN it.pos - 1 ELSE it.pos, !.last = 0], 0)

\* -------- helpers
DoSort == NoNull(s) /\ Set("sort", <<>>, Sorted(s), Off, 0)
DoSortRev == NoNull(s) /\ Set("sortReverse", <<>>, Rev(Sorted(s)), Off, 0)
DoReverse == Set("reverse", <<>>, Rev(s), Off, 0)
\* shuffling and sorting again
DoShuffleSort == NoNull(s) /\ Set("shuffleSort", <<>>, Sorted(s), Off, 0)
Spot(q, x) == Cardinality({i \in 1..Len(q) : q[i] < x})
\* where equal elements are several any of them may be found: the element found, or the insertion point
DoBinary == Ascending(s) /\ \E x \in Pick(Elems \ {Null}) : Ask("binarySearch", <<x>>, IF First(s, x) > 0 THEN x ELSE -1000 - Spot(s, x))
DoArraySort == NoNull(s) /\ Ask("arraySort", <<>>, Sorted(s))
DoArrayBinary == Ascending(s) /\ \E x \in Pick(Elems \ {Null}) : Ask("arrayBinarySearch", <<x>>, IF First(s, x) > 0 THEN x ELSE -1000 - Spot(s, x))
DoArrayBinaryIn == Ascending(s) /\ \E x \in Pick(Elems \ {Null}) : \E a \in Pick(0..N) : \E b \in Pick(a..N) :
  LET q == Sub(s, a + 1, b) IN Ask("arrayBinarySearchIn", <<x, a, b>>, IF First(q, x) > 0 THEN x ELSE -1000 - a - Spot(q, x))
DoCopyOf == \E n \in Pick(0..(N + 2)) : Ask("copyOf", <<n>>, Take(s, n))
DoFill == \E x \in Pick(Elems) : \E a \in Pick(Idx), b \in Pick(Idx) :
  Ask("fill", <<a, b, x>>, IF a < 0 \/ b > N THEN IOOBE ELSE IF a > b THEN "!IllegalArgumentException" ELSE [i \in 1..N |-> IF i > a /\ i <= b THEN x ELSE s[i]])
DoArrayEquals == \E i \in Pick(1..(N + 1)), x \in Pick(Elems) : Ask("arrayEquals", <<i - 1, x>>, i > N \/ (i <= N /\ s[i] = x))

Do(op) == CASE op = "add" -> DoAdd [] op = "addAt" -> DoAddAt [] op = "addAll" -> DoAddAll [] op = "addAllAt" -> DoAddAllAt [] op = "get" -> DoGet [] op = "set" -> DoSet
  [] op = "removeAt" -> DoRemoveAt [] op = "remove" -> DoRemove [] op = "removeAll" -> DoRemoveAll [] op = "contains" -> DoContains [] op = "containsAll" -> DoContainsAll
  [] op = "removeFirstOccurrence" -> DoRemoveFirstOcc [] op = "removeLastOccurrence" -> DoRemoveLastOcc
  [] op = "indexOf" -> DoIndexOf [] op = "lastIndexOf" -> DoLastIndexOf [] op = "size" -> DoSize [] op = "isEmpty" -> DoIsEmpty [] op = "clear" -> DoClear
  [] op = "toArray" -> DoToArray [] op = "toArrayIn" -> DoToArrayIn [] op = "copy" -> DoCopy [] op = "string" -> DoString [] op = "each" -> DoEach
  [] op = "iterator" -> DoIter [] op = "listIterator" -> DoListIter [] op = "descendingIterator" -> DoDescIter [] op = "next" -> DoNext [] op = "hasNext" -> DoHasNext
  [] op = "previous" -> DoPrev [] op = "hasPrevious" -> DoHasPrev [] op = "itRemove" -> DoItRemove
  [] op = "sort" -> DoSort [] op = "sortReverse" -> DoSortRev [] op = "reverse" -> DoReverse [] op = "shuffleSort" -> DoShuffleSort [] op = "binarySearch" -> DoBinary
  [] op = "arraySort" -> DoArraySort [] op = "arrayBinarySearch" -> DoArrayBinary [] op = "arrayBinarySearchIn" -> DoArrayBinaryIn [] op = "copyOf" -> DoCopyOf [] op = "fill" -> DoFill [] op = "arrayEquals" -> DoArrayEquals
  [] op \in Range1(DequeOps) -> DequeOp(op) [] op \in Range1(StackOps) -> StackOp(op) [] op \in Range1(VectorOps) -> VectorOp(op)

Times(x, n) == [i \in 1..n |-> x]
CollRead == <<"contains", "containsAll", "size", "isEmpty", "toArray", "toArrayIn", "copy", "string", "each">>
ListRead == <<"get", "get", "indexOf", "lastIndexOf">>
IterOps == <<"iterator", "next", "next", "next", "next", "hasNext", "itRemove", "itRemove">>
ListIterOps == <<"listIterator", "previous", "previous", "hasPrevious">>
Helpers == <<"sort", "sortReverse", "reverse", "shuffleSort", "binarySearch", "binarySearch">>
ArrayHelpers == <<"arraySort", "arrayBinarySearch", "arrayBinarySearchIn", "copyOf", "fill", "arrayEquals">>
ListMut(md) == LET g == IF md = "grow" THEN 9 ELSE IF md = "shrink" THEN 1 ELSE 4
                   d == IF md = "grow" THEN 1 ELSE IF md = "shrink" THEN 9 ELSE 4 IN
  Times("add", g) \o Times("addAt", g) \o Times("removeAt", d) \o Times("remove", d) \o <<"set", "set", "addAll", "removeAll">> \o (IF md = "shrink" THEN <<"clear">> ELSE <<>>)
DequeMut(md) == LET g == IF md = "grow" THEN 4 ELSE IF md = "shrink" THEN 1 ELSE 2
                    d == IF md = "grow" THEN 1 ELSE IF md = "shrink" THEN 4 ELSE 2 IN
  Times("addFirst", g) \o Times("offerFirst", g) \o Times("push", g) \o Times("addLast", g) \o Times("offerLast", g) \o Times("offer", g) \o Times("poll", d) \o Times("pollFirst", d) \o Times("pollLast", d)
  \o Times("removeFirst", d) \o Times("removeHead", d) \o Times("pop", d) \o Times("removeLast", d) \o Times("addLast", g) \o Times("removeFirst", d)
  \o <<"peek", "peekFirst", "peekLast", "getFirst", "element", "getLast", "removeFirstOccurrence", "removeLastOccurrence", "descendingIterator", "addAll", "remove", "removeAll">> \o (IF md = "shrink" THEN <<"clear">> ELSE <<>>)
MenuOf(kd, md) ==
  CASE kd = "deque" -> DequeMut(md) \o CollRead \o IterOps
    [] kd = "linked" -> DequeMut(md) \o ListMut(md) \o CollRead \o ListRead \o IterOps \o ListIterOps \o Helpers \o <<"addAllAt">>
    [] kd = "array" -> ListMut(md) \o ListMut(md) \o CollRead \o ListRead \o IterOps \o ListIterOps \o Helpers \o ArrayHelpers \o <<"addAllAt">>
    [] kd = "vector" -> ListMut(md) \o CollRead \o ListRead \o IterOps \o ListIterOps \o VectorOps \o Helpers \o <<"addAllAt">>
    [] kd = "stack" -> ListMut(md) \o CollRead \o ListRead \o IterOps \o ListIterOps \o StackOps \o StackOps \o StackOps
    [] kd = "sync" -> ListMut(md) \o SelectSeq(CollRead, LAMBDA o : o # "string") \o ListRead \o IterOps
    [] kd \in {"aslist"} -> CollRead \o ListRead \o IterOps \o ListIterOps \o <<"binarySearch">>
IterMenu(kd) == <<"iterator", "next", "next", "next", "next", "next", "next", "hasNext", "itRemove", "itRemove", "itRemove">>
       \o (IF kd \in {"deque", "linked"} THEN <<"descendingIterator">> ELSE <<>>)
       \o (IF kd \in {"linked", "array", "vector", "stack", "aslist"} THEN <<"listIterator", "previous", "previous", "previous", "previous", "hasPrevious">> ELSE <<>>)
       \o (IF kd = "aslist" THEN <<>> ELSE <<"add">>)
Menu == [kd \in Kinds |-> [md \in {"grow", "shrink", "mixed", "iter"} |-> IF md = "iter" THEN IterMenu(kd) ELSE MenuOf(kd, md)]]
OpsOf(kd) == Range1(Menu[kd]["shrink"])

Init == /\ kind \in Kinds /\ it = Off /\ hist = <<>>
        /\ mode = "grow"
        /\ IF kind = "aslist" THEN IF Record THEN s \in {<<>>, <<3>>, <<2, 2, 5, 1>>, <<0, 1, 2, 4, 4, 9>>, <<1, Null, 1>>} ELSE s \in {<<>>, <<0>>, <<0, 1, 0>>}
           ELSE s = <<>>
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ \E x \in IF Record THEN Pick(1..40) ELSE {0} :
             mode' = IF ~Record THEN mode ELSE IF x = 1 THEN "grow" ELSE IF x = 2 THEN "shrink" ELSE IF x = 3 THEN "mixed" ELSE IF x = 4 THEN "iter" ELSE mode
        /\ LET w == Menu[kind][mode] IN
           IF Record THEN \E c \in 0..9 : IF c = 0 THEN DoToArray ELSE \E i \in Pick(1..Len(w)) : Do(w[i])
           ELSE \E op \in OpsOf(kind) : Do(op)
Emit == /\ Record /\ Len(hist) = MaxLen
        /\ PrintT(ToJson([kind |-> kind, first |-> IF kind = "aslist" THEN s ELSE <<>>, hist |-> hist, fin |-> s]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ UNCHANGED <<kind, s, it, mode>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* properties of the specification itself *)
TypeOK == /\ Len(s) <= MaxSize /\ Range1(s) \subseteq Vals /\ it.pos \in 0..N /\ it.last \in 0..N
IterOK == it.on /\ it.last > 0 => it.last \in {it.pos, it.pos + 1}
Laws == /\ \A i \in 0..N, x \in Elems : Del(Ins(s, i, x), i + 1) = s
        /\ \A x \in Vals : LET i == First(s, x) IN i > 0 => s[i] = x /\ (\A j \in 1..(i - 1) : s[j] # x) /\ LastOf(Rev(s), x) = N + 1 - i
        /\ Rev(Rev(s)) = s
        /\ LET q == Sorted(s) IN /\ \A i \in 1..(N - 1) : q[i] <= q[i + 1]
                                 /\ \A x \in Vals : Cardinality(IndexesOf(q, x)) = Cardinality(IndexesOf(s, x))
\* one operation inserts or removes at one place, or is one of the bulk ones: the rest keeps its order
Small == [][Len(s') = Len(s) + 1 => \E i \in 1..Len(s') : Del(s', i) = s]_vars
=============================================================================
