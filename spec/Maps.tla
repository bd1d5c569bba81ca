-------------------------------- MODULE Maps --------------------------------
(* java.util maps and sets as mathematical maps and sets.
   m    : the map, a function whose domain is the key set (sets map to 0)
   ord  : insertion order of the keys, the iteration order of linked kinds
   snap : for the persistent set, the elements of a version kept aside *)
EXTENDS Common
CONSTANTS Kinds, Universes, NVals, MaxLen, Bulk, Record, Pick(_), PickSeq(_, _)

VARIABLES kind, K, m, ord, snap, mode, hist
vars == <<kind, K, m, ord, snap, mode, hist>>

SetKinds    == {"hashset", "linkedset", "treeset", "treesetrev", "pset"}
LinkedKinds == {"linked", "linkedset"}
TreeKinds   == {"tree", "treerev", "treeset", "treesetrev", "pset"}
RevKinds    == {"treerev", "treesetrev"}
IsSet       == kind \in SetKinds
Ordered     == kind \in (LinkedKinds \cup TreeKinds)

Keys == 0..(K - 1)
Vals == IF IsSet THEN {0} ELSE Null..(NVals - 1)
D    == DOMAIN m
Get(k) == IF k \in D THEN m[k] ELSE Null

Put(f, k, v) == (k :> v) @@ f
Del(f, S) == [k \in (DOMAIN f) \ S |-> f[k]]
OrdAdd(o, k) == IF k \in Range1(o) THEN o ELSE Append(o, k)
OrdDel(o, S) == SelectSeq(o, LAMBDA k : k \notin S)

\* keys in the order in which the collection must iterate (any order is allowed
\* for hash kinds: the driver sorts what it saw)
Listing == IF kind \in LinkedKinds THEN ord
           ELSE IF kind \in RevKinds THEN Reverse(SortInts(D))
           ELSE SortInts(D)
ValListing == IF Ordered THEN [i \in 1..Len(Listing) |-> m[Listing[i]]]
              ELSE SortSeqInts([i \in 1..Len(Listing) |-> m[Listing[i]]])
EntryListing == FoldLeft(LAMBDA acc, k : acc \o <<k, m[k]>>, <<>>, Listing)

Log(op, args, res) == hist' = IF Record THEN Append(hist, <<op, args, res>>) ELSE hist
Same == UNCHANGED <<m, ord>>
Query(op, args, res) == Same /\ UNCHANGED snap /\ Log(op, args, res)
Update(f, o, op, args, res) == m' = f /\ ord' = o /\ UNCHANGED snap /\ Log(op, args, res)

ApplyPairs(ks, vs) ==
  FoldLeft(LAMBDA acc, i : <<Put(acc[1], ks[i], vs[i]), OrdAdd(acc[2], ks[i])>>,
           <<m, ord>>, [i \in 1..Len(ks) |-> i])

------------------------------------------------------------------------------
(* map operations *)
DoPut == \E k \in Pick(Keys), v \in Pick(Vals) :
           Update(Put(m, k, v), OrdAdd(ord, k), "put", <<k, v>>, Get(k))
DoRemove == \E k \in Pick(Keys) :
           Update(Del(m, {k}), OrdDel(ord, {k}), "remove", <<k>>, Get(k))
DoGet == \E k \in Pick(Keys) : Query("get", <<k>>, Get(k))
DoContainsKey == \E k \in Pick(Keys) : Query("containsKey", <<k>>, k \in D)
DoContainsValue == \E v \in Pick(Vals) :
           Query("containsValue", <<v>>, \E k \in D : m[k] = v)
DoValuesContains == \E v \in Pick(Vals) :
           Query("valuesContains", <<v>>, \E k \in D : m[k] = v)
DoSize == Query("size", <<>>, Cardinality(D))
DoIsEmpty == Query("isEmpty", <<>>, D = {})
DoClear == Update(<<>>, <<>>, "clear", <<>>, 0)
DoPutAll == \E n \in Pick(0..Bulk) : \E ks \in PickSeq(Keys, n) : \E vs \in PickSeq(Vals, n) :
           LET r == ApplyPairs(ks, vs) IN Update(r[1], r[2], "putAll", <<ks, vs>>, 0)
DoKeys == Query("keys", <<>>, Listing)
DoKeyArray == Query("keyArray", <<>>, Listing)
DoValues == Query("values", <<>>, ValListing)
DoEntries == Query("entries", <<>>, EntryListing)
DoKeySetContains == \E k \in Pick(Keys) : Query("keySetContains", <<k>>, k \in D)
DoKeySetRemove == \E k \in Pick(Keys) :
           Update(Del(m, {k}), OrdDel(ord, {k}), "keySetRemove", <<k>>, k \in D)
DoEntryContains == \E k \in Pick(Keys), v \in Pick(Vals) :
           Query("entryContains", <<k, v>>, k \in D /\ m[k] = v)
DoEntryRemove == \E k \in Pick(Keys), v \in Pick(Vals) :
           LET hit == k \in D /\ m[k] = v
               S == IF hit THEN {k} ELSE {} IN
           Update(Del(m, S), OrdDel(ord, S), "entryRemove", <<k, v>>, hit)
DoViewClear == \E w \in Pick(0..2) : Update(<<>>, <<>>, "viewClear", <<w>>, 0)
\* iterate over the keys (w=0), or entries (w=1) with h calls of hasNext per step,
\* removing those whose key is in S
DoIterRemove == \E w \in Pick(0..1), h \in Pick(0..2) : \E n \in Pick(0..3) :
           \E S \in Pick({D \cap {x \in Keys : x % 4 \in T} : T \in {{n}, {0, n}, 0..n, 1..3, {}, 0..3}}) :
           Update(Del(m, S), OrdDel(ord, S), "iterRemove", <<w, h, SortInts(S)>>, Listing)
\* remove through the value iterator every entry with value v
DoIterRemoveValue == \E v \in Pick(Vals) :
           LET S == {k \in D : m[k] = v} IN
           Update(Del(m, S), OrdDel(ord, S), "iterRemoveValue", <<v>>, Cardinality(S))
DoIterSet == \E v \in Pick(Vals), n \in Pick(0..3) :
           LET S == {k \in D : k % 4 <= n} IN
           Update([k \in D |-> IF k \in S THEN v ELSE m[k]], ord, "iterSet", <<v, SortInts(S)>>,
                  SortSeqInts([i \in 1..Cardinality(S) |-> m[SortInts(S)[i]]]))
DoIterBad == \E w \in Pick(0..2) :
           Query("iterBad", <<w>>, IF w = 0 THEN "!IllegalStateException"
                                   ELSE IF w = 1 THEN "!NoSuchElementException"
                                   ELSE IF D = {} THEN "!NoSuchElementException" ELSE "!IllegalStateException")
\* the first remove of iterBad(2) takes effect
DoIterDouble == LET S == IF D = {} THEN {} ELSE {Listing[1]} IN
           IF ~Ordered THEN DoSize ELSE
           Update(Del(m, S), OrdDel(ord, S), "iterDouble", <<>>,
                  IF D = {} THEN "!NoSuchElementException" ELSE "!IllegalStateException")
DoCopy == Query("copy", <<>>, EntryListing)
DoFirstKey == Query("firstKey", <<>>, IF D = {} THEN "!NoSuchElementException" ELSE ToString(Listing[1]))
DoLastKey == Query("lastKey", <<>>, IF D = {} THEN "!NoSuchElementException" ELSE ToString(Listing[Len(Listing)]))
DoFirstEntry == Query("firstEntry", <<>>, IF D = {} THEN <<>> ELSE <<Listing[1], m[Listing[1]]>>)
DoLastEntry == Query("lastEntry", <<>>, IF D = {} THEN <<>> ELSE <<Listing[Len(Listing)], m[Listing[Len(Listing)]]>>)

(* set operations *)
DoAdd == \E k \in Pick(Keys) : Update(Put(m, k, 0), OrdAdd(ord, k), "add", <<k>>, k \notin D)
DoSetRemove == \E k \in Pick(Keys) : Update(Del(m, {k}), OrdDel(ord, {k}), "sremove", <<k>>, k \in D)
DoContains == \E k \in Pick(Keys) : Query("contains", <<k>>, k \in D)
DoElems == Query("elems", <<>>, Listing)
DoToArray == Query("toArray", <<>>, Listing)
DoAddAll == \E n \in Pick(0..Bulk) : \E ks \in PickSeq(Keys, n) :
           LET r == ApplyPairs(ks, [i \in 1..n |-> 0]) IN
           Update(r[1], r[2], "addAll", <<ks>>, Range1(ks) \ D # {})
DoRemoveAll == \E n \in Pick(0..Bulk) : \E ks \in PickSeq(Keys, n) :
           Update(Del(m, Range1(ks)), OrdDel(ord, Range1(ks)), "removeAll", <<ks>>, Range1(ks) \cap D # {})
DoContainsAll == \E n \in Pick(0..Min2(Bulk,3)) : \E ks \in PickSeq(Keys, n) :
           Query("containsAll", <<ks>>, Range1(ks) \subseteq D)
DoDescending == Query("descending", <<>>, Reverse(Listing))
DoFirst == Query("first", <<>>, IF D = {} THEN "!NoSuchElementException" ELSE ToString(Listing[1]))
DoLast == Query("last", <<>>, IF D = {} THEN "!NoSuchElementException" ELSE ToString(Listing[Len(Listing)]))
DoSnapshot == Same /\ snap' = D /\ Log("snapshot", <<>>, 0)
DoSnapElems == Query("snapElems", <<>>, SortInts(snap))
DoNeighbour == \E k \in Pick(Keys) :      \* successor and predecessor of k along the paths
           LET i == IF k \in D THEN CHOOSE j \in 1..Len(Listing) : Listing[j] = k ELSE 0 IN
           Query("neighbour", <<k>>,
                 IF i = 0 THEN <<>>
                 ELSE <<IF i = 1 THEN -1 ELSE Listing[i - 1], IF i = Len(Listing) THEN -1 ELSE Listing[i + 1]>>)

------------------------------------------------------------------------------
Rep(x, n) == [i \in 1..n |-> x]
MapRead == <<"get", "get", "containsKey", "containsValue", "valuesContains", "size", "isEmpty", "keys", "keyArray",
             "values", "entries", "entries", "keySetContains", "entryContains", "iterBad", "copy">>
MapMut  == <<"keySetRemove", "entryRemove", "iterRemove", "iterRemove", "iterRemoveValue", "iterSet", "putAll", "iterDouble">>
TreeRead == <<"firstKey", "lastKey", "firstEntry", "lastEntry">>
SetRead == <<"contains", "contains", "contains", "size", "isEmpty", "elems", "elems", "toArray", "containsAll", "iterBad", "copy">>
SetMut  == <<"iterRemove", "iterRemove", "addAll", "removeAll", "iterDouble">>
PsetOps == <<"snapshot", "snapElems", "neighbour", "elems", "elems", "contains", "size">>

MenuOf(kd, md) ==
  LET ins == IF md = "grow" THEN 30 ELSE IF md = "shrink" THEN 5 ELSE 14
      del == IF md = "grow" THEN 5 ELSE IF md = "shrink" THEN 30 ELSE 14
      rare == IF md = "shrink" THEN <<"clear">> ELSE <<>>
  IN IF kd = "pset" THEN Rep("add", ins) \o Rep("sremove", del) \o PsetOps
     ELSE IF kd \in SetKinds THEN Rep("add", ins) \o Rep("sremove", del) \o SetRead \o SetMut \o rare
             \o (IF kd \in TreeKinds THEN <<"descending", "first", "last">> ELSE <<>>)
     ELSE Rep("put", ins) \o Rep("remove", del) \o MapRead \o MapMut \o rare \o rare \o (IF md = "shrink" THEN <<"viewClear">> ELSE <<>>)
             \o (IF kd \in TreeKinds THEN TreeRead ELSE <<>>)
Menu == [kd \in Kinds |-> [md \in {"grow", "shrink", "mixed"} |-> MenuOf(kd, md)]]

Do(op) ==
  CASE op = "put" -> DoPut [] op = "remove" -> DoRemove [] op = "get" -> DoGet
    [] op = "containsKey" -> DoContainsKey [] op = "containsValue" -> DoContainsValue
    [] op = "valuesContains" -> DoValuesContains [] op = "size" -> DoSize [] op = "isEmpty" -> DoIsEmpty
    [] op = "clear" -> DoClear [] op = "putAll" -> DoPutAll [] op = "keys" -> DoKeys
    [] op = "keyArray" -> DoKeyArray [] op = "values" -> DoValues [] op = "entries" -> DoEntries
    [] op = "keySetContains" -> DoKeySetContains [] op = "keySetRemove" -> DoKeySetRemove
    [] op = "entryContains" -> DoEntryContains [] op = "entryRemove" -> DoEntryRemove
    [] op = "viewClear" -> DoViewClear [] op = "iterRemove" -> DoIterRemove
    [] op = "iterRemoveValue" -> DoIterRemoveValue [] op = "iterSet" -> DoIterSet
    [] op = "iterBad" -> DoIterBad [] op = "iterDouble" -> DoIterDouble [] op = "copy" -> DoCopy
    [] op = "firstKey" -> DoFirstKey [] op = "lastKey" -> DoLastKey
    [] op = "firstEntry" -> DoFirstEntry [] op = "lastEntry" -> DoLastEntry
    [] op = "add" -> DoAdd [] op = "sremove" -> DoSetRemove [] op = "contains" -> DoContains
    [] op = "elems" -> DoElems [] op = "toArray" -> DoToArray [] op = "addAll" -> DoAddAll
    [] op = "removeAll" -> DoRemoveAll [] op = "containsAll" -> DoContainsAll
    [] op = "descending" -> DoDescending [] op = "first" -> DoFirst [] op = "last" -> DoLast
    [] op = "snapshot" -> DoSnapshot [] op = "snapElems" -> DoSnapElems [] op = "neighbour" -> DoNeighbour

Init == /\ kind \in Kinds /\ K \in Universes
        /\ m = <<>> /\ ord = <<>> /\ snap = {} /\ mode = "grow" /\ hist = <<>>

Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ UNCHANGED <<kind, K>>
        /\ \E x \in Pick(1..40) :
             mode' = IF ~Record THEN mode
                     ELSE IF x = 1 THEN "grow" ELSE IF x = 2 THEN "shrink" ELSE IF x = 3 THEN "mixed" ELSE mode
        /\ LET w == Menu[kind][mode] IN
           IF Record THEN \E i \in Pick(1..Len(w)) : Do(w[i])
           ELSE \E op \in Range1(w) : Do(op)

Emit == /\ Record /\ Len(hist) = MaxLen
        /\ PrintT(ToJson([kind |-> kind, K |-> K, hist |-> hist,
                          fin |-> IF IsSet THEN Listing ELSE EntryListing]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>)
        /\ UNCHANGED <<kind, K, m, ord, snap, mode>>

Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* properties of the specification itself *)
TypeOK == /\ D \subseteq Keys /\ \A k \in D : m[k] \in Vals
          /\ snap \subseteq Keys
OrderOK == /\ Range1(ord) = D /\ Len(ord) = Cardinality(D)
           /\ Range1(Listing) = D /\ Len(Listing) = Cardinality(D)
SortedOK == kind \in TreeKinds =>
              \A i \in 1..(Len(Listing) - 1) :
                IF kind \in RevKinds THEN Listing[i] > Listing[i + 1] ELSE Listing[i] < Listing[i + 1]
\* an operation changes what is recorded for keys only as a put/remove does, and
\* surviving keys keep their relative insertion order
OrderStable == [][\A i, j \in 1..Len(ord) : i < j /\ {ord[i], ord[j]} \subseteq DOMAIN m' =>
                    \A a, b \in 1..Len(ord') : ord'[a] = ord[i] /\ ord'[b] = ord[j] => a < b]_vars
=============================================================================
