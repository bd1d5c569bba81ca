------------------------------- MODULE Buffers -------------------------------
(* Byte and char buffers: views (offset, capacity, position, limit, read-only)
   on shared stores of units.  Bound to java.nio.ByteBuffer (heap, direct and
   wrapped arrays) and CharBuffer. *)
EXTENDS Common
CONSTANTS Kinds, Views, Units(_), MaxCap, Widths, MaxLen, Record, Pick(_), PickSeq(_, _)
VARIABLES kind, mem, v, hist
vars == <<kind, mem, v, hist>>

MCUnits(kd) == {0, 1}
SimUnits(kd) == IF kd = "byte" THEN (-128)..127 ELSE {0, 1, 97, 98, 255, 256, 20013, 65535}
U == Units(kind)
None == [st |-> 0, off |-> 0, cap |-> 0, pos |-> 0, lim |-> 0, ro |-> FALSE, heap |-> TRUE]
Live == {k \in Views : v[k].st # 0}
Rem(k) == v[k].lim - v[k].pos
Addr(k, i) == v[k].off + i + 1
At(k, i) == mem[v[k].st][Addr(k, i)]
Window(k, i, n) == [j \in 1..n |-> At(k, i + j - 1)]
Content(k) == Window(k, v[k].pos, Rem(k))
Fresh == CHOOSE s \in Views : \A k \in Views : v[k].st # s
Store(s, a, xs) == [mem EXCEPT ![s] = [i \in 1..Len(@) |-> IF i > a /\ i <= a + Len(xs) THEN xs[i - a] ELSE @[i]]]

IOOBE == "!I"
Under == "!BufferUnderflowException"
Over == "!BufferOverflowException"
ROnly == "!ReadOnlyBufferException"
Illegal == "!IllegalArgumentException"

H(op, args, r) == hist' = IF Record THEN Append(hist, <<op, args, r>>) ELSE hist
Ask(op, args, r) == H(op, args, r) /\ UNCHANGED <<kind, mem, v>>
Upd(op, k, args, rec, r) == H(op, <<k>> \o args, r) /\ v' = [v EXCEPT ![k] = rec] /\ UNCHANGED <<kind, mem>>
Write(op, k, args, i, xs, pos) == /\ H(op, <<k>> \o args, pos) /\ v' = [v EXCEPT ![k].pos = pos]
                                  /\ mem' = Store(v[k].st, v[k].off + i, xs) /\ UNCHANGED kind
Big == IF Record THEN {2147483647, 2147483640, -2147483647} ELSE {}
Idx(n) == (0 - 1)..(n + 1) \cup Big
Info(w) == <<w.pos, w.lim, w.cap, w.lim - w.pos, IF w.ro THEN 1 ELSE 0>>
Zeros(n) == [i \in 1..n |-> 0]

\* -------- creation
\* when checked exhaustively, all views show one store
New == Record \/ Live = {}
DoAlloc == New /\ \E k \in Pick(Views), n \in Pick(0..MaxCap), h \in Pick(IF kind = "byte" THEN {TRUE, FALSE} ELSE {TRUE}) :
  LET s == IF v[k].st # 0 /\ \A j \in Views \ {k} : v[j].st # v[k].st THEN v[k].st ELSE Fresh IN
  /\ H("alloc", <<k, IF h THEN 1 ELSE 0, n>>, n)
  /\ mem' = [mem EXCEPT ![s] = Zeros(n)]
  /\ v' = [v EXCEPT ![k] = [None EXCEPT !.st = s, !.cap = n, !.lim = n, !.heap = h]] /\ UNCHANGED kind
DoWrap == New /\ \E k \in Pick(Views), n \in Pick(0..MaxCap) : \E xs \in PickSeq(U, n), o \in Pick(Idx(n)), l \in Pick(Idx(n)) :
  LET s == IF v[k].st # 0 /\ \A j \in Views \ {k} : v[j].st # v[k].st THEN v[k].st ELSE Fresh IN
  IF o < 0 \/ o > n \/ l < 0 \/ l > n - o THEN Ask("wrap", <<k, xs, o, l>>, IOOBE)
  ELSE /\ H("wrap", <<k, xs, o, l>>, n) /\ mem' = [mem EXCEPT ![s] = xs]
       /\ v' = [v EXCEPT ![k] = [None EXCEPT !.st = s, !.cap = n, !.pos = o, !.lim = o + l]] /\ UNCHANGED kind
\* view k becomes a view of what view j shows
DoSlice == \E k \in Pick(Views), j \in Pick(Live) :
  Upd("slice", k, <<j>>, [v[j] EXCEPT !.off = @ + v[j].pos, !.cap = Rem(j), !.pos = 0, !.lim = Rem(j)], Rem(j))
DoDup == \E k \in Pick(Views), j \in Pick(Live) : kind = "byte" /\ Upd("dup", k, <<j>>, v[j], v[j].cap)
DoReadOnly == \E k \in Pick(Views), j \in Pick(Live) : Upd("readOnly", k, <<j>>, [v[j] EXCEPT !.ro = TRUE], v[j].cap)

\* -------- the indexes
DoInfo == \E k \in Pick(Live) : Ask("info", <<k>>, Info(v[k]))
DoPosition == \E k \in Pick(Live) : \E x \in Pick(Idx(v[k].cap)) :
  IF x < 0 \/ x > v[k].lim THEN Ask("position", <<k, x>>, Illegal) ELSE Upd("position", k, <<x>>, [v[k] EXCEPT !.pos = x], Info([v[k] EXCEPT !.pos = x]))
DoMove == \E k \in Pick(Live) : \E x \in Pick(0..v[k].lim) : Upd("position", k, <<x>>, [v[k] EXCEPT !.pos = x], Info([v[k] EXCEPT !.pos = x]))
DoLimit == \E k \in Pick(Live) : \E x \in Pick(Idx(v[k].cap)) :
  IF x < 0 \/ x > v[k].cap THEN Ask("limit", <<k, x>>, Illegal)
  ELSE LET w == [v[k] EXCEPT !.lim = x, !.pos = Min2(@, x)] IN Upd("limit", k, <<x>>, w, Info(w))
DoClear == \E k \in Pick(Live) : LET w == [v[k] EXCEPT !.pos = 0, !.lim = v[k].cap] IN Upd("clear", k, <<>>, w, Info(w))
DoFlip == \E k \in Pick(Live) : LET w == [v[k] EXCEPT !.pos = 0, !.lim = v[k].pos] IN Upd("flip", k, <<>>, w, Info(w))
DoRewind == \E k \in Pick(Live) : LET w == [v[k] EXCEPT !.pos = 0] IN Upd("rewind", k, <<>>, w, Info(w))
DoCompact == \E k \in Pick(Live) : IF v[k].ro THEN Ask("compact", <<k>>, ROnly)
  ELSE LET xs == Content(k) IN
       /\ H("compact", <<k>>, Rem(k)) /\ mem' = Store(v[k].st, v[k].off, xs)
       /\ v' = [v EXCEPT ![k].pos = Rem(k), ![k].lim = v[k].cap] /\ UNCHANGED kind

\* -------- one unit or a group of them (2, 4, 8 bytes, most significant first; flavour 1: float or double)
DoGet == \E k \in Pick(Live) : IF Rem(k) < 1 THEN Ask("get", <<k>>, Under) ELSE Upd("get", k, <<>>, [v[k] EXCEPT !.pos = @ + 1], At(k, v[k].pos))
DoGetAt == \E k \in Pick(Live) : \E i \in Pick(Idx(v[k].lim)) : Ask("getAt", <<k, i>>, IF i < 0 \/ i >= v[k].lim THEN IOOBE ELSE At(k, i))
DoPut == \E k \in Pick(Live), x \in Pick(U) : IF v[k].ro THEN Ask("put", <<k, x>>, ROnly) ELSE IF Rem(k) < 1 THEN Ask("put", <<k, x>>, Over)
  ELSE Write("put", k, <<x>>, v[k].pos, <<x>>, v[k].pos + 1)
DoPutAt == \E k \in Pick(Live), x \in Pick(U) : \E i \in Pick(Idx(v[k].lim)) :
  IF v[k].ro THEN Ask("putAt", <<k, i, x>>, ROnly) ELSE IF i < 0 \/ i >= v[k].lim THEN Ask("putAt", <<k, i, x>>, IOOBE)
  ELSE Write("putAt", k, <<i, x>>, i, <<x>>, v[k].pos)
Plain(xs) == xs[1] >= 0 /\ xs[1] < 100
DoGetN == \E k \in Pick(Live), n \in Pick(Widths) : kind = "byte" /\
  IF Rem(k) < n THEN Ask("getN", <<k, n, 0>>, Under)
  ELSE \E xs \in {Window(k, v[k].pos, n)} : \E f \in Pick(IF n > 2 /\ Plain(xs) THEN {0, 1} ELSE {0}) : Upd("getN", k, <<n, f>>, [v[k] EXCEPT !.pos = @ + n], xs)
DoGetNAt == \E k \in Pick(Live), n \in Pick(Widths) : \E i \in Pick(Idx(v[k].lim)) : kind = "byte" /\
  IF i < 0 \/ n > v[k].lim - i THEN Ask("getNAt", <<k, i, n, 0>>, IOOBE)
  ELSE \E xs \in {Window(k, i, n)} : \E f \in Pick(IF n > 2 /\ Plain(xs) THEN {0, 1} ELSE {0}) : Ask("getNAt", <<k, i, n, f>>, xs)
DoPutN == \E k \in Pick(Live), n \in Pick(Widths) : \E xs \in PickSeq(U, n) : kind = "byte" /\
  \E f \in Pick(IF n > 2 /\ Plain(xs) THEN {0, 1} ELSE {0}) :
  IF v[k].ro THEN Ask("putN", <<k, xs, f>>, ROnly) ELSE IF Rem(k) < n THEN Ask("putN", <<k, xs, f>>, Over)
  ELSE Write("putN", k, <<xs, f>>, v[k].pos, xs, v[k].pos + n)
DoPutNAt == \E k \in Pick(Live), n \in Pick(Widths) : \E xs \in PickSeq(U, n), i \in Pick(Idx(v[k].lim)) : kind = "byte" /\
  \E f \in Pick(IF n > 2 /\ Plain(xs) THEN {0, 1} ELSE {0}) :
  IF v[k].ro THEN Ask("putNAt", <<k, i, xs, f>>, ROnly) ELSE IF i < 0 \/ n > v[k].lim - i THEN Ask("putNAt", <<k, i, xs, f>>, IOOBE)
  ELSE Write("putNAt", k, <<i, xs, f>>, i, xs, v[k].pos)

\* -------- arrays: a part (o, n) of an array of length l
DoGetArr == \E k \in Pick(Live), l \in Pick(0..Min2(MaxCap, 8)) : \E o \in Pick(Idx(l)), n \in Pick(Idx(l)) :
  IF o < 0 \/ n < 0 \/ o > l \/ n > l - o THEN (v[k].lim - v[k].pos >= l + 1 /\ Ask("getArr", <<k, l, o, n>>, IOOBE))
  ELSE IF n > Rem(k) THEN Ask("getArr", <<k, l, o, n>>, Under)
  ELSE Upd("getArr", k, <<l, o, n>>, [v[k] EXCEPT !.pos = @ + n], Window(k, v[k].pos, n))
DoPutArr == \E k \in Pick(Live), l \in Pick(0..Min2(MaxCap, 8)) : \E xs \in PickSeq(U, l), o \in Pick(Idx(l)), n \in Pick(Idx(l)) :
  IF v[k].ro THEN Ask("putArr", <<k, xs, o, n>>, ROnly)
  ELSE IF o < 0 \/ n < 0 \/ o > l \/ n > l - o THEN (v[k].lim - v[k].pos >= l + 1 /\ Ask("putArr", <<k, xs, o, n>>, IOOBE))
  ELSE IF n > Rem(k) THEN Ask("putArr", <<k, xs, o, n>>, Over)
  ELSE Write("putArr", k, <<xs, o, n>>, v[k].pos, Sub(xs, o + 1, o + n), v[k].pos + n)
DoGetAll == \E k \in Pick(Live) : Upd("getArr", k, <<Rem(k), 0, Rem(k)>>, [v[k] EXCEPT !.pos = v[k].lim], Content(k))
\* transfer of all that remains in j into k
DoPutBuf == \E k \in Pick(Live) : \E j \in Pick(Live \ {k}) :
  IF v[k].ro THEN Ask("putBuf", <<k, j>>, ROnly) ELSE IF Rem(j) > Rem(k) THEN Ask("putBuf", <<k, j>>, Over)
  ELSE \E xs \in {Content(j)} :
       /\ H("putBuf", <<k, j>>, Len(xs)) /\ mem' = Store(v[k].st, v[k].off + v[k].pos, xs)
       /\ v' = [v EXCEPT ![k].pos = @ + Len(xs), ![j].pos = v[j].lim] /\ UNCHANGED kind
\* the backing array of a heap buffer
DoArrayPut == \E k \in Pick({j \in Live : v[j].heap /\ ~v[j].ro /\ v[j].cap > 0}) : \E i \in Pick(0..(v[k].cap - 1)), x \in Pick(U) :
  Write("arrayPut", k, <<i, x>>, i, <<x>>, v[k].pos)
DoArray == \E k \in Pick({j \in Live : v[j].heap /\ ~v[j].ro}) : Ask("array", <<k>>, mem[v[k].st])

\* -------- comparison
Order(a, b) == LET n == Min2(Len(a), Len(b))
                   D == {i \in 1..n : a[i] # b[i]} IN
  IF D = {} THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET d == CHOOSE i \in D : \A e \in D : i <= e IN IF a[d] < b[d] THEN -1 ELSE 1
DoCompare == \E k \in Pick(Live), j \in Pick(Live) : \E o \in {Order(Content(k), Content(j))} : Ask("compare", <<k, j>>, o)
DoEquals == \E k \in Pick(Live), j \in Pick(Live) : \E e \in {Content(k) = Content(j)} : Ask("equals", <<k, j>>, <<IF e THEN 1 ELSE 0, IF e THEN 1 ELSE -1>>)
DoShow == \E k \in Pick(Live) : Ask("show", <<k>>, Window(k, 0, v[k].lim))

Do(op) == CASE op = "alloc" -> DoAlloc [] op = "wrap" -> DoWrap [] op = "slice" -> DoSlice [] op = "dup" -> DoDup [] op = "readOnly" -> DoReadOnly [] op = "info" -> DoInfo
  [] op = "position" -> DoPosition [] op = "move" -> DoMove [] op = "limit" -> DoLimit [] op = "clear" -> DoClear [] op = "flip" -> DoFlip [] op = "rewind" -> DoRewind [] op = "compact" -> DoCompact
  [] op = "get" -> DoGet [] op = "getAt" -> DoGetAt [] op = "put" -> DoPut [] op = "putAt" -> DoPutAt [] op = "getN" -> DoGetN [] op = "getNAt" -> DoGetNAt [] op = "putN" -> DoPutN
  [] op = "putNAt" -> DoPutNAt [] op = "getArr" -> DoGetArr [] op = "putArr" -> DoPutArr [] op = "getAll" -> DoGetAll [] op = "putBuf" -> DoPutBuf [] op = "arrayPut" -> DoArrayPut
  [] op = "array" -> DoArray [] op = "compare" -> DoCompare [] op = "equals" -> DoEquals [] op = "show" -> DoShow
Both == <<"alloc", "wrap", "slice", "slice", "readOnly", "info", "position", "move", "move", "move", "limit", "limit", "clear", "clear", "flip", "flip", "rewind", "compact", "compact",
          "get", "get", "getAt", "put", "put", "put", "put", "putAt", "putAt", "getArr", "getArr", "putArr", "putArr", "putArr", "putArr", "getAll", "putBuf", "putBuf", "putBuf",
          "arrayPut", "array", "compare", "equals", "show", "show", "show">>
Menu == [kd \in Kinds |-> IF kd = "char" THEN Both ELSE Both \o <<"dup", "dup", "getN", "getN", "getNAt", "getNAt", "putN", "putN", "putN", "putNAt", "putNAt", "putNAt">>]
Init == kind \in Kinds /\ mem = [s \in Views |-> <<>>] /\ v = [k \in Views |-> None] /\ hist = <<>>
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ LET w == Menu[kind] IN
           IF Record THEN IF Len(hist) < 4 \/ Live = {} THEN DoAlloc ELSE \E c \in 0..9 : IF c = 0 THEN DoShow ELSE \E i \in Pick(1..Len(w)) : Do(w[i])
           ELSE \E op \in Range1(w) : Do(op)
Emit == /\ Record /\ Len(hist) = MaxLen
        /\ PrintT(ToJson([kind |-> kind, hist |-> hist]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ UNCHANGED <<kind, mem, v>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* properties of the specification itself *)
IndexOK == \A k \in Live : LET w == v[k] IN 0 <= w.pos /\ w.pos <= w.lim /\ w.lim <= w.cap /\ w.off >= 0 /\ w.off + w.cap <= Len(mem[w.st])
\* a read-only view never writes: stores change only through a writable view of them
ReadOnlyOK == [][\A s \in Views : mem'[s] # mem[s] /\ (\A k \in Views : v[k].st = s => v'[k].st = s /\ v'[k].ro = v[k].ro) /\ (\E k \in Views : v[k].st = s) => (\E k \in Views : v[k].st = s /\ ~v[k].ro)]_vars
\* two views with the same offset show the same units
SharedOK == \A j, k \in Live : v[j].st = v[k].st /\ v[j].off = v[k].off =>
              LET n == Min2(v[j].lim, v[k].lim) IN Window(j, 0, n) = Window(k, 0, n)
=============================================================================
