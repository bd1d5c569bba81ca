------------------------------- MODULE Texts -------------------------------
(* Strings and string builders as sequences of UTF-16 units, bit sets as sets
   of natural numbers.  r holds the strings (or sets) the program keeps, so a
   change to one that shows in another is seen; b is the builder.
   Bound to java.lang.String, StringBuilder, StringBuffer and java.util.BitSet. *)
EXTENDS Common
CONSTANTS Kinds, Regs, Ascii, Wide, MaxIdx, MaxLen, MaxSize, Record, Pick(_), PickSeq(_, _)
VARIABLES kind, r, b, hist
vars == <<kind, r, b, hist>>

MCAscii == {97, 65}
MCWide == {233}
SimAscii == {97, 98, 65, 32, 9, 48, 1, 0}
SimWide == {233, 1065, 20013, 65533}
Chars == Ascii \cup Wide
IOOBE == "!I"
NSize(q) == Len(q)

\* -------- sequences
Cut(q, i, j) == Sub(q, i + 1, j)                    \* units i .. j-1
MatchAt(q, p, i) == i >= 0 /\ i + Len(p) <= Len(q) /\ \A k \in 1..Len(p) : q[i + k] = p[k]
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i > n THEN n ELSE i
Least(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
IndexStr(q, p, from) == LET f == Clamp(from, Len(q)) IN Least({i \in f..(Len(q) - Len(p)) : MatchAt(q, p, i)})
LastStr(q, p, from) == Greatest({i \in 0..Min2(from, Len(q) - Len(p)) : MatchAt(q, p, i)})
IndexCh(q, c, from) == IndexStr(q, <<c>>, from)
LastCh(q, c, from) == LastStr(q, <<c>>, from)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Compare(q, p) == LET n == Min2(Len(q), Len(p))
                     d == Least({i \in 1..n : q[i] # p[i]}) IN
                 IF d = -1 THEN Len(q) - Len(p) ELSE q[d] - p[d]
Trim(q) == LET I == {i \in 1..Len(q) : q[i] > 32} IN IF I = {} THEN <<>> ELSE SubSeq(q, Least(I), Greatest(I))
RECURSIVE SwapAll(_, _, _)
SwapAll(q, p, t) == LET i == IndexStr(q, p, 0) IN
  IF i = -1 THEN q ELSE \* a fresh result first: force the recursion once
  Cut(q, 0, i) \o t \o SwapAll(Cut(q, i + Len(p), Len(q)), p, t)
Infuse(q, t) == FoldLeft(LAMBDA acc, c : acc \o <<c>> \o t, t, q)
Swap(q, p, t) == IF p = <<>> THEN Infuse(q, t) ELSE SwapAll(q, p, t)
\* 32 bit hash as high and low half
Hash(q) == FoldLeft(LAMBDA h, c : LET lo == 31 * h[2] + c IN <<(31 * h[1] + (lo \div 65536)) % 65536, lo % 65536>>, <<0, 0>>, q)
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bytes(q) == FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, q)
\* cut at c, without trailing empty pieces; the pieces are joined by -2
Pieces(q, c) == LET ps == FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)], <<<<>>>>, q)
                    n == Greatest({i \in 1..Len(ps) : ps[i] # <<>>}) IN
                IF q = <<>> THEN <<<<>>>> ELSE IF n = -1 THEN <<>> ELSE SubSeq(ps, 1, n)
Join(ps) == FoldLeft(LAMBDA acc, p : acc \o p \o <<-2>>, <<>>, ps)
Splice(q, i, j, t) == Cut(q, 0, i) \o t \o Cut(q, j, Len(q))
Fill(q, n) == IF n <= Len(q) THEN Cut(q, 0, n) ELSE q \o [i \in 1..(n - Len(q)) |-> 0]
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
NullText == <<110, 117, 108, 108>>
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>

\* -------- recording
H(op, args, v) == hist' = IF Record THEN Append(hist, <<op, args, v>>) ELSE hist
Ask(op, args, v) == H(op, args, v) /\ UNCHANGED <<kind, r, b>>
Put(op, k, args, v) == H(op, <<k>> \o args, v) /\ r' = [r EXCEPT ![k] = v] /\ UNCHANGED <<kind, b>>
PutB(op, args, v) == H(op, args, Len(v)) /\ b' = v /\ UNCHANGED <<kind, r>>
Fits(v) == Len(v) <= MaxSize
Huge == {2147483647, -2147483647}
Idx(n) == IF Record THEN (0 - 2)..(n + 2) \cup {2147483647, -2147483647} ELSE (0 - 1)..(n + 1)

\* -------- strings
DoNew == \E k \in Pick(Regs), f \in Pick(0..5), n \in Pick(0..Min2(MaxSize, 8)), w \in Pick({0, 1}) :
  \E q \in PickSeq(IF w = 0 THEN Ascii ELSE Chars, n) : Put("new", k, <<f, q>>, q)
DoNewRange == \E k \in Pick(Regs), n \in Pick(0..Min2(MaxSize, 4)) : \E q \in PickSeq(Chars, n), o \in Pick(Idx(n)), l \in Pick(Idx(n)), f \in Pick(0..1) :
  IF o < 0 \/ l < 0 \/ o > n \/ l > n - o THEN Ask("newRange", <<k, f, q, o, l>>, IOOBE) ELSE Put("newRange", k, <<f, q, o, l>>, Cut(q, o, o + l))
DoSubFrom == \E k \in Pick(Regs), i \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i]))) :
  IF x < 0 \/ x > Len(r[i]) THEN Ask("subFrom", <<k, i, x>>, IOOBE) ELSE Put("subFrom", k, <<i, x>>, Cut(r[i], x, Len(r[i])))
DoSub == \E k \in Pick(Regs), i \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i]))), y \in Pick(Idx(Len(r[i]))), f \in Pick({0, 1}) :
  IF x < 0 \/ y > Len(r[i]) \/ x > y THEN Ask("sub", <<k, f, i, x, y>>, IOOBE) ELSE Put("sub", k, <<f, i, x, y>>, Cut(r[i], x, y))
\* the same, in range more often
DoSlice == \E k \in Pick(Regs), i \in Pick(Regs) : \E x \in Pick(0..Len(r[i])) : \E y \in Pick(x..Len(r[i])) : Put("sub", k, <<0, i, x, y>>, Cut(r[i], x, y))
DoConcat == \E k \in Pick(Regs), i \in Pick(Regs), j \in Pick(Regs), f \in Pick({0, 1}) : LET v == r[i] \o r[j] IN Fits(v) /\ Put("concat", k, <<f, i, j>>, v)
DoReplaceCh == \E k \in Pick(Regs), i \in Pick(Regs), c \in Pick(Chars), d \in Pick(Chars) : Put("replaceCh", k, <<i, c, d>>, Map(r[i], LAMBDA x : IF x = c THEN d ELSE x))
DoReplace == \E k \in Pick(Regs), i \in Pick(Regs), j \in Pick(Regs), t \in Pick(Regs) :
  \E v \in {Swap(r[i], r[j], r[t])} : Fits(v) /\ Put("replace", k, <<i, j, t>>, v)
DoTrim == \E k \in Pick(Regs), i \in Pick(Regs) : Put("trim", k, <<i>>, Trim(r[i]))
Plain(q) == Range1(q) \subseteq Ascii
DoCase == \E k \in Pick(Regs), i \in Pick(Regs), f \in Pick({0, 1}) : Plain(r[i]) /\ Put("case", k, <<f, i>>, IF f = 0 THEN Map(r[i], Lower) ELSE Map(r[i], Upper))
DoCharAt == \E i \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i]))) : Ask("charAt", <<i, x>>, IF x < 0 \/ x >= Len(r[i]) THEN IOOBE ELSE r[i][x + 1])
DoLength == \E i \in Pick(Regs) : Ask("length", <<i>>, Len(r[i]))
DoEmpty == \E i \in Pick(Regs) : Ask("isEmpty", <<i>>, r[i] = <<>>)
DoIndexCh == \E i \in Pick(Regs), c \in Pick(Chars) : \E x \in Pick(Idx(Len(r[i]))) : Ask("indexOfCh", <<i, c, x>>, IndexCh(r[i], c, x))
DoLastCh == \E i \in Pick(Regs), c \in Pick(Chars) : \E x \in Pick(Idx(Len(r[i]))) : Ask("lastIndexOfCh", <<i, c, x>>, LastCh(r[i], c, x))
DoFirstCh == \E i \in Pick(Regs), c \in Pick(Chars) : Ask("firstLastCh", <<i, c>>, <<IndexCh(r[i], c, 0), LastCh(r[i], c, Len(r[i]))>>)
DoIndex == \E i \in Pick(Regs), j \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i]))) : Ask("indexOf", <<i, j, x>>, IndexStr(r[i], r[j], x))
DoLast == \E i \in Pick(Regs), j \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i]))) : Ask("lastIndexOf", <<i, j, x>>, LastStr(r[i], r[j], x))
DoFirst == \E i \in Pick(Regs), j \in Pick(Regs) : Ask("firstLast", <<i, j>>, <<IndexStr(r[i], r[j], 0), LastStr(r[i], r[j], Len(r[i]))>>)
DoStarts == \E i \in Pick(Regs), j \in Pick(Regs) : Ask("startsEnds", <<i, j>>,
  <<IF MatchAt(r[i], r[j], 0) THEN 1 ELSE 0, IF MatchAt(r[i], r[j], Len(r[i]) - Len(r[j])) THEN 1 ELSE 0, IF IndexStr(r[i], r[j], 0) >= 0 THEN 1 ELSE 0>>)
DoStartsAt == \E i \in Pick(Regs), j \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i])) \ Huge) : Ask("startsWith", <<i, j, x>>, MatchAt(r[i], r[j], x))
DoCompare == \E i \in Pick(Regs), j \in Pick(Regs) : Ask("compare", <<i, j>>, Compare(r[i], r[j]))
DoEquals == \E i \in Pick(Regs), j \in Pick(Regs) : Ask("equals", <<i, j>>, r[i] = r[j])
DoCompareCase == \E i \in Pick(Regs), j \in Pick(Regs) : Plain(r[i]) /\ Plain(r[j]) /\ Ask("compareIgnoreCase", <<i, j>>, Compare(Map(r[i], Lower), Map(r[j], Lower)))
DoEqualsCase == \E i \in Pick(Regs), j \in Pick(Regs) : Plain(r[i]) /\ Plain(r[j]) /\ Ask("equalsIgnoreCase", <<i, j>>, Map(r[i], Lower) = Map(r[j], Lower))
DoHash == \E i \in Pick(Regs) : Ask("hash", <<i>>, Hash(r[i]))
DoRegion == \E i \in Pick(Regs), j \in Pick(Regs), f \in Pick({0, 1}) : \E x \in Pick(Idx(Len(r[i])) \ Huge), y \in Pick(Idx(Len(r[j])) \ Huge), n \in Pick(0..(Len(r[i]) + 1)) :
  (f = 0 \/ (Plain(r[i]) /\ Plain(r[j]))) /\
  Ask("region", <<f, i, x, j, y, n>>, x >= 0 /\ y >= 0 /\ x + n <= Len(r[i]) /\ y + n <= Len(r[j])
      /\ \A k \in 1..n : r[i][x + k] = r[j][y + k] \/ (f = 1 /\ Lower(r[i][x + k]) = Lower(r[j][y + k])))
DoGetChars == \E i \in Pick(Regs) : \E x \in Pick(Idx(Len(r[i]))), y \in Pick(Idx(Len(r[i]))), o \in Pick(0..2) :
  \* into an array of length 20 at o
  Ask("getChars", <<i, x, y, o>>, IF x < 0 \/ y > Len(r[i]) \/ x > y THEN IOOBE ELSE IF o + y - x > 20 THEN IOOBE ELSE Cut(r[i], x, y))
DoToChars == \E i \in Pick(Regs) : Ask("toChars", <<i>>, r[i])
DoBytes == \E i \in Pick(Regs) : Ask("bytes", <<i>>, Bytes(r[i]))
DoLatin == \E i \in Pick(Regs) : (\A c \in Range1(r[i]) : c < 256) /\ Ask("latin", <<i>>, r[i])
DoSplit == \E i \in Pick(Regs), c \in Pick({97, 98, 65, 48} \cap Chars) : \E v \in {Join(Pieces(r[i], c))} : Ask("split", <<i, c>>, v)
DoAll == Ask("all", <<>>, Join([k \in 1..Cardinality(Regs) |-> r[k]]))

StringOp(op) == CASE op = "new" -> DoNew [] op = "newRange" -> DoNewRange [] op = "subFrom" -> DoSubFrom [] op = "sub" -> DoSub [] op = "slice" -> DoSlice [] op = "concat" -> DoConcat
  [] op = "replaceCh" -> DoReplaceCh [] op = "replace" -> DoReplace [] op = "trim" -> DoTrim [] op = "case" -> DoCase [] op = "charAt" -> DoCharAt [] op = "length" -> DoLength
  [] op = "isEmpty" -> DoEmpty [] op = "indexOfCh" -> DoIndexCh [] op = "lastIndexOfCh" -> DoLastCh [] op = "firstLastCh" -> DoFirstCh [] op = "indexOf" -> DoIndex [] op = "lastIndexOf" -> DoLast
  [] op = "firstLast" -> DoFirst [] op = "starts" -> DoStarts [] op = "startsAt" -> DoStartsAt [] op = "compare" -> DoCompare [] op = "equals" -> DoEquals
  [] op = "compareCase" -> DoCompareCase [] op = "equalsCase" -> DoEqualsCase [] op = "hash" -> DoHash [] op = "region" -> DoRegion [] op = "getChars" -> DoGetChars
  [] op = "toChars" -> DoToChars [] op = "bytes" -> DoBytes [] op = "latin" -> DoLatin [] op = "split" -> DoSplit [] op = "all" -> DoAll
StringMut == <<"new", "new", "new", "new", "concat", "concat", "newRange", "subFrom", "sub", "slice", "slice", "slice", "concat", "concat", "replaceCh", "replace", "trim", "case">>
StringAsk == <<"charAt", "length", "isEmpty", "indexOfCh", "lastIndexOfCh", "firstLastCh", "indexOf", "lastIndexOf", "firstLast", "starts", "startsAt",
               "compare", "equals", "compareCase", "equalsCase", "hash", "region", "getChars", "toChars", "bytes", "latin", "split">>

\* -------- builders
NB == Len(b)
Grow(op, args, v) == Fits(v) /\ PutB(op, args, v)
BAppend == \E i \in Pick(Regs), f \in Pick(0..4) : Grow("append", <<f, i>>, b \o r[i])
BAppendCh == \E c \in Pick(Chars) : Grow("appendCh", <<c>>, b \o <<c>>)
BAppendInt == \E n \in Pick(IF Record THEN {0, 7, 42, -5, 123456, 2147483647} ELSE {0}), f \in Pick({0, 1}) : Grow("appendInt", <<f, n>>, b \o Digits(n))
BAppendBool == \E f \in Pick({0, 1}) : Grow("appendBool", <<f>>, b \o (IF f = 1 THEN TrueText ELSE FalseText))
BAppendNull == \E f \in Pick(0..2) : Grow("appendNull", <<f>>, b \o NullText)
BAppendRange == \E i \in Pick(Regs), f \in Pick({0, 1}) : \E x \in Pick(Idx(Len(r[i])) \ Huge), y \in Pick(Idx(Len(r[i])) \ Huge) :
  IF x < 0 \/ y > Len(r[i]) \/ x > y THEN Ask("appendRange", <<f, i, x, y>>, IOOBE) ELSE Grow("appendRange", <<f, i, x, y>>, b \o Cut(r[i], x, y))
At(x, op, args, v) == IF x < 0 \/ x > NB THEN Ask(op, args, IOOBE) ELSE Grow(op, args, v)
BInsert == \E x \in Pick(Idx(NB)), i \in Pick(Regs), f \in Pick({0, 1}) : At(x, "insert", <<f, x, i>>, Splice(b, x, x, r[i]))
BInsertCh == \E x \in Pick(Idx(NB)), c \in Pick(Chars) : At(x, "insertCh", <<x, c>>, Splice(b, x, x, <<c>>))
BInsertInt == \E x \in Pick(Idx(NB)), n \in Pick(IF Record THEN {0, 42, -5} ELSE {0}) : At(x, "insertInt", <<x, n>>, Splice(b, x, x, Digits(n)))
BInsertNull == \E x \in Pick(Idx(NB)) : At(x, "insertNull", <<x>>, Splice(b, x, x, NullText))
BDelete == \E x \in Pick(Idx(NB)), y \in Pick(Idx(NB)) : IF x < 0 \/ x > NB \/ x > y THEN Ask("delete", <<x, y>>, IOOBE) ELSE PutB("delete", <<x, y>>, Splice(b, x, Min2(y, NB), <<>>))
\* a short piece in the middle
BDeletePart == \E x \in Pick(0..NB) : \E y \in Pick(x..Min2(x + 6, NB)) : PutB("delete", <<x, y>>, Splice(b, x, y, <<>>))
BDeleteCh == \E x \in Pick(Idx(NB)) : IF x < 0 \/ x >= NB THEN Ask("deleteCharAt", <<x>>, IOOBE) ELSE PutB("deleteCharAt", <<x>>, Splice(b, x, x + 1, <<>>))
BReplace == \E x \in Pick(Idx(NB)), y \in Pick(Idx(NB)), i \in Pick(Regs) :
  IF x < 0 \/ x > NB \/ x > y THEN Ask("replaceB", <<x, y, i>>, IOOBE) ELSE Grow("replaceB", <<x, y, i>>, Splice(b, x, Min2(y, NB), r[i]))
BSetCh == \E x \in Pick(Idx(NB)), c \in Pick(Chars) : IF x < 0 \/ x >= NB THEN Ask("setCharAt", <<x, c>>, IOOBE) ELSE PutB("setCharAt", <<x, c>>, [b EXCEPT ![x + 1] = c])
BSetLen == \E x \in Pick({0 - 1} \cup 0..MaxSize) : IF x < 0 THEN Ask("setLength", <<x>>, IOOBE) ELSE PutB("setLength", <<x>>, Fill(b, x))
BSetLenNear == \E x \in Pick(Max2(0, NB - 3)..Min2(NB + 3, MaxSize)) : PutB("setLength", <<x>>, Fill(b, x))
BCharAt == \E x \in Pick(Idx(NB)) : Ask("charAtB", <<x>>, IF x < 0 \/ x >= NB THEN IOOBE ELSE b[x + 1])
BLength == Ask("lengthB", <<>>, NB)
BIndex == \E i \in Pick(Regs), x \in Pick(Idx(NB)) : Ask("indexOfB", <<i, x>>, IndexStr(b, r[i], x))
BLast == \E i \in Pick(Regs), x \in Pick(Idx(NB)) : Ask("lastIndexOfB", <<i, x>>, LastStr(b, r[i], x))
BFirst == \E i \in Pick(Regs) : Ask("firstLastB", <<i>>, <<IndexStr(b, r[i], 0), LastStr(b, r[i], NB)>>)
BFirst1 == \E i \in Pick(Regs) : Ask("indexOfB1", <<i>>, IndexStr(b, r[i], 0))
BSub == \E k \in Pick(Regs), x \in Pick(Idx(NB)), y \in Pick(Idx(NB)), f \in Pick({0, 1}) :
  IF x < 0 \/ y > NB \/ x > y THEN Ask("subB", <<k, f, x, y>>, IOOBE) ELSE Put("subB", k, <<f, x, y>>, Cut(b, x, y))
BSubFrom == \E k \in Pick(Regs), x \in Pick(Idx(NB)) : IF x < 0 \/ x > NB THEN Ask("subFromB", <<k, x>>, IOOBE) ELSE Put("subFromB", k, <<x>>, Cut(b, x, NB))
BSlice == \E k \in Pick(Regs), x \in Pick(0..NB) : \E y \in Pick(x..Min2(NB, x + 8)) : Put("subB", k, <<0, x, y>>, Cut(b, x, y))
BGetChars == \E x \in Pick(Idx(NB)), y \in Pick(Idx(NB)) :
  Ask("getCharsB", <<x, y>>, IF x < 0 \/ y > NB \/ x > y THEN IOOBE ELSE Cut(b, x, y))
BString == \E k \in Pick(Regs) : Put("stringB", k, <<>>, b)
BShow == Ask("showB", <<>>, b)
BReset == \E i \in Pick(Regs) : PutB("resetB", <<i>>, r[i])
BuilderOp(op) == CASE op = "append" -> BAppend [] op = "appendCh" -> BAppendCh [] op = "appendInt" -> BAppendInt [] op = "appendBool" -> BAppendBool [] op = "appendNull" -> BAppendNull
  [] op = "appendRange" -> BAppendRange [] op = "insert" -> BInsert [] op = "insertCh" -> BInsertCh [] op = "insertInt" -> BInsertInt [] op = "insertNull" -> BInsertNull [] op = "delete" -> BDelete
  [] op = "deletePart" -> BDeletePart [] op = "deleteCharAt" -> BDeleteCh [] op = "replaceB" -> BReplace [] op = "setCharAt" -> BSetCh [] op = "setLength" -> BSetLen [] op = "setLengthNear" -> BSetLenNear
  [] op = "charAtB" -> BCharAt [] op = "lengthB" -> BLength [] op = "indexOfB" -> BIndex [] op = "lastIndexOfB" -> BLast [] op = "firstLastB" -> BFirst [] op = "indexOfB1" -> BFirst1 [] op = "subB" -> BSub
  [] op = "subFromB" -> BSubFrom [] op = "sliceB" -> BSlice [] op = "getCharsB" -> BGetChars [] op = "stringB" -> BString [] op = "showB" -> BShow [] op = "resetB" -> BReset
  [] OTHER -> StringOp(op)
BufferOps == <<"append", "append", "append", "appendCh", "appendCh", "appendInt", "appendBool", "appendNull", "insert", "insert", "insertCh", "insertCh", "insertInt", "insertNull", "append", "appendCh", "appendCh", "appendInt", "insert",
  "deletePart", "deletePart", "deletePart", "deleteCharAt", "replaceB", "setCharAt", "setCharAt", "setLengthNear", "setLengthNear",
  "charAtB", "lengthB", "indexOfB", "indexOfB1", "subB", "sliceB", "sliceB", "getCharsB", "stringB", "resetB", "new", "new", "new", "slice">>
BuilderOps == BufferOps \o BufferOps \o <<"setLength", "delete", "appendRange", "appendRange", "lastIndexOfB", "firstLastB", "subFromB">>

\* -------- bit sets: r[1] and r[2] (and the third, if there is one, empty)
Bits == 0..MaxIdx
BitIdx == {0 - 1} \cup Bits
Is(k, S, op, args, v) == H(op, <<k>> \o args, v) /\ r' = [r EXCEPT ![k] = S] /\ UNCHANGED <<kind, b>>
SList(S) == SortInts(S)
Chg(k, S, op, args) == Is(k, S, op, args, Cardinality(S))
BitAt(op, F(_, _)) == \E k \in Pick(Regs), x \in Pick(BitIdx) : IF x < 0 THEN Ask(op, <<k, x>>, IOOBE) ELSE Chg(k, F(r[k], {x}), op, <<x>>)
BitRange(op, F(_, _)) == \E k \in Pick(Regs), x \in Pick(BitIdx), y \in Pick({-1} \cup 0..(MaxIdx + 1)) :
  IF x < 0 \/ y < x THEN Ask(op, <<k, x, y>>, IOOBE) ELSE Chg(k, F(r[k], x..(y - 1)), op, <<x, y>>)
Union(A, B) == A \cup B
Minus(A, B) == A \ B
Inter(A, B) == A \cap B
Differ(A, B) == (A \ B) \cup (B \ A)
With(op, F(_, _)) == \E k \in Pick(Regs), i \in Pick(Regs) : Chg(k, F(r[k], r[i]), op, <<i>>)
BitOp(op) == CASE op = "set" -> BitAt("set", Union) [] op = "clear" -> BitAt("clear", Minus) [] op = "flip" -> BitAt("flip", Differ)
  [] op = "setRange" -> BitRange("setRange", Union) [] op = "clearRange" -> BitRange("clearRange", Minus) [] op = "flipRange" -> BitRange("flipRange", Differ)
  [] op = "and" -> With("and", Inter) [] op = "andNot" -> With("andNot", Minus) [] op = "or" -> With("or", Union) [] op = "xor" -> With("xor", Differ)
  [] op = "get" -> \E k \in Pick(Regs), x \in Pick(BitIdx) : Ask("get", <<k, x>>, IF x < 0 THEN IOOBE ELSE x \in r[k])
  [] op = "isEmptySet" -> \E k \in Pick(Regs) : Ask("isEmptySet", <<k>>, r[k] = {})
  [] op = "intersects" -> \E k \in Pick(Regs), i \in Pick(Regs) : Ask("intersects", <<k, i>>, r[k] \cap r[i] # {})
  [] op = "lengthSet" -> \E k \in Pick(Regs) : Ask("lengthSet", <<k>>, Greatest(r[k]) + 1)
  [] op = "nextSet" -> \E k \in Pick(Regs), x \in Pick(BitIdx) : Ask("nextSet", <<k, x>>, IF x < 0 THEN IOOBE ELSE Least({y \in r[k] : y >= x}))
  [] op = "nextClear" -> \E k \in Pick(Regs), x \in Pick(BitIdx) : Ask("nextClear", <<k, x>>, IF x < 0 THEN IOOBE ELSE Least((x..(MaxIdx + 1)) \ r[k]))
  [] op = "nextMember" -> \E k \in Pick(Regs) : \E x \in Pick(r[k]) : Ask("nextSet", <<k, x + 1>>, Least({y \in r[k] : y > x}))
  [] op = "cardinality" -> \E k \in Pick(Regs) : Ask("cardinality", <<k>>, Cardinality(r[k]))
  [] op = "newSet" -> \E k \in Pick(Regs), x \in Pick(0..(MaxIdx + 1)) : Chg(k, {}, "newSet", <<x>>)
  [] op = "allSets" -> Ask("allSets", <<>>, Join([k \in 1..Cardinality(Regs) |-> SList(r[k])]))
BitOps == <<"set", "set", "set", "set", "clear", "clear", "flip", "setRange", "clearRange", "flipRange", "and", "andNot", "or", "xor", "get", "get", "isEmptySet", "intersects", "intersects",
  "lengthSet", "nextSet", "nextSet", "nextClear", "nextClear", "nextMember", "cardinality", "newSet">>

Menu == [kd \in Kinds |-> CASE kd = "string" -> StringMut \o StringMut \o StringAsk [] kd = "builder" -> BuilderOps [] kd = "buffer" -> BufferOps [] kd = "bits" -> BitOps]
Do(op) == CASE kind = "string" -> StringOp(op) [] kind \in {"builder", "buffer"} -> BuilderOp(op) [] kind = "bits" -> BitOp(op)
Show == CASE kind = "string" -> DoAll [] kind = "bits" -> BitOp("allSets") [] OTHER -> BShow
Init == kind \in Kinds /\ r = [k \in Regs |-> IF kind = "bits" THEN {} ELSE <<>>] /\ b = <<>> /\ hist = <<>>
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ LET w == Menu[kind] IN
           IF Record THEN \E c \in 0..9 : IF c = 0 THEN Show ELSE \E i \in Pick(1..Len(w)) : Do(w[i])
           ELSE \E op \in Range1(w) : Do(op)
Emit == /\ Record /\ Len(hist) = MaxLen
        /\ PrintT(ToJson([kind |-> kind, hist |-> hist, fin |-> b, regs |-> Join([k \in 1..Cardinality(Regs) |-> IF kind = "bits" THEN SList(r[k]) ELSE r[k]])]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ UNCHANGED <<kind, r, b>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* properties of the specification itself *)
TypeOK == kind # "bits" => Len(b) <= MaxSize /\ \A k \in Regs : Len(r[k]) <= MaxSize
Laws == kind = "string" => \A i, j \in Regs :
  /\ Compare(r[i], r[j]) = 0 <=> r[i] = r[j]
  /\ Compare(r[i], r[j]) = 0 - Compare(r[j], r[i])
  /\ \A x \in 0..Len(r[i]) : Cut(r[i], 0, x) \o Cut(r[i], x, Len(r[i])) = r[i] /\ Trim(Trim(r[i])) = Trim(r[i])
  /\ LET f == IndexStr(r[i], r[j], 0) IN f >= 0 => MatchAt(r[i], r[j], f) /\ LastStr(r[i], r[j], Len(r[i])) >= f
  /\ r[j] # <<>> => Swap(r[i], r[j], r[j]) = r[i] /\ (IndexStr(r[i], r[j], 0) = -1 => Swap(r[i], r[j], <<>>) = r[i])
  /\ r[i] = r[j] => Hash(r[i]) = Hash(r[j])
BuilderLaws == kind \in {"builder", "buffer"} => \A x \in 0..NB, k \in Regs :
  Splice(Splice(b, x, x, r[k]), x, x + Len(r[k]), <<>>) = b
BitLaws == kind = "bits" => \A i, j \in Regs : Differ(r[i], Differ(r[i], r[j])) = r[j] /\ Minus(Union(r[i], r[j]), r[j]) = Minus(r[i], r[j])
\* only the register written changes
OneReg == [][\A k, l \in Regs : r'[k] # r[k] /\ r'[l] # r[l] => k = l]_vars
=============================================================================
