------------------------------- MODULE Streams -------------------------------
(* Byte and character streams. Whatever the wrappers, buffer sizes and chunks,
   a stack of input streams is a sequence and a position in it, a stack of
   output streams the units written since the last flush, a file a sequence of
   bytes with a position. *)
EXTENDS Common
CONSTANTS MaxSteps, MaxLen, Record, Pick(_), PickSeq(_, _)
VARIABLES mode, top, data, pos, un, pend, line, n, done, hist
vars == <<mode, top, data, pos, un, pend, line, n, done, hist>>

Bytes == IF Record THEN {0, 1, 10, 13, 65, 66, 97, 127, 128, 192, 200, 224, 240, 255} ELSE {10, 200}
Units == IF Record THEN {10, 10, 13, 65, 66, 127, 128, 233, 2047, 2048, 8364, 55357, 65535} ELSE {10, 65}
Layers == {0, -1, 1, 2, 3, 7, 64}
CharLayers == {1, 2, 3, 7, 64, -3, -12, -14, -74}
H(op, r) == hist' = IF Record THEN Append(hist, <<op, r>>) ELSE hist
Drop(s, k) == Sub(s, k + 1, Len(s))
Rest == Drop(data, pos)
EOF == "!EOFException"
RECURSIVE Enc(_)
Enc(s) == IF s = <<>> THEN <<>> ELSE LET c == Head(s) IN
  (IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
   ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>) \o Enc(Tail(s))
\* content of a drawn length
Draw(S) == IF Record THEN {TLCEval([i \in 1..k |-> RandomElement(S)]) : k \in {RandomElement(0..MaxLen)}} ELSE UNION {[1..k -> S] : k \in 0..MaxLen}
Some(S, m) == IF Record THEN {TLCEval([i \in 1..k |-> RandomElement(S)]) : k \in {RandomElement(0..m)}} ELSE {<<>>}
LastOr(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]
Small == IF Record THEN {1, 1, 2, 3, 4, 5, 7, 8, 9, 15} ELSE {1, 2}
\* ---- opening
New(m, t, d) == mode' = m /\ top' = t /\ data' = d /\ pos' = 0 /\ un' = <<>> /\ pend' = <<>> /\ line' = 0
OpenIn == \E d \in Draw(Bytes), src \in Pick(IF Record THEN {"chunk", "chunk", "array", "file", "inflate"} ELSE {"array"}), ls \in Some(Layers, 3), ch \in Some(1..6, 4), av \in Pick({0, 1}) :
  New("in", IF ls = <<>> THEN 0 ELSE LastOr(ls, 0), d) /\ H(<<"in", src, ls, <<1>> \o ch, av, d>>, "ok")
\* a character outside the basic plane is a pair
Paired(s) == FlattenSeq([i \in 1..Len(s) |-> IF s[i] = 55357 THEN <<55357, 56832>> ELSE <<s[i]>>])
OpenChars == \E d1 \in Draw(Units), src \in Pick(IF Record THEN {"string", "chunk", "chunk", "file", "inflate"} ELSE {"string"}), ls \in Some(Layers, 2), cs \in Some(CharLayers, 2), ch \in Some(1..6, 4), av \in Pick({0, 1}) :
  LET d0 == Paired(d1)
      d == IF LastOr(cs, 0) > -10 THEN d0 ELSE SelectSeq(d0, LAMBDA x : x # 13) \o <<10>> IN
  New("chars", LastOr(cs, 0), d) /\ H(<<"chars", src, ls, cs, <<2>> \o ch, av, d>>, "ok")
OpenOut == \E ls \in Some({0, -1, -2, 1, 2, 3, 7, 64}, 3), sink \in Pick({"array", "sink", "file"}) :
  New("out", IF ls = <<>> THEN (IF sink = "array" THEN -5 ELSE -6) ELSE LastOr(ls, 0), <<>>) /\ H(<<"out", sink, ls>>, "ok")
OpenText == \E ls \in Some({0, -1, 1, 3, 7, 64}, 2), cs \in Some({1, 2, 3, 7, 64, -2}, 2), sink \in Pick({"string", "array", "file"}) :
  New(IF sink = "string" THEN "string" ELSE "text", LastOr(cs, 0), <<>>) /\ H(<<"text", sink, ls, cs>>, "ok")
OpenFile == \E d \in Draw(Bytes), w \in Pick({"r", "rw", "rw"}) : New("file", IF w = "r" THEN 0 ELSE 1, d) /\ H(<<"raf", w, d>>, "ok")

\* ---- input: the next units, as many as there are
Frame == UNCHANGED <<mode, top, data>>
Next1(k) == Sub(un \o Rest, 1, Min2(k, Len(un) + Len(Rest)))
Take(k) == LET a == Min2(k, Len(un) + Len(Rest)) IN un' = (IF a >= Len(un) THEN <<>> ELSE un) /\ pos' = pos + Max2(0, a - Len(un))
Lines(s) == Len(SelectSeq(s, LAMBDA x : x = 10))
Left == Len(un) + Len(Rest)
InRead == Take(1) /\ line' = line + Lines(Next1(1)) /\ H(<<"read">>, IF Left = 0 THEN -1 ELSE Next1(1)[1])
InReadN == \E k \in Pick(Small), o \in Pick(IF Record THEN {0, 1, 3} ELSE {0}) : Take(k) /\ line' = line + Lines(Next1(k)) /\ H(<<"readn", k, o>>, Next1(k))
InZero == UNCHANGED <<pos, un, line>> /\ H(<<"zero">>, IF mode = "in" THEN "0" ELSE "ok")
InAvail == UNCHANGED <<pos, un, line>> /\ H(<<"avail", Left>>, "ok")
InSkip == \E k \in Pick(Small \cup {0, -1}) : Take(Max2(k, 0)) /\ UNCHANGED line /\ H(<<"skip", k>>, Len(Next1(Max2(k, 0))))
\* a value of k bytes
Value(op, k, R(_)) == Take(k) /\ UNCHANGED line /\ H(<<op>>, IF Left < k THEN EOF ELSE R(Next1(k)))
S16(b) == LET v == b[1] * 256 + b[2] IN IF v >= 32768 THEN v - 65536 ELSE v
S8(b) == IF b[1] >= 128 THEN b[1] - 256 ELSE b[1]
NaN32(b) == b[1] \in {127, 255} /\ b[2] >= 128 /\ (b[2] > 128 \/ b[3] > 0 \/ b[4] > 0)
NaN64(b) == b[1] \in {127, 255} /\ b[2] >= 240 /\ (b[2] > 240 \/ \E i \in 3..8 : b[i] > 0)
Id(b) == b
InData == \E op \in Pick({"fully", "byte", "ubyte", "short", "ushort", "char", "bool", "int", "long", "float", "double"}) :
  CASE op = "fully" -> \E k \in Pick(Small) : Take(k) /\ UNCHANGED line /\ H(<<"fully", k>>, IF Left < k THEN EOF ELSE Next1(k))
    [] op = "byte" -> Value("byte", 1, LAMBDA b : S8(b))
    [] op = "ubyte" -> Value("ubyte", 1, LAMBDA b : b[1])
    [] op = "short" -> Value("short", 2, LAMBDA b : S16(b))
    [] op = "ushort" -> Value("ushort", 2, LAMBDA b : b[1] * 256 + b[2])
    [] op = "char" -> Value("char", 2, LAMBDA b : b[1] * 256 + b[2])
    [] op = "bool" -> Value("bool", 1, LAMBDA b : IF b[1] # 0 THEN "true" ELSE "false")
    [] op = "int" -> Value("int", 4, Id)
    [] op = "long" -> Value("long", 8, Id)
    [] op = "float" -> Value("float", 4, LAMBDA b : IF NaN32(b) THEN <<-1>> ELSE b)
    [] OTHER -> Value("double", 8, LAMBDA b : IF NaN64(b) THEN <<-1>> ELSE b)
\* one line; its terminator is taken and not delivered
InLine == LET s == un \o Rest
              E == {i \in 1..Len(s) : s[i] \in {10, 13}}
              e == IF E = {} THEN Len(s) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
              k == IF e > Len(s) THEN Len(s) ELSE IF s[e] = 13 /\ e < Len(s) /\ s[e + 1] = 10 THEN e + 1 ELSE e IN
  Take(k) /\ line' = line + (IF E = {} THEN 0 ELSE 1) /\ H(<<"line">>, IF s = <<>> THEN "null" ELSE Sub(s, 1, e - 1))
InUnread == \E c \in Pick(Units \ {55357}) : UNCHANGED <<pos, line>> /\ un' = (IF un = <<>> THEN <<c>> ELSE un) /\ H(<<"unread", c>>, IF un = <<>> THEN "ok" ELSE "!IOException")
InNumber == UNCHANGED <<pos, un, line>> /\ H(<<"number">>, line)
InSetNumber == \E k \in Pick({0, 5}) : UNCHANGED <<pos, un>> /\ line' = k /\ H(<<"setnumber", k>>, "ok")
DoIn == /\ mode \in {"in", "chars"} /\ Frame /\ UNCHANGED pend
        /\ \E op \in Pick({"read", "readn", "readn2", "zero"} \cup (IF mode = "in" THEN {"avail", "skip"} ELSE {})
              \cup (IF mode = "in" /\ top = -1 THEN {"data", "data2", "data3"} ELSE {})
              \cup (IF mode = "in" /\ top = -1 /\ 13 \notin Range1(data) THEN {"line"} ELSE {})
              \cup (IF mode = "chars" /\ (top > 0 \/ top < -9) THEN {"line", "line2"} ELSE {})
              \cup (IF mode = "chars" /\ top = -3 THEN {"unread"} ELSE {})
              \cup (IF mode = "chars" /\ top < -9 THEN {"number", "number2", "setnumber"} ELSE {})) :
           CASE op = "read" -> InRead [] op \in {"readn", "readn2"} -> InReadN [] op = "zero" -> InZero [] op = "avail" -> InAvail [] op = "skip" -> InSkip
             [] op \in {"line", "line2"} -> InLine [] op = "unread" -> InUnread [] op \in {"number", "number2"} -> InNumber [] op = "setnumber" -> InSetNumber
             [] OTHER -> InData

\* ---- output
OutFrame == UNCHANGED <<mode, top, pos, un, line>>
Put(s) == pend' = pend \o s /\ UNCHANGED data
Char8(s) == [i \in 1..Len(s) |-> s[i] % 256]
Txt == IF Record THEN {10, 65, 66, 127, 128, 233, 2047, 2048, 8364, 65535} ELSE {65}
Piece(S) == IF Record THEN {TLCEval([i \in 1..k |-> RandomElement(S)]) : k \in {RandomElement({0, 1, 2, 3, 5, 8, 9, 40})}} ELSE {<<1>>, <<1, 2>>}
RECURSIVE Pairs(_)
Pairs(s) == IF s = <<>> THEN <<>> ELSE <<Head(s) \div 256, Head(s) % 256>> \o Pairs(Tail(s))
OutWrite == \E c \in Pick(Bytes) : Put(<<c>>) /\ H(<<"write", c>>, "ok")
OutArr == \E s \in Piece(Bytes), o \in Pick(IF Record THEN {0, 0, 2} ELSE {0}) : Put(s) /\ H(<<"writea", s, o>>, "ok")
OutFlush == pend' = <<>> /\ data' = data \o pend /\ H(<<"flush">>, pend)
OutCheck == Put(<<>>) /\ H(<<"prefix", pend>>, "ok")
OutData == \E op \in Pick({"byte", "short", "char", "bool", "int", "long", "float", "double", "chars", "bytes", "utf"}), b \in PickSeq(Bytes, 8), s \in Piece(Txt) :
  CASE op = "byte" -> Put(Sub(b, 1, 1)) /\ H(<<"w" \o op, Sub(b, 1, 1)>>, "ok")
    [] op \in {"short", "char"} -> Put(Sub(b, 1, 2)) /\ H(<<"w" \o op, Sub(b, 1, 2)>>, "ok")
    [] op = "bool" -> Put(<<IF b[1] > 99 THEN 1 ELSE 0>>) /\ H(<<"wbool", IF b[1] > 99 THEN <<1>> ELSE <<0>>>>, "ok")
    [] op = "int" -> Put(Sub(b, 1, 4)) /\ H(<<"w" \o op, Sub(b, 1, 4)>>, "ok")
    [] op = "float" -> (IF NaN32(b) THEN Put(<<>>) /\ H(<<"prefix", pend>>, "ok") ELSE Put(Sub(b, 1, 4)) /\ H(<<"w" \o op, Sub(b, 1, 4)>>, "ok"))
    [] op = "long" -> Put(b) /\ H(<<"w" \o op, b>>, "ok")
    [] op = "double" -> (IF NaN64(b) THEN Put(<<>>) /\ H(<<"prefix", pend>>, "ok") ELSE Put(b) /\ H(<<"w" \o op, b>>, "ok"))
    [] op = "chars" -> Put(Pairs(s)) /\ H(<<"wchars", s>>, "ok")
    [] op = "bytes" -> Put(Char8(s)) /\ H(<<"wbytes", s>>, "ok")
    [] OTHER -> Put(<<Len(Enc(s)) \div 256, Len(Enc(s)) % 256>> \o Enc(s)) /\ H(<<"wutf", s>>, "ok")
OutPrint == \E s \in Piece(Txt), op \in Pick({"print", "println", "printc"}) :
  IF op = "printc" THEN \E c \in Pick(Txt) : Put(Enc(<<c>>)) /\ H(<<op, <<c>>>>, "ok") ELSE Put(Enc(s) \o (IF op = "println" THEN <<10>> ELSE <<>>)) /\ H(<<op, s>>, "ok")
OutArray == \E op \in Pick({"size", "bytes", "to", "reset"}) :
  CASE op = "size" -> Put(<<>>) /\ H(<<"size">>, Len(data) + Len(pend))
    [] op = "reset" -> data' = <<>> /\ pend' = <<>> /\ H(<<"reset">>, "ok")
    [] OTHER -> Put(<<>>) /\ H(<<op>>, data \o pend)
DoOut == /\ mode = "out" /\ OutFrame
         /\ \E op \in Pick({"write", "write2", "arr", "arr2", "flush", "check"} \cup (IF top = -1 THEN {"data", "data2", "data3"} ELSE {}) \cup (IF top = -2 THEN {"print", "print2"} ELSE {})
               \cup (IF top = -5 THEN {"array", "array2"} ELSE {})) :
            CASE op \in {"write", "write2"} -> OutWrite [] op \in {"arr", "arr2"} -> OutArr [] op = "flush" -> OutFlush [] op = "check" -> OutCheck
              [] op \in {"data", "data2", "data3"} -> OutData [] op \in {"array", "array2"} -> OutArray [] OTHER -> OutPrint
\* characters: bytes at the far end unless it is a string
Ch(s) == IF mode = "string" THEN s ELSE Enc(s)
TextWrite == \E c \in Pick(Txt), op \in Pick({"tc", "ta"}) : Put(Ch(<<c>>)) /\ H(<<op, c>>, "ok")
TextArr == \E s \in Piece(Txt), o \in Pick(IF Record THEN {0, 0, 2} ELSE {0}), op \in Pick({"tarr", "tstr", "tapp", "tseq"}) : Put(Ch(s)) /\ H(<<op, s, o>>, "ok")
TextPrint == \E s \in Piece(Txt), op \in Pick({"tprint", "tprintln"}) : Put(Ch(s \o (IF op = "tprintln" THEN <<10>> ELSE <<>>))) /\ H(<<op, s>>, "ok")
DoText == /\ mode \in {"text", "string"} /\ OutFrame
          /\ \E op \in Pick({"write", "arr", "arr2", "flush", "check"} \cup (IF top = -2 THEN {"print", "print2"} ELSE {})) :
             CASE op = "write" -> TextWrite [] op \in {"arr", "arr2"} -> TextArr [] op = "flush" -> OutFlush [] op = "check" -> OutCheck [] OTHER -> TextPrint

\* ---- files
RafFrame == UNCHANGED <<mode, top, un, pend, line>>
Zeros(k) == [i \in 1..k |-> 0]
PutAt(p, s) == IF s = <<>> THEN data ELSE LET d == IF p > Len(data) THEN data \o Zeros(p - Len(data)) ELSE data IN Sub(d, 1, p) \o s \o Drop(d, p + Len(s))
FTake(k) == pos' = pos + k /\ UNCHANGED data
FLeft == Max2(0, Len(data) - pos)
FNum == \E op \in Pick({"fbyte", "fubyte", "fshort", "fushort", "fint", "flong", "ffully"}) :
  LET k == IF op \in {"fbyte", "fubyte"} THEN 1 ELSE IF op \in {"fshort", "fushort"} THEN 2 ELSE IF op \in {"fint", "ffully"} THEN 4 ELSE 8
      b == Sub(data, pos + 1, pos + k) IN
  IF FLeft < k THEN FTake(0) /\ H(<<"fpos">>, pos)
  ELSE FTake(k) /\ H(<<op>>, CASE op = "fbyte" -> S8(b) [] op = "fubyte" -> b[1] [] op = "fshort" -> S16(b) [] op = "fushort" -> b[1] * 256 + b[2] [] OTHER -> b)
FRead == FTake(Min2(1, FLeft)) /\ H(<<"fread">>, IF FLeft = 0 THEN -1 ELSE data[pos + 1])
FReadN == \E k \in Pick(Small), o \in Pick({0, 2}), op \in Pick({"freadn", "fchread"}) : FTake(Min2(k, FLeft)) /\ H(<<op, k, o>>, Sub(data, pos + 1, pos + Min2(k, FLeft)))
FChReadAt == \E k \in Pick(Small), p \in Pick(0..(Len(data) + 1)) : FTake(0) /\ H(<<"fchreadat", k, p>>, Sub(data, p + 1, Min2(p + k, Len(data))))
FWrite == \E b \in Pick(Bytes) : data' = PutAt(pos, <<b>>) /\ pos' = pos + 1 /\ H(<<"fwrite", b>>, "ok")
FChWrite == \E s \in Piece(Bytes) : LET q == Sub(s, 1, Min2(Len(s), 9)) IN data' = PutAt(pos, q) /\ pos' = pos + Len(q) /\ H(<<"fchwrite", q>>, "ok")
FChWriteAt == \E s \in Piece(Bytes), p \in Pick(0..(Len(data) + 1)) : LET q == Sub(s, 1, Min2(Len(s), 9)) IN data' = PutAt(p, q) /\ UNCHANGED pos /\ H(<<"fchwriteat", q, p>>, "ok")
FSeek == \E p \in Pick(0..(Len(data) + (IF top = 1 THEN 3 ELSE 0))) : pos' = p /\ UNCHANGED data /\ H(<<"fseek", p>>, "ok")
FSkip == \E k \in Pick(Small) : FTake(Min2(k, FLeft)) /\ H(<<"fskip", k>>, Min2(k, FLeft))
FPos == FTake(0) /\ H(<<"fpos">>, pos)
FLen == FTake(0) /\ H(<<"flen">>, Len(data))
FAll == FTake(0) /\ H(<<"fall">>, data)
DoFile == /\ mode = "file" /\ RafFrame
          /\ \E op \in Pick({"num", "num2", "read", "readn", "readn2", "at", "seek", "seek2", "skip", "pos", "len", "all"} \cup (IF top = 1 /\ Len(data) < 60 THEN {"write", "chw", "chwa"} ELSE {})) :
             CASE op \in {"num", "num2"} -> FNum [] op = "read" -> FRead [] op \in {"readn", "readn2"} -> FReadN [] op = "at" -> FChReadAt [] op \in {"seek", "seek2"} -> FSeek
               [] op = "skip" -> FSkip [] op = "pos" -> FPos [] op = "len" -> FLen [] op = "all" -> FAll [] op = "write" -> FWrite [] op = "chw" -> FChWrite [] OTHER -> FChWriteAt

Init == mode = "none" /\ top = 0 /\ data = <<>> /\ pos = 0 /\ un = <<>> /\ pend = <<>> /\ line = 0 /\ n = 0 /\ done = FALSE /\ hist = <<>>
DoOpen == \E i \in Pick(1..6) : CASE i = 1 -> OpenIn [] i \in {2, 6} -> OpenChars [] i = 3 -> OpenOut [] i = 4 -> OpenText [] OTHER -> OpenFile
Work == CASE mode \in {"in", "chars"} -> DoIn [] mode = "out" -> DoOut [] mode \in {"text", "string"} -> DoText [] OTHER -> DoFile
Step == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED done
        /\ IF mode = "none" THEN DoOpen ELSE \E c \in Pick(1..(IF mode \in {"in", "chars"} /\ Left = 0 THEN 3 ELSE 16)) : IF c = 1 THEN DoOpen ELSE Work
Emit == /\ Record /\ n = MaxSteps /\ ~done
        /\ PrintT(ToJson([hist |-> hist]))
        /\ done' = TRUE /\ UNCHANGED <<mode, top, data, pos, un, pend, line, n, hist>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* properties of the specification itself *)
BoundsOK == pos >= 0 /\ (mode \in {"in", "chars"} => pos <= Len(data)) /\ Len(un) <= 1
\* a stream only moves forward, and never changes what is still to come
ForwardOK == [][(mode \in {"in", "chars"} /\ mode' = mode /\ data' = data) => (pos' >= pos \/ pos' = 0)]_vars
\* what was written stays written, in order
OutOK == [][(mode \in {"out", "text", "string"} /\ mode' = mode) => (data' = <<>> \/ Len(data' \o pend') >= Len(data \o pend))]_vars
\* text decodes to itself: different texts have different encodings
CodeOK == \A a, b \in UNION {[1..k -> {65, 127, 128, 2047, 2048, 65535}] : k \in 0..2} : Enc(a) = Enc(b) => a = b
=============================================================================
