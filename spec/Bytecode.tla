------------------------------ MODULE Bytecode ------------------------------
(* A method body, written one instruction at a time and executed as it is
   written: state of the Java virtual machine for instructions on int, long,
   float, double and reference values, locals, fields, arrays, branches,
   switches, loops and calls.  The behaviour is the method and what it prints. *)
EXTENDS Common, Words
CONSTANTS MaxCode, MaxRun, MaxStack, Record, Pick(_)

VARIABLES code,    \* sequence of <<op, args...>>
          pc,
          stk,     \* sequence of <<type, value>>; types I J F D R
          loc,     \* variable -> value
          fld,     \* <<object (0 for static), field>> -> value
          arr,     \* element type -> sequence of values (one array of each type)
          lab,     \* label -> [at: pc or 0 if not placed, ts: types of the stack there]
          pend,    \* labels jumped to that are not placed
          todo,    \* instructions to be written next
          out,     \* what was printed
          fuel, fuel0, n, fin
vars == <<code, pc, stk, loc, fld, arr, lab, pend, todo, out, fuel, fuel0, n, fin>>

Types == {"I", "J", "F", "D", "R"}
\* variables and their types; references 1..2 are objects
VarsOf(t) == CASE t = "I" -> {"i0", "i1", "i2"} [] t = "J" -> {"j0", "j1"} [] t = "F" -> {"f0", "f1"} [] t = "D" -> {"d0", "d1"} [] t = "R" -> {"r0", "r1"}
Vars == UNION {VarsOf(t) : t \in Types}
TypeOfVar(v) == CHOOSE t \in Types : v \in VarsOf(t)
FieldNames == {"z", "b", "c", "s", "i", "j", "f", "d"}
FType(f) == CASE f = "j" -> "J" [] f = "f" -> "F" [] f = "d" -> "D" [] OTHER -> "I"
Narrow(f, v) == CASE f = "z" -> FromInt(v[1] % 2, 4) [] f = "b" -> SExt(TruncW(v, 1), 4) [] f = "c" -> ZExt(TruncW(v, 2), 4)
  [] f = "s" -> SExt(TruncW(v, 2), 4) [] OTHER -> v
ArrLen == 3
Prec(t) == IF t = "F" THEN 24 ELSE 53
W4(x) == FromInt(x, 4)
Zero(t) == CASE t = "I" -> ZeroW(4) [] t = "J" -> ZeroW(8) [] t = "R" -> 0 [] OTHER -> <<"zero", 1>>
MinInt == -2147483647 - 1
Consts(t) ==
  CASE t = "I" -> {W4(x) : x \in {0, 1, -1, 2, 3, 5, -3, 7, 10, 31, 32, 33, 63, 64, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
                        1000003, -77777, 2147483647, MinInt, MinInt + 1, 1431655765}}
    [] t = "J" -> {FromInt(x, 8) : x \in {0, 1, -1, 2, 3, 31, 32, 63, 64, -5, 255, 65536, 1000003, 2147483647, MinInt}} \cup
                  {MinW(8), MaxW(8), ShlW(FromInt(1, 8), 32), ShlW(FromInt(-1, 8), 31), ShlW(FromInt(1, 8), 31), <<5, 6, 7, 8, 9, 10, 11, 12>>, <<0, 0, 0, 0, 1, 0, 0, 128>>, <<255, 255, 255, 255, 0, 0, 0, 0>>}
    [] t = "R" -> {0}
    [] OTHER -> {Nan, <<"inf", 1>>, <<"inf", -1>>, <<"zero", 1>>, <<"zero", -1>>, <<"num", 1, 0>>, <<"num", -1, 0>>, <<"num", 1, 1>>, <<"num", 3, -1>>, <<"num", 5, -2>>,
                 <<"num", -7, 0>>, <<"num", 15, 3>>, <<"num", 16777215, 0>>, <<"num", 1, 31>>, <<"num", -1, 31>>, <<"num", 1, 63>>, <<"num", -1, 63>>, <<"num", 3, 40>>, <<"num", -5, 62>>, <<"num", 1, -20>>}
Width(t) == IF t \in {"J", "D"} THEN 2 ELSE 1

Cur == [pc |-> pc, stk |-> stk, loc |-> loc, fld |-> fld, arr |-> arr, out |-> out, fuel |-> fuel, jump |-> 0, exc |-> "", bad |-> FALSE]
Top(s, k) == s.stk[Len(s.stk) - k + 1]       \* k = 1 is the top
TopV(s, k) == Top(s, k)[2]
Pops(s, k) == SubSeq(s.stk, 1, Len(s.stk) - k)
IsBad(v) == v = Bad
PushV(s, k, t, v) == [s EXCEPT !.stk = Append(Pops(s, k), <<t, v>>), !.bad = @ \/ (t \in {"F", "D"} /\ IsBad(v))]
Raise(s, e) == [s EXCEPT !.exc = e]
Jump(s, k, l) == [s EXCEPT !.stk = Pops(s, k), !.jump = l]
Drop(s, k) == [s EXCEPT !.stk = Pops(s, k)]

IntBin(op, a, b) == CASE op = "add" -> AddW(a, b) [] op = "sub" -> SubW(a, b) [] op = "mul" -> MulW(a, b) [] op = "and" -> AndW(a, b)
  [] op = "or" -> OrW(a, b) [] op = "xor" -> XorW(a, b) [] op = "div" -> DivW(a, b) [] op = "rem" -> RemW(a, b)
FloBin(op, a, b, p) == CASE op = "add" -> FAdd(a, b, p) [] op = "sub" -> FSub(a, b, p) [] op = "mul" -> FMul(a, b, p) [] op = "div" -> FDiv(a, b, p) [] op = "rem" -> FRem(a, b, p)
Convert(from, to, v) ==
  CASE to \in {"b", "c", "s"} -> Narrow(to, v)
    [] from \in {"I", "J"} /\ to \in {"I", "J"} -> IF to = "I" THEN TruncW(v, 4) ELSE SExt(v, 8)
    [] from \in {"I", "J"} -> WToF(v, Prec(to))
    [] to \in {"I", "J"} -> FToW(v, IF to = "I" THEN 4 ELSE 8)
    [] OTHER -> FRound(v, Prec(to))
Test(c, x) == CASE c = "eq" -> x = 0 [] c = "ne" -> x # 0 [] c = "lt" -> x < 0 [] c = "ge" -> x >= 0 [] c = "gt" -> x > 0 [] c = "le" -> x <= 0
CmpW(a, b) == IF SLess(a, b) THEN -1 ELSE IF SLess(b, a) THEN 1 ELSE 0
\* the number of entries at the top that take exactly w words from depth d on, 0 if there is none
Entries(s, d, w) == LET t(k) == Width(Top(s, d + k)[1]) IN
  IF w = 0 THEN 0
  ELSE IF Len(s.stk) >= d + 1 /\ t(1) = w THEN 1
  ELSE IF Len(s.stk) >= d + 2 /\ w = 2 /\ t(1) = 1 /\ t(2) = 1 THEN 2 ELSE -1
DupW(op) == CASE op = "dup" -> <<1, 0>> [] op = "dup_x1" -> <<1, 1>> [] op = "dup_x2" -> <<1, 2>> [] op = "dup2" -> <<2, 0>> [] op = "dup2_x1" -> <<2, 1>> [] op = "dup2_x2" -> <<2, 2>>
DupOk(s, op) == LET a == Entries(s, 0, DupW(op)[1]) IN a > 0 /\ Entries(s, a, DupW(op)[2]) >= 0
Dup(s, op) == LET a == Entries(s, 0, DupW(op)[1])
                  b == Entries(s, a, DupW(op)[2])
                  l == Len(s.stk)
                  top == SubSeq(s.stk, l - a + 1, l) IN
  [s EXCEPT !.stk = SubSeq(s.stk, 1, l - a - b) \o top \o SubSeq(s.stk, l - a - b + 1, l - a) \o top]

Exec(s, i) ==
  CASE i[1] = "const" -> PushV(s, 0, i[2], i[3])
    [] i[1] = "load" -> PushV(s, 0, TypeOfVar(i[2]), s.loc[i[2]])
    [] i[1] = "store" -> Drop([s EXCEPT !.loc[i[2]] = TopV(s, 1)], 1)
    [] i[1] = "iinc" -> [s EXCEPT !.loc[i[2]] = AddW(@, W4(i[3]))]
    [] i[1] \in {"dup", "dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2"} -> Dup(s, i[1])
    [] i[1] = "swap" -> [s EXCEPT !.stk = Pops(s, 2) \o <<Top(s, 1), Top(s, 2)>>]
    [] i[1] = "pop" -> Drop(s, 1)
    [] i[1] = "pop2" -> Drop(s, i[2])
    [] i[1] = "bin" -> LET t == Top(s, 1)[1]  a == TopV(s, 2)  b == TopV(s, 1) IN
         IF t \in {"I", "J"} THEN (IF i[2] \in {"div", "rem"} /\ IsZero(b) THEN Raise(s, "ArithmeticException") ELSE PushV(s, 2, t, IntBin(i[2], a, b)))
         ELSE PushV(s, 2, t, FloBin(i[2], a, b, Prec(t)))
    [] i[1] = "shift" -> LET t == Top(s, 2)[1]  a == TopV(s, 2)  k == TopV(s, 1)[1] % (IF t = "I" THEN 32 ELSE 64) IN
         PushV(s, 2, t, CASE i[2] = "shl" -> ShlW(a, k) [] i[2] = "shr" -> ShrW(a, k) [] i[2] = "ushr" -> UshrW(a, k))
    [] i[1] = "abs" -> LET t == Top(s, 1)[1] IN PushV(s, 1, t, IF t \in {"I", "J"} THEN AbsW(TopV(s, 1)) ELSE FAbs(TopV(s, 1)))
    [] i[1] = "neg" -> LET t == Top(s, 1)[1] IN PushV(s, 1, t, IF t \in {"I", "J"} THEN NegW(TopV(s, 1)) ELSE FNeg(TopV(s, 1)))
    [] i[1] = "conv" -> PushV(s, 1, IF i[3] \in {"b", "c", "s"} THEN "I" ELSE i[3], Convert(i[2], i[3], TopV(s, 1)))
    [] i[1] = "lcmp" -> PushV(s, 2, "I", W4(CmpW(TopV(s, 2), TopV(s, 1))))
    [] i[1] = "fcmp" -> PushV(s, 2, "I", W4(FCmp(TopV(s, 2), TopV(s, 1), i[3])))
    [] i[1] = "if" -> IF Test(i[2], ToInt(TopV(s, 1))) THEN Jump(s, 1, i[3]) ELSE Drop(s, 1)
    [] i[1] = "ificmp" -> IF Test(i[2], CmpW(TopV(s, 2), TopV(s, 1))) THEN Jump(s, 2, i[3]) ELSE Drop(s, 2)
    [] i[1] = "ifnull" -> IF (TopV(s, 1) = 0) = (i[2] = "eq") THEN Jump(s, 1, i[3]) ELSE Drop(s, 1)
    [] i[1] = "ifacmp" -> IF (TopV(s, 1) = TopV(s, 2)) = (i[2] = "eq") THEN Jump(s, 2, i[3]) ELSE Drop(s, 2)
    [] i[1] = "goto" -> Jump(s, 0, i[2])
    \* i[2]: keys, i[3]: their labels, i[4]: default
    [] i[1] \in {"tableswitch", "lookupswitch"} -> LET v == TopV(s, 1) IN
         Jump(s, 1, IF \E k \in 1..Len(i[2]) : i[2][k] = v THEN i[3][CHOOSE k \in 1..Len(i[2]) : i[2][k] = v] ELSE i[4])
    \* goes back as long as there is fuel
    [] i[1] = "loop" -> IF s.fuel > 1 THEN Jump([s EXCEPT !.fuel = @ - 1], 0, i[2]) ELSE [s EXCEPT !.fuel = @ - 1]
    [] i[1] = "getstatic" -> PushV(s, 0, FType(i[2]), s.fld[<<0, i[2]>>])
    [] i[1] = "putstatic" -> Drop([s EXCEPT !.fld[<<0, i[2]>>] = Narrow(i[2], TopV(s, 1))], 1)
    [] i[1] = "getfield" -> IF TopV(s, 1) = 0 THEN Raise(s, "NullPointerException") ELSE PushV(s, 1, FType(i[2]), s.fld[<<TopV(s, 1), i[2]>>])
    [] i[1] = "putfield" -> IF TopV(s, 2) = 0 THEN Raise(s, "NullPointerException") ELSE Drop([s EXCEPT !.fld[<<TopV(s, 2), i[2]>>] = Narrow(i[2], TopV(s, 1))], 2)
    \* element of the array of type i[2] at the index on the top
    [] i[1] = "arrref" -> PushV(s, 0, "A", 0)
    [] i[1] = "aload" -> LET k == ToInt(TopV(s, 1)) IN
         IF k < 0 \/ k >= ArrLen THEN Raise(s, "ArrayIndexOutOfBoundsException") ELSE PushV(s, 2, FType(i[2]), s.arr[i[2]][k + 1])
    [] i[1] = "astore" -> LET k == ToInt(TopV(s, 2)) IN
         IF k < 0 \/ k >= ArrLen THEN Raise(s, "ArrayIndexOutOfBoundsException") ELSE Drop([s EXCEPT !.arr[i[2]][k + 1] = Narrow(i[2], TopV(s, 1))], 3)
    [] i[1] = "newarray" -> IF IsNeg(TopV(s, 1)) THEN Raise(s, "NegativeArraySizeException") ELSE PushV(s, 1, "I", TopV(s, 1))
    \* prints its i[2] arguments, returns the i[3]th
    [] i[1] = "call" -> LET l == Len(s.stk)  as == SubSeq(s.stk, l - Len(i[2]) + 1, l) IN
         [PushV(s, Len(i[2]), as[i[3]][1], as[i[3]][2]) EXCEPT !.out = @ \o as]
    [] i[1] = "print" -> [s EXCEPT !.out = Append(@, Top(s, 1))]
    [] i[1] = "label" -> s
    [] i[1] = "end" -> [s EXCEPT !.out = @ \o i[2]]

------------------------------------------------------------------------------
TypesOf(st) == [k \in 1..Len(st) |-> st[k][1]]
Lost(i) == LET r == Exec(Cur, i) IN r.bad \/ Len(r.stk) > MaxStack \/ Len(r.out) > 200
GiveUp == /\ fin' = TRUE /\ code' = <<<<"done">>>> /\ UNCHANGED <<pc, stk, loc, fld, arr, lab, pend, todo, out, fuel, fuel0, n>>
RunTo(s, i, newLab, newPend, newTodo, newCode) ==
  \E r \in {Exec(s, i)} : ~r.bad /\
  LET done == r.exc # "" \/ i[1] = "end"
      at == IF r.jump # 0 THEN newLab[r.jump].at ELSE s.pc + 1 IN
  /\ Len(r.stk) <= MaxStack /\ Len(r.out) <= 200
  /\ stk' = r.stk /\ loc' = r.loc /\ fld' = r.fld /\ arr' = r.arr /\ fuel' = r.fuel /\ n' = n + 1 /\ UNCHANGED fuel0
  /\ out' = IF r.exc # "" THEN Append(r.out, <<"X", r.exc>>) ELSE r.out
  /\ fin' = done
  /\ code' = newCode
  \* a jump to a label that has no place yet: it gets one right after some instruction that is skipped
  /\ IF ~done /\ r.jump # 0 /\ at = 0 THEN
       LET k == Len(newCode) + 2 IN
       /\ pc' = k /\ lab' = [newLab EXCEPT ![r.jump].at = k] /\ pend' = newPend \ {r.jump}
       /\ todo' = <<<<"skip">>, <<"label", r.jump>>>> \o newTodo
     ELSE pc' = at /\ lab' = newLab /\ pend' = newPend /\ todo' = newTodo

NewLab(ts) == Append(lab, [at |-> 0, ts |-> ts])
Write(i) == RunTo(Cur, i, lab, pend, todo, Append(code, i))
\* labels that may be jumped to from here with stack types ts: a new one or a pending one
Branch(i, k, c) == LET ts == TypesOf(Sub(stk, 1, Len(stk) - k)) IN
  \E l \in Pick({Len(lab) + 1} \cup {x \in pend : lab[x].ts = ts}) :
    LET ins == Append(i, l) IN
    RunTo(Cur, ins, IF l > Len(lab) THEN NewLab(ts) ELSE lab, pend \cup {l}, todo, Append(code, ins))
Is(ts) == LET l == Len(stk) IN l >= Len(ts) /\ \A k \in 1..Len(ts) : stk[l - Len(ts) + k][1] = ts[k]
Conds == {"eq", "ne", "lt", "ge", "gt", "le"}
GenConst == \E t \in Pick(Types \ {"R"}) : \E v \in Pick(Consts(t)) : Write(<<"const", t, v>>)
GenNull == Write(<<"const", "R", 0>>)
GenLoad == \E v \in Pick(Vars) : Write(<<"load", v>>)
GenStore == stk # <<>> /\ \E v \in Pick(VarsOf(stk[Len(stk)][1])) : Write(<<"store", v>>)
GenIinc == \E v \in Pick(VarsOf("I")), k \in Pick({1, -1, 127, -128, 128, 300, -3000, 32767, -32768}) : Write(<<"iinc", v, k>>)
GenStack == \E op \in Pick({"dup", "dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2", "swap", "pop", "pop2"}) :
  CASE op = "swap" -> Len(stk) >= 2 /\ Width(stk[Len(stk)][1]) = 1 /\ Width(stk[Len(stk) - 1][1]) = 1 /\ Write(<<"swap">>)
    [] op = "pop" -> Len(stk) >= 1 /\ Width(stk[Len(stk)][1]) = 1 /\ Write(<<"pop">>)
    [] op = "pop2" -> LET e == Entries(Cur, 0, 2) IN e > 0 /\ Write(<<"pop2", e>>)
    [] OTHER -> DupOk(Cur, op) /\ Write(<<op>>)
GenBin == /\ Len(stk) >= 2
          /\ LET t == stk[Len(stk)][1] IN
             /\ Is(<<t, t>>) /\ t # "R"
             /\ \E op \in Pick(IF t \in {"I", "J"} THEN {"add", "sub", "mul", "div", "rem", "and", "or", "xor"} ELSE {"add", "sub", "mul", "div", "rem"}) : Write(<<"bin", op, t>>)
GenShift == \E op \in Pick({"shl", "shr", "ushr"}) : (Is(<<"I", "I">>) \/ Is(<<"J", "I">>)) /\ Write(<<"shift", op, stk[Len(stk) - 1][1]>>)
\* mixed operands are brought together
GenBoth == \E t \in Pick({"I", "J", "F", "D"}) : \E op \in Pick({"add", "sub", "mul", "div", "rem"} \cup (IF t \in {"I", "J"} THEN {"and", "or", "xor"} ELSE {})),
              v \in Pick(VarsOf(t)), c \in Pick(Consts(t)), side \in Pick({1, 2, 3}) :
  /\ Len(stk) <= MaxStack - 2
  /\ IF side = 3 THEN \E w \in Pick(VarsOf(t)) : RunTo(Cur, <<"load", v>>, lab, pend, <<<<"load", w>>, <<"bin", op, t>>>> \o todo, Append(code, <<"load", v>>))
     ELSE LET a == IF side = 1 THEN <<"load", v>> ELSE <<"const", t, c>>
              b == IF side = 1 THEN <<"const", t, c>> ELSE <<"load", v>> IN
       RunTo(Cur, a, lab, pend, <<b, <<"bin", op, t>>>> \o todo, Append(code, a))
GenVShift == Len(stk) <= MaxStack - 2 /\ \E t \in Pick({"I", "J"}), op \in Pick({"shl", "shr", "ushr"}), k \in Pick(Consts("I")), var \in Pick({TRUE, FALSE}), w \in Pick(VarsOf("I")) :
  \E v \in Pick(VarsOf(t)) : RunTo(Cur, <<"load", v>>, lab, pend, <<IF var THEN <<"load", w>> ELSE <<"const", "I", k>>, <<"shift", op, t>>>> \o todo, Append(code, <<"load", v>>))
GenNeg == stk # <<>> /\ stk[Len(stk)][1] # "R" /\ \E o \in Pick({"neg", "abs"}) : Write(<<o, stk[Len(stk)][1]>>)
GenConv == stk # <<>> /\ stk[Len(stk)][1] # "R" /\ LET t == stk[Len(stk)][1] IN
  \E to \in Pick(({"I", "J", "F", "D"} \ {t}) \cup (IF t = "I" THEN {"b", "c", "s"} ELSE {})) : Write(<<"conv", t, to>>)
GenCmp == \/ Is(<<"J", "J">>) /\ Write(<<"lcmp">>)
          \/ \E t \in {"F", "D"} : Is(<<t, t>>) /\ \E g \in Pick({-1, 1}) : Write(<<"fcmp", t, g>>)
GenIf == \E c \in Pick(Conds) :
  \/ Is(<<"I">>) /\ Branch(<<"if", c>>, 1, c)
  \/ Is(<<"I", "I">>) /\ Branch(<<"ificmp", c>>, 2, c)
  \/ c \in {"eq", "ne"} /\ Is(<<"R">>) /\ Branch(<<"ifnull", c>>, 1, c)
  \/ c \in {"eq", "ne"} /\ Is(<<"R", "R">>) /\ Branch(<<"ifacmp", c>>, 2, c)
\* comparison followed by a branch, as compilers of Java emit it
GenCmpIf == \E t \in Pick({"I", "J", "F", "D"}), c \in Pick(Conds), g \in Pick({-1, 1}) : \E v \in Pick(VarsOf(t)), k \in Pick(Consts(t)) :
  /\ Len(stk) <= MaxStack - 2
  /\ LET ts == TypesOf(stk)
         cmp == CASE t = "I" -> <<>> [] t = "J" -> <<<<"lcmp">>>> [] OTHER -> <<<<"fcmp", t, g>>>>
         l == Len(lab) + 1
         br == IF t = "I" THEN <<"ificmp", c, l>> ELSE <<"if", c, l>> IN
     RunTo(Cur, <<"load", v>>, NewLab(ts), pend \cup {l}, <<<<"const", t, k>>>> \o cmp \o <<br>> \o todo, Append(code, <<"load", v>>))
GenGoto == \E x \in Pick({0}) : Branch(<<"goto">>, 0, 0)
GenSwitch == Is(<<"I">>) /\ LET ts == TypesOf(Sub(stk, 1, Len(stk) - 1))
                                v == ToInt(stk[Len(stk)][2])
                                a == Len(lab) + 1 IN
  \E kind \in Pick({"tableswitch", "lookupswitch"}), d \in Pick({0, 1, 2, -1, 3}), base \in Pick({0, -2, 5, 100000}) :
    LET lo == IF v < 2000000000 /\ v > -2000000000 THEN v - d ELSE base
        ks == IF kind = "tableswitch" THEN <<W4(lo), W4(lo + 1), W4(lo + 2)>>
              ELSE IF lo < 1000000 THEN <<W4(MinInt), W4(lo), W4(lo + 1000)>> ELSE <<W4(lo - 2000000), W4(lo - 7), W4(lo)>>
        i == <<kind, ks, <<a, a + 1, a>>, a + 2>> IN
    RunTo(Cur, i, lab \o [x \in 1..3 |-> [at |-> 0, ts |-> ts]], pend \cup {a, a + 1, a + 2}, todo, Append(code, i))
GenMark == Len(lab) < 40 /\ LET l == Len(lab) + 1  i == <<"label", l>> IN
  RunTo(Cur, i, Append(lab, [at |-> Len(code) + 1, ts |-> TypesOf(stk)]), pend, todo, Append(code, i))
GenPlace == \E l \in Pick({x \in pend : lab[x].ts = TypesOf(stk)}) : LET i == <<"label", l>> IN
  RunTo(Cur, i, [lab EXCEPT ![l].at = Len(code) + 1], pend \ {l}, todo, Append(code, i))
GenLoop == pend = {} /\ fuel > 1 /\ \E l \in Pick({x \in 1..Len(lab) : lab[x].at # 0 /\ lab[x].ts = TypesOf(stk)}) : Write(<<"loop", l>>)
One == <<"const", "I", W4(1)>>
Bool(f) == IF f = "z" THEN <<One, <<"bin", "and", "I">>>> ELSE <<>>
GenField == \E f \in Pick(FieldNames), how \in Pick({"getstatic", "putstatic", "getfield", "putfield"}), r \in Pick(VarsOf("R")) :
  CASE how = "getstatic" -> Write(<<how, f>>)
    \* only 0 and 1 are stored in a boolean
    [] how = "putstatic" -> Is(<<FType(f)>>) /\ IF f = "z" THEN RunTo(Cur, One, lab, pend, <<<<"bin", "and", "I">>, <<how, f>>>> \o todo, Append(code, One)) ELSE Write(<<how, f>>)
    [] how = "getfield" -> IF Is(<<"R">>) THEN Write(<<how, f>>) ELSE RunTo(Cur, <<"load", r>>, lab, pend, <<<<how, f>>>> \o todo, Append(code, <<"load", r>>))
    [] how = "putfield" -> IF Is(<<"R", FType(f)>>) /\ f # "z" THEN Write(<<how, f>>)
         ELSE Len(stk) < MaxStack - 2 /\ \E v \in Pick(VarsOf(FType(f))) : RunTo(Cur, <<"load", r>>, lab, pend, <<<<"load", v>>>> \o Bool(f) \o <<<<how, f>>>> \o todo, Append(code, <<"load", r>>))
GenArr == Len(stk) < MaxStack - 3 /\ \E f \in Pick(FieldNames), k \in Pick({0, 1, 2, 0, 1, 2, 3, -1}), st \in Pick({TRUE, FALSE}), odd \in Pick(1..8), iv \in Pick(VarsOf("I")) :
  LET x == IF odd = 1 THEN k ELSE Abs(k) % ArrLen
      ref == <<"arrref", f>>
      idx == IF odd = 2 THEN <<"load", iv>> ELSE <<"const", "I", W4(x)>> IN
  IF st THEN \E v \in Pick(VarsOf(FType(f))) : RunTo(Cur, ref, lab, pend, <<idx, <<"load", v>>>> \o Bool(f) \o <<<<"astore", f>>>> \o todo, Append(code, ref))
  ELSE RunTo(Cur, ref, lab, pend, <<idx, <<"aload", f>>>> \o todo, Append(code, ref))
GenNew == Is(<<"I">>) /\ ToInt(stk[Len(stk)][2]) < 1000 /\ \E f \in Pick(FieldNames) : Write(<<"newarray", f>>)
GenCall == \E k \in Pick({x \in {1, 2, 3, 4, 5, 6, 7, 8} : x <= Len(stk)}) :
  /\ \A x \in 1..k : stk[Len(stk) - x + 1][1] # "R"
  /\ \E r \in Pick(1..k) : Write(<<"call", TypesOf(SubSeq(stk, Len(stk) - k + 1, Len(stk))), r>>)
GenPrint == stk # <<>> /\ stk[Len(stk)][1] # "R" /\ Write(<<"print", stk[Len(stk)][1]>>)

Rep(x, k) == [i \in 1..k |-> x]
Menu == Rep("const", 8) \o Rep("null", 1) \o Rep("load", 10) \o Rep("store", 10) \o Rep("iinc", 2) \o Rep("stack", 10) \o Rep("bin", 8) \o Rep("shift", 4)
  \o Rep("both", 6) \o Rep("neg", 2) \o Rep("conv", 8) \o Rep("cmp", 4) \o Rep("if", 4) \o Rep("cmpif", 4) \o Rep("goto", 1) \o Rep("switch", 2) \o Rep("mark", 3)
  \o Rep("place", 16) \o Rep("loop", 9) \o Rep("vshift", 5) \o Rep("field", 6) \o Rep("arr", 4) \o Rep("new", 1) \o Rep("call", 3) \o Rep("print", 3)
Gen(op) == CASE op = "const" -> GenConst [] op = "null" -> GenNull [] op = "load" -> GenLoad [] op = "store" -> GenStore [] op = "iinc" -> GenIinc
  [] op = "stack" -> GenStack [] op = "bin" -> GenBin [] op = "shift" -> GenShift [] op = "both" -> GenBoth [] op = "neg" -> GenNeg [] op = "conv" -> GenConv
  [] op = "cmp" -> GenCmp [] op = "if" -> GenIf [] op = "cmpif" -> GenCmpIf [] op = "goto" -> GenGoto [] op = "switch" -> GenSwitch [] op = "mark" -> GenMark
  [] op = "vshift" -> GenVShift [] op = "place" -> GenPlace [] op = "loop" -> GenLoop [] op = "field" -> GenField [] op = "arr" -> GenArr [] op = "new" -> GenNew [] op = "call" -> GenCall
  [] op = "print" -> GenPrint

------------------------------------------------------------------------------
Init == /\ code = <<>> /\ pc = 1 /\ stk = <<>> /\ out = <<>> /\ n = 0 /\ fin = FALSE
        /\ \E f \in Pick(4..14) : fuel = f /\ fuel0 = f
        /\ \E i1 \in Pick(Consts("I")), j1 \in Pick(Consts("J")), f1 \in Pick(Consts("F")), d1 \in Pick(Consts("D")), i2 \in Pick(Consts("I")) :
             todo = <<<<"const", "I", i1>>, <<"store", "i1">>, <<"const", "J", j1>>, <<"store", "j1">>, <<"const", "F", f1>>, <<"store", "f1">>,
                      <<"const", "D", d1>>, <<"store", "d1">>, <<"const", "I", i2>>, <<"store", "i2">>>>
        /\ loc = [v \in Vars |-> CASE v = "r0" -> 1 [] v = "r1" -> 2 [] OTHER -> Zero(TypeOfVar(v))]
        /\ fld = [x \in (0..2) \X FieldNames |-> Zero(FType(x[2]))]
        /\ arr = [f \in FieldNames |-> [k \in 1..ArrLen |-> Zero(FType(f))]]
        /\ lab = <<>> /\ pend = {}
New == pc > Len(code)
Closing == Len(code) >= MaxCode \/ n >= MaxRun
\* close: give pending labels their place, print everything
Values == [k \in 1..11 |-> LET v == <<"i0", "i1", "i2", "j0", "j1", "f0", "f1", "d0", "d1", "r0", "r1">>[k] IN <<TypeOfVar(v), loc[v]>>]
FieldValues == LET fs == <<"z", "b", "c", "s", "i", "j", "f", "d">> IN
   [k \in 1..24 |-> LET f == fs[((k - 1) % 8) + 1] IN <<FType(f), fld[<<(k - 1) \div 8, f>>]>>] \o
   [k \in 1..24 |-> LET f == fs[((k - 1) % 8) + 1] IN <<FType(f), arr[f][(k - 1) \div 8 + 1]>>]
Close == IF pend = {} THEN Write(<<"end", Values \o FieldValues>>)
         ELSE LET l == CHOOSE x \in pend : TRUE  want == lab[l].ts  have == TypesOf(stk) IN
           \* what was given up on (a value the specification does not model) is not replayed
           IF want = have THEN LET i == <<"label", l>> IN RunTo(Cur, i, [lab EXCEPT ![l].at = Len(code) + 1], pend \ {l}, todo, Append(code, i))
           ELSE IF Len(have) >= Len(want) \/ SubSeq(want, 1, Len(have)) # have
                THEN (IF Width(have[Len(have)]) = 1 THEN Write(<<"pop">>) ELSE Write(<<"pop2", 1>>))
                ELSE Write(<<"const", want[Len(have) + 1], Zero(want[Len(have) + 1])>>)
WriteTodo == LET i == todo[1] IN
  IF i[1] = "skip" THEN \* never executed here (except in a later round of a loop)
     \E k \in Pick({1, -7, 40000}) : LET j == IF k = 40000 THEN <<"label", 0>> ELSE <<"iinc", "i0", k>> IN
       code' = Append(code, j) /\ todo' = Tail(todo) /\ UNCHANGED <<pc, stk, loc, fld, arr, lab, pend, out, fuel, fuel0, n, fin>>
  ELSE IF Lost(i) THEN GiveUp ELSE RunTo(Cur, i, lab, pend, Tail(todo), Append(code, i))
Again == IF n >= 4 * MaxRun \/ Lost(code[pc]) THEN GiveUp ELSE RunTo(Cur, code[pc], lab, pend, todo, code)
Step == /\ ~fin
        /\ IF todo # <<>> THEN WriteTodo
           ELSE IF ~New THEN Again
           ELSE IF Closing THEN Close
           ELSE \/ \E c \in 1..9 : \E k \in Pick(1..Len(Menu)) : Gen(Menu[k])
                \/ GenConst \/ GenLoad \/ (Len(stk) = MaxStack /\ GenStore)
Emit == /\ fin /\ code # <<>> /\ code[1] # <<"done">>
        /\ IF Record THEN PrintT(ToJson([code |-> code, lab |-> [k \in 1..Len(lab) |-> lab[k].at], out |-> out, fuel0 |-> fuel0]))  ELSE TRUE
        /\ code' = <<<<"done">>>> /\ UNCHANGED <<pc, stk, loc, fld, arr, lab, pend, todo, out, fuel, fuel0, n, fin>>
Pad == fin /\ UNCHANGED vars
Next == Step \/ Emit \/ Pad
Spec == Init /\ [][Next]_vars
=============================================================================
