------------------------------- MODULE Words --------------------------------
(* Two's complement numbers of any number of bytes (sequences of unsigned bytes,
   least significant first), and the binary floating point numbers whose
   significand is small enough for the arithmetic here to be exact before
   rounding. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Pow2(n) == 2 ^ n
ZeroW(n) == [i \in 1..n |-> 0]
AddC(a, b, c) == (FoldLeft(LAMBDA acc, i : LET x == a[i] + b[i] + acc[2] IN <<Append(acc[1], x % 256), x \div 256>>,
                           <<<<>>, c>>, [i \in 1..Len(a) |-> i]))[1]
NotW(a) == [i \in 1..Len(a) |-> 255 - a[i]]
AddW(a, b) == AddC(a, b, 0)
SubW(a, b) == AddC(a, NotW(b), 1)
NegW(a) == AddC(NotW(a), ZeroW(Len(a)), 1)
IsNeg(a) == a[Len(a)] >= 128
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
AbsW(a) == IF IsNeg(a) THEN NegW(a) ELSE a
Column(a, b, k) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[k + 1 - i], 0, [i \in 1..k |-> i])
MulW(a, b) == (FoldLeft(LAMBDA acc, k : LET x == Column(a, b, k) + acc[2] IN <<Append(acc[1], x % 256), x \div 256>>,
                        <<<<>>, 0>>, [k \in 1..Len(a) |-> k]))[1]
RECURSIVE ULessAt(_, _, _)
ULessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULessAt(a, b, i - 1)
ULess(a, b) == ULessAt(a, b, Len(a))
SLess(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULess(a, b)
Bit(a, i) == (a[i \div 8 + 1] \div Pow2(i % 8)) % 2     \* i from 0
\* <<quotient, remainder>> of unsigned numbers, b # 0
UDivMod(a, b) == LET n == Len(a) * 8 IN
  FoldLeft(LAMBDA acc, k :
     LET i == n - k
         r == AddC(acc[2], acc[2], Bit(a, i))
         q == AddC(acc[1], acc[1], 0)
     IN IF ULess(r, b) THEN <<q, r>> ELSE <<[q EXCEPT ![1] = @ + 1], SubW(r, b)>>,
     <<ZeroW(Len(a)), ZeroW(Len(a))>>, [k \in 1..n |-> k])
DivW(a, b) == LET q == UDivMod(AbsW(a), AbsW(b))[1] IN IF IsNeg(a) # IsNeg(b) THEN NegW(q) ELSE q
RemW(a, b) == LET r == UDivMod(AbsW(a), AbsW(b))[2] IN IF IsNeg(a) THEN NegW(r) ELSE r
At(a, i, fill) == IF i < 1 THEN 0 ELSE IF i > Len(a) THEN fill ELSE a[i]
ShlW(a, k) == LET kb == k \div 8  kr == k % 8 IN
  [i \in 1..Len(a) |-> ((At(a, i - kb, 0) * Pow2(kr)) % 256) + ((At(a, i - kb - 1, 0) * Pow2(kr)) \div 256)]
Shr(a, k, fill) == LET kb == k \div 8  kr == k % 8 IN
  [i \in 1..Len(a) |-> (At(a, i + kb, fill) \div Pow2(kr)) + ((At(a, i + kb + 1, fill) * Pow2(8 - kr)) % 256)]
ShrW(a, k) == Shr(a, k, IF IsNeg(a) THEN 255 ELSE 0)
UshrW(a, k) == Shr(a, k, 0)
AndW(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
OrW(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
XorW(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
SExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF IsNeg(a) THEN 255 ELSE 0]
ZExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
TruncW(a, n) == SubSeq(a, 1, n)
\* numbers of at most four bytes as integers and back
RECURSIVE ToIntAt(_, _, _)
ToIntAt(a, i, acc) == IF i = 0 THEN acc ELSE ToIntAt(a, i - 1, acc * 256 + a[i])
ToInt(a) == LET n == Len(a) IN ToIntAt(a, n - 1, IF a[n] >= 128 THEN a[n] - 256 ELSE a[n])
RECURSIVE FromIntAt(_, _, _)
FromIntAt(x, n, acc) == IF n = 0 THEN acc ELSE FromIntAt(x \div 256, n - 1, Append(acc, x % 256))
FromInt(x, n) == SExt(FromIntAt(x, IF n > 4 THEN 4 ELSE n, <<>>), n)
MinW(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
MaxW(n) == [i \in 1..n |-> IF i = n THEN 127 ELSE 255]

------------------------------------------------------------------------------
(* Floating point: <<"nan">>, <<"inf", sign>>, <<"zero", sign>>, <<"num", n, e>> = n * 2^e, n odd.
   <<"bad">>: outside of what is modelled. *)
Bad == <<"bad">>
Nan == <<"nan">>
Abs(x) == IF x < 0 THEN -x ELSE x
Sg(x) == IF x < 0 THEN -1 ELSE 1
RECURSIVE NBits(_)
NBits(x) == IF x = 0 THEN 0 ELSE 1 + NBits(x \div 2)     \* x >= 0
RECURSIVE Norm(_, _)
Norm(n, e) == IF n % 2 = 0 THEN Norm(n \div 2, e + 1) ELSE <<"num", n, e>>
\* n * 2^e rounded to p significant bits, to nearest, ties to even
RoundF(n, e, p) ==
  IF n = 0 THEN <<"zero", 1>> ELSE
  LET a == Abs(n)  b == NBits(a) IN
  IF b <= p THEN Norm(n, e) ELSE
  LET d == b - p
      q == a \div Pow2(d)
      r == a % Pow2(d)
      h == Pow2(d - 1)
      m == IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
  IN Norm(Sg(n) * m, e + d)
InRange(x) == IF x[1] = "num" /\ (x[3] + NBits(Abs(x[2])) > 100 \/ x[3] < -100) THEN Bad ELSE x
FSign(x) == IF x[1] = "num" THEN Sg(x[2]) ELSE x[2]
FNeg(x) == CASE x[1] \in {"inf", "zero"} -> <<x[1], -x[2]>> [] x[1] = "num" -> <<"num", -x[2], x[3]>> [] OTHER -> x
FAdd(x, y, p) ==
  IF x[1] = "nan" \/ y[1] = "nan" THEN Nan
  ELSE IF x[1] = "inf" THEN (IF y[1] = "inf" /\ x[2] # y[2] THEN Nan ELSE x)
  ELSE IF y[1] = "inf" THEN y
  ELSE IF x[1] = "zero" /\ y[1] = "zero" THEN <<"zero", IF x[2] = -1 /\ y[2] = -1 THEN -1 ELSE 1>>
  ELSE IF x[1] = "zero" THEN y
  ELSE IF y[1] = "zero" THEN x
  ELSE LET e == IF x[3] < y[3] THEN x[3] ELSE y[3] IN
       IF NBits(Abs(x[2])) + x[3] - e > 29 \/ NBits(Abs(y[2])) + y[3] - e > 29 THEN Bad
       ELSE InRange(RoundF(x[2] * Pow2(x[3] - e) + y[2] * Pow2(y[3] - e), e, p))
FAbs(x) == CASE x[1] = "inf" -> <<"inf", 1>> [] x[1] = "zero" -> <<"zero", 1>> [] x[1] = "num" -> <<"num", IF x[2] < 0 THEN -x[2] ELSE x[2], x[3]>> [] OTHER -> x
FSub(x, y, p) == FAdd(x, FNeg(y), p)
FMul(x, y, p) ==
  IF x[1] = "nan" \/ y[1] = "nan" THEN Nan
  ELSE LET s == FSign(x) * FSign(y) IN
  IF x[1] = "inf" THEN (IF y[1] = "zero" THEN Nan ELSE <<"inf", s>>)
  ELSE IF y[1] = "inf" THEN (IF x[1] = "zero" THEN Nan ELSE <<"inf", s>>)
  ELSE IF x[1] = "zero" \/ y[1] = "zero" THEN <<"zero", s>>
  ELSE IF NBits(Abs(x[2])) + NBits(Abs(y[2])) > 30 THEN Bad
  ELSE InRange(RoundF(x[2] * y[2], x[3] + y[3], p))
FDiv(x, y, p) ==
  IF x[1] = "nan" \/ y[1] = "nan" THEN Nan
  ELSE LET s == FSign(x) * FSign(y) IN
  IF x[1] = "inf" THEN (IF y[1] = "inf" THEN Nan ELSE <<"inf", s>>)
  ELSE IF y[1] = "inf" THEN <<"zero", s>>
  ELSE IF y[1] = "zero" THEN (IF x[1] = "zero" THEN Nan ELSE <<"inf", s>>)
  ELSE IF x[1] = "zero" THEN <<"zero", s>>
  ELSE IF Abs(x[2]) % Abs(y[2]) # 0 THEN Bad
  ELSE InRange(RoundF(s * (Abs(x[2]) \div Abs(y[2])), x[3] - y[3], p))
FRem(x, y, p) ==
  IF x[1] = "nan" \/ y[1] = "nan" \/ x[1] = "inf" \/ y[1] = "zero" THEN Nan
  ELSE IF y[1] = "inf" \/ x[1] = "zero" THEN x
  ELSE LET e == IF x[3] < y[3] THEN x[3] ELSE y[3] IN
       IF NBits(Abs(x[2])) + x[3] - e > 29 \/ NBits(Abs(y[2])) + y[3] - e > 29 THEN Bad
       ELSE LET r == (Abs(x[2]) * Pow2(x[3] - e)) % (Abs(y[2]) * Pow2(y[3] - e)) IN
            IF r = 0 THEN <<"zero", FSign(x)>> ELSE Norm(FSign(x) * r, e)
\* is x < y, for neither NaN
FLess(x, y) ==
  IF x[1] = "inf" THEN x[2] = -1 /\ ~(y[1] = "inf" /\ y[2] = -1)
  ELSE IF y[1] = "inf" THEN y[2] = 1
  ELSE IF x[1] = "zero" THEN y[1] = "num" /\ y[2] > 0
  ELSE IF y[1] = "zero" THEN x[2] < 0
  ELSE IF Sg(x[2]) # Sg(y[2]) THEN x[2] < 0
  ELSE LET bx == NBits(Abs(x[2])) + x[3]
           by == NBits(Abs(y[2])) + y[3] IN
       IF bx # by THEN (bx < by) = (x[2] > 0)
       ELSE LET e == IF x[3] < y[3] THEN x[3] ELSE y[3]   \* the same magnitude, so no more than 30 bits apart
            IN x[2] * Pow2(x[3] - e) < y[2] * Pow2(y[3] - e)
FCmp(x, y, nan) == IF x[1] = "nan" \/ y[1] = "nan" THEN nan ELSE IF FLess(x, y) THEN -1 ELSE IF FLess(y, x) THEN 1 ELSE 0
\* to a number of n bytes: towards zero, saturating
FToW(x, n) ==
  CASE x[1] \in {"nan", "zero"} -> ZeroW(n)
    [] x[1] = "inf" -> IF x[2] = 1 THEN MaxW(n) ELSE MinW(n)
    [] OTHER -> IF NBits(Abs(x[2])) + x[3] > n * 8 - 1 THEN (IF x[2] > 0 THEN MaxW(n) ELSE MinW(n))
                ELSE LET m == IF x[3] >= 0 THEN ShlW(FromInt(Abs(x[2]), n), x[3])
                              ELSE FromInt(IF x[3] < -30 THEN 0 ELSE Abs(x[2]) \div Pow2(-x[3]), n)
                     IN IF x[2] < 0 THEN NegW(m) ELSE m
RECURSIVE TopBit(_, _)
TopBit(a, i) == IF i < 0 THEN -1 ELSE IF Bit(a, i) = 1 THEN i ELSE TopBit(a, i - 1)
RECURSIVE LowBit(_, _)
LowBit(a, i) == IF Bit(a, i) = 1 THEN i ELSE LowBit(a, i + 1)
\* from a number: exact before rounding if its significant bits fit
WToF(a, p) == IF IsZero(a) THEN <<"zero", 1>> ELSE
  LET m == AbsW(a)
      t == TopBit(m, Len(m) * 8 - 1)
      l == LowBit(m, 0) IN
  IF t - l >= 30 THEN Bad
  ELSE LET k == ToInt(TruncW(ZExt(UshrW(m, l), 8), 4)) IN RoundF((IF IsNeg(a) THEN -1 ELSE 1) * k, l, p)
FRound(x, p) == IF x[1] = "num" THEN InRange(RoundF(x[2], x[3], p)) ELSE x
=============================================================================
