------------------------------ MODULE Words_mc ------------------------------
(* Checks Words against the integers of TLA+: all pairs of one-byte numbers, and
   two-byte ones at the edges; floating point against exact fractions. *)
EXTENDS Words, FiniteSets
VARIABLES a, b
Small == 0..255
Edge == {0, 1, 2, 3, 100, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 21845}
Wrap(x, n) == FromIntAt(x, n, <<>>)
TDiv(x, y) == Sg(x) * Sg(y) * (Abs(x) \div Abs(y))
TRem(x, y) == x - y * TDiv(x, y)
Laws(x, y, n) == LET i == ToInt(x)  j == ToInt(y)  k == (n * 8) IN
  /\ Wrap(i, n) = x
  /\ AddW(x, y) = Wrap(i + j, n) /\ SubW(x, y) = Wrap(i - j, n) /\ NegW(x) = Wrap(-i, n)
  /\ MulW(x, y) = Wrap(i * j, n)
  /\ SLess(x, y) = (i < j)
  /\ j # 0 => DivW(x, y) = Wrap(TDiv(i, j), n) /\ RemW(x, y) = Wrap(TRem(i, j), n)
  /\ \A s \in {0, 1, 3, 7, 8, k - 1} : s < k =>
       /\ ShrW(x, s) = Wrap(i \div Pow2(s), n)
       /\ UshrW(x, s) = Wrap(ToInt(ZExt(x, n + 1)) \div Pow2(s), n)
       /\ (n = 1 \/ s < 15) => ShlW(x, s) = Wrap(i * Pow2(s), n)
  /\ AddW(AndW(x, y), OrW(x, y)) = AddW(x, y)
  /\ XorW(x, y) = SubW(OrW(x, y), AndW(x, y))
  /\ ToInt(SExt(x, 4)) = i
  /\ FToW(WToF(x, 53), n) = x
\* halves: x/2 and y/2
FLaws(x, y) == LET i == ToInt(x)  j == ToInt(y)
                   f == IF i = 0 THEN <<"zero", 1>> ELSE Norm(i, -1)
                   g == IF j = 0 THEN <<"zero", 1>> ELSE Norm(j, -1) IN
  /\ FToW(FAdd(f, g, 24), 4) = FromInt(TDiv(i + j, 2), 4)
  /\ FToW(FMul(f, g, 24), 4) = FromInt(TDiv(i * j, 4), 4)
  /\ FCmp(f, g, 9) = (IF i < j THEN -1 ELSE IF i = j THEN 0 ELSE 1)
  /\ j # 0 => FToW(FMul(FRem(f, g, 24), <<"num", 1, 1>>, 24), 4) = FromInt(TRem(i, j), 4)
  /\ (j # 0 /\ i # 0 /\ FDiv(f, g, 24) # Bad) => FMul(FDiv(f, g, 24), g, 24) = f
  /\ FRound(f, 3) = f \/ LET r == FRound(f, 3) IN 8 * Abs(r[2] * 2 ^ (r[3] + 1) - i) <= Abs(i)
Init == a \in {<<x>> : x \in Small} \cup {Wrap(x, 2) : x \in Edge} /\ b = <<>>
Next == b = <<>> /\ b' \in (IF Len(a) = 1 THEN {<<x>> : x \in Small} ELSE {Wrap(x, 2) : x \in Edge}) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
WordLaws == b # <<>> => Laws(a, b, Len(a))
FloatLaws == (b # <<>> /\ Len(a) = 1) => FLaws(a, b)
=============================================================================
