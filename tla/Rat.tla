------------------------------- MODULE Rat -------------------------------
\* Rationals <<n, d>>; <<0, 0>> is "not determined" (irrational, outside of the domain or too large).
EXTENDS Integers, Sequences
LIM == 20000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
U == <<0, 0>>
Known(r) == r[2] # 0
Norm(n, d) == IF d = 0 THEN U ELSE
  LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 m == (s * n) \div g e == (s * d) \div g
  IN IF Abs(m) > LIM \/ e > LIM THEN U ELSE <<m, e>>
I(n) == <<n, 1>>
Zero == I(0)
Add(a, b) == IF Known(a) /\ Known(b) THEN Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2]) ELSE U
Neg(a) == IF Known(a) THEN <<-a[1], a[2]>> ELSE U
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF Known(a) /\ Known(b) THEN Norm(a[1] * b[1], a[2] * b[2]) ELSE U
Div(a, b) == IF Known(a) /\ Known(b) /\ b[1] # 0 THEN Norm(a[1] * b[2], a[2] * b[1]) ELSE U
Less(a, b) == a[1] * b[2] < b[1] * a[2]
RECURSIVE Pow(_, _)
Pow(a, m) == IF m = 0 THEN I(1) ELSE IF m > 0 THEN Mul(a, Pow(a, m - 1)) ELSE Div(I(1), Pow(a, -m))
RECURSIVE SqrtFrom(_, _)
SqrtFrom(n, r) == IF r * r > n THEN -1 ELSE IF r * r = n THEN r ELSE SqrtFrom(n, r + 1)
Sqrt(a) == IF ~Known(a) \/ a[1] < 0 THEN U
           ELSE LET n == SqrtFrom(a[1], 0) d == SqrtFrom(a[2], 0) IN IF n < 0 \/ d < 0 THEN U ELSE <<n, d>>
Floor(a) == a[1] \div a[2]          \* TLA+ integer division rounds down
RECURSIVE SumR(_, _, _)
SumR(f, lo, hi) == IF lo > hi THEN Zero ELSE Add(f[lo], SumR(f, lo + 1, hi))
IsInt(a) == Known(a) /\ a[2] = 1
RECURSIVE Lg2(_, _)
Lg2(n, k) == IF n = 1 THEN k ELSE IF n % 2 = 1 THEN -1 ELSE Lg2(n \div 2, k + 1)
\* log2 of a rational, if it is an integer
Log2(a) == IF ~Known(a) \/ a[1] <= 0 THEN U
           ELSE LET x == Lg2(a[1], 0) y == Lg2(a[2], 0) IN IF x < 0 \/ y < 0 THEN U ELSE I(x - y)
PowI(b, q) == IF IsInt(q) /\ q[1] <= 14 /\ q[1] >= -14 THEN Pow(I(b), q[1]) ELSE U
=============================================================================
