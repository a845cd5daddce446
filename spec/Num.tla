-------------------------------- MODULE Num ---------------------------------
(* Integer arithmetic helpers: rounded scaled quotients, square roots.      *)
EXTENDS Integers
LOCAL INSTANCE Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* Round(k * a / b), b > 0, without forming k * a; k * b must fit
ScaledP(a, b, k) == k * (a \div b) + (k * (a % b) + (b \div 2)) \div b
Scaled(a, b, k) == Sgn(a) * ScaledP(Abs(a), b, k)
RECURSIVE SqrtBetween(_, _, _)
SqrtBetween(x, lo, hi) ==     \* largest s with s * s <= x
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF m * m <= x THEN SqrtBetween(x, m, hi) ELSE SqrtBetween(x, lo, m - 1)
Isqrt(x) == SqrtBetween(x, 0, 46340)
RECURSIVE SumSeq0(_, _)
SumSeq0(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq0(s, k - 1)
SumUpTo(s) == SumSeq0(s, Len(s))
\* no difference is formed: r may be the projection of an undefined value
Near(r, x, tol) == x - tol <= r /\ r <= x + tol
=============================================================================
