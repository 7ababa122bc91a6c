-------------------------------- MODULE GRat --------------------------------
(* Exact Gaussian rationals <<re, im, den>> (den > 0, reduced) with an explicit
   "undefined" element <<>> that absorbs everything.  A value whose numerator or
   denominator leaves [-Lim, Lim] becomes undefined as well, so TLC's 32-bit
   integers never overflow: 2*Lim^2 < 2^31.                                     *)
EXTENDS Integers, Sequences

Lim == 30000
Undef == <<>>
IsDef(a) == a # Undef

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

Mk(re, im, den) ==          \* den # 0
    LET s == IF den < 0 THEN -1 ELSE 1
        g0 == GCD(GCD(Abs(re), Abs(im)), Abs(den))
        r == (s * re) \div g0
        i == (s * im) \div g0
        d == (s * den) \div g0
    IN IF Abs(r) > Lim \/ Abs(i) > Lim \/ d > Lim THEN Undef ELSE <<r, i, d>>

Zi(n) == <<n, 0, 1>>
Q(n, d) == Mk(n, 0, d)
C0 == Zi(0)
C1 == Zi(1)
CI == <<0, 1, 1>>

Add(a, b) == IF a = Undef \/ b = Undef THEN Undef
             ELSE IF a[3] = b[3] THEN Mk(a[1] + b[1], a[2] + b[2], a[3])
             ELSE Mk(a[1]*b[3] + b[1]*a[3], a[2]*b[3] + b[2]*a[3], a[3]*b[3])
Neg(a) == IF a = Undef THEN Undef ELSE <<-a[1], -a[2], a[3]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a = Undef \/ b = Undef THEN Undef
             ELSE IF a = C0 \/ b = C0 THEN C0
             ELSE IF a = C1 THEN b ELSE IF b = C1 THEN a
             ELSE IF a[2] = 0 /\ b[2] = 0 THEN Mk(a[1]*b[1], 0, a[3]*b[3])
             ELSE Mk(a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1], a[3]*b[3])
\* 1/(p+qi)*d = d(p-qi)/(p^2+q^2); the norm needs |p|,|q| small
Inv(a) == IF a = Undef \/ a = C0 THEN Undef
          ELSE IF a[2] = 0 THEN Mk(a[3], 0, a[1])
          ELSE IF Abs(a[1]) > 1000 \/ Abs(a[2]) > 1000 \/ a[3] > 1000 THEN Undef
          ELSE Mk(a[3]*a[1], -(a[3]*a[2]), a[1]*a[1] + a[2]*a[2])
Div(a, b) == Mul(a, Inv(b))

RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN C1 ELSE Mul(a, PowN(a, n - 1))
\* integer powers; 0^0 and 0^-n are left undefined
PowI(a, n) == IF a = Undef THEN Undef
              ELSE IF n > 0 THEN PowN(a, n)
              ELSE IF a = C0 THEN Undef
              ELSE IF n = 0 THEN C1 ELSE Inv(PowN(a, -n))

ISqrt(n) == IF \E k \in 0..100 : k*k = n THEN CHOOSE k \in 0..100 : k*k = n ELSE -1
\* the principal square root where it is rational (nonnegative reals only)
SqrtQ(a) == IF a = Undef \/ a[2] # 0 \/ a[1] < 0 \/ a[1] > 10000 \/ a[3] > 10000 THEN Undef
            ELSE LET n == ISqrt(a[1])
                     d == ISqrt(a[3])
                 IN IF n < 0 \/ d < 0 THEN Undef ELSE <<n, 0, d>>
=============================================================================
