-------------------------------- MODULE Herm --------------------------------
(* Polynomials, given by their coefficients from the constant term upwards, and what becomes of
   them in a Hermite interpolation.                                                        *)
EXTENDS GRat

RECURSIVE ValAt(_, _)
ValAt(p, t) == IF p = <<>> THEN C0 ELSE Add(p[1], Mul(t, ValAt(Tail(p), t)))
Deriv(p) == IF Len(p) < 2 THEN <<>> ELSE [k \in 1..(Len(p) - 1) |-> Mul(Zi(k), p[k + 1])]


\* complete homogeneous symmetric polynomials, which are the divided differences of monomials
RECURSIVE CHom(_, _)
CHom(m, q) == IF m < 0 THEN C0 ELSE IF m = 0 THEN C1 ELSE IF q = <<>> THEN C0
              ELSE Add(CHom(m, SubSeq(q, 1, Len(q) - 1)), Mul(q[Len(q)], CHom(m - 1, q)))
\* the divided difference over z[1..k+1]
RECURSIVE DDSum(_, _, _, _)
DDSum(p, z, k, m) == IF m >= Len(p) THEN C0
                     ELSE IF p[m + 1] = C0 THEN DDSum(p, z, k, m + 1)
                     ELSE Add(Mul(p[m + 1], CHom(m - k, SubSeq(z, 1, k + 1))), DDSum(p, z, k, m + 1))
DD(p, z, k) == DDSum(p, z, k, k)

(* What the code was found to compute instead of the interpolating polynomial (a known finding):
   the coefficients are the divided differences over the doubled nodes z, but the nodes the Newton
   form is evaluated with are z[1], z[2], ... z[n] rather than z[1], ... z[2n].              *)
RECURSIVE NewtonAsFound(_, _, _, _, _)
NewtonAsFound(p, z, t, i, r) ==
    IF i = 0 THEN Add(Mul(r, Sub(t, z[1])), DD(p, z, 0))
    ELSE NewtonAsFound(p, z, t, i - 1, Add(Mul(Add(Mul(r, Sub(t, z[i + 1])), DD(p, z, 2 * i)), Sub(t, z[i])), DD(p, z, 2 * i - 1)))
AsFound(p, nodes, t) ==
    LET n == Len(nodes)
        z == [k \in 1..(2 * n) |-> nodes[(k + 1) \div 2]]
    IN NewtonAsFound(p, z, t, n - 1, DD(p, z, 2 * n - 1))
=============================================================================
