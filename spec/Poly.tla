-------------------------------- MODULE Poly --------------------------------
(* Multivariate polynomials of degree at most two, in the monomial order of *)
(* sqpdfo: 1, x_1 .. x_n, x_1^2/2 .. x_n^2/2, then the products x_i x_{i+k} *)
(* for k = 1 .. n-1 (the k-th subdiagonal).  A polynomial is the sequence   *)
(* of its coefficients; it may be truncated (the missing ones are zero).    *)
EXTENDS IEEE, FiniteSets

PHALF == FDec("0.5")
Full(n) == ((n + 1) * (n + 2)) \div 2

RECURSIVE Cross(_, _)
Cross(n, k) == IF k >= n THEN <<>> ELSE [j \in 1..(n - k) |-> <<j, j + k>>] \o Cross(n, k + 1)
\* pairs <<i, j>> of the products, in order
CrossIdx(n) == Cross(n, 1)

\* all monomials at z
Phi(z) == LET n == Len(z)
              ci == CrossIdx(n)
          IN <<FInt(1)>> \o z \o [j \in 1..n |-> FMul(PHALF, FMul(z[j], z[j]))]
             \o [k \in 1..Len(ci) |-> FMul(z[ci[k][1]], z[ci[k][2]])]

Pad(P, q) == IF Len(P) >= q THEN SubSeq(P, 1, q) ELSE P \o [k \in 1..(q - Len(P)) |-> FInt(0)]

PVal(P, z) == VDot(Pad(P, Full(Len(z))), Phi(z))

\* position of the coefficient of z_i z_j (i < j) and of z_i^2/2
CrossPos(n, i, j) == CHOOSE k \in (2 * n + 2)..Full(n) : CrossIdx(n)[k - 2 * n - 1] = <<i, j>>
PHess(P, n) == LET Q == Pad(P, Full(n)) IN
  [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Q[n + 1 + i]
                                  ELSE Q[CrossPos(n, IF i < j THEN i ELSE j, IF i < j THEN j ELSE i)]]]
PGrad(P, z) == LET n == Len(z) Q == Pad(P, Full(n)) IN VAdd([i \in 1..n |-> Q[1 + i]], MVec(PHess(P, n), z))

\* coefficients of a model stored with a diagonal scaling
Scaled(P, scale) == [k \in 1..Len(P) |-> FMul(P[k], scale[k])]
\* the coefficients and the point at which a stored model P based at xbase is evaluated
MCoef(P, scale, shift) == IF shift = 1 THEN Scaled(P, scale) ELSE P
MArg(x, xbase, shift)  == IF shift = 1 THEN VSub(x, xbase) ELSE x
MVal(P, x, xbase, scale, shift)  == PVal(MCoef(P, scale, shift), MArg(x, xbase, shift))
MGrad(P, x, xbase, scale, shift) == PGrad(MCoef(P, scale, shift), MArg(x, xbase, shift))
MHess(P, n, scale, shift)        == PHess(MCoef(P, scale, shift), n)
=============================================================================
