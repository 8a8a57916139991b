------------------------------ MODULE Problem ------------------------------
(* The problem families of harness/problems.py: gradients of the objective  *)
(* and the constraints, written independently of the code under test.  They *)
(* are the oracle for the optimality conditions claimed by a run.           *)
EXTENDS IEEE

QHALF == FDec("0.5")
Sum2(a, b) == FAdd(a, b)
\* partial derivative j of the cross terms <<i, j, w>> (0-based indices) at z
RECURSIVE CrossD(_, _, _, _)
CrossD(cr, z, j, k) ==
  IF k > Len(cr) THEN FInt(0)
  ELSE LET i1 == cr[k][1] + 1  j1 == cr[k][2] + 1  w == cr[k][3]
       IN FAdd(FAdd(IF i1 = j THEN FMul(w, z[j1]) ELSE FInt(0), IF j1 = j THEN FMul(w, z[i1]) ELSE FInt(0)),
               CrossD(cr, z, j, k + 1))

Opt(s, name, dflt) == IF name \in DOMAIN s THEN s[name] ELSE dflt
Zero(n) == [j \in 1..n |-> FInt(0)]

\* smooth families whose gradient is known
Smooth(s) == s.kind \in {"quad", "lin", "rosen", "sphere", "quartic", "wavy", "exp", "const"}

Grad(s, x) ==
  LET n == Len(x) IN
  CASE s.kind = "quad" ->
         LET z == VSub(x, s.p) cr == Opt(s, "cross", <<>>) l == Opt(s, "lin", Zero(n))
         IN [j \in 1..n |-> FAdd(FAdd(IF j <= Len(s.d) THEN FMul(s.d[j], z[j]) ELSE FInt(0), l[j]), CrossD(cr, z, j, 1))]
    [] s.kind = "lin" -> s.a
    [] s.kind = "sphere" -> VScale(2, VSub(x, s.p))
    [] s.kind = "quartic" -> [j \in 1..n |-> LET z == FSub(x[j], s.p[j]) IN
                                FAdd(FMul(4, FMul(z, FMul(z, z))), FMul(FDec("0.2"), z))]
    [] s.kind = "rosen" ->
         LET w == Opt(s, "w", FInt(100)) sc == Opt(s, "scale", FInt(1))
             fwd(j) == IF j < n THEN LET r == FSub(x[j + 1], FMul(x[j], x[j]))
                                     IN FSub(FMul(FMul(FMul(-4, w), r), x[j]), FMul(2, FSub(1, x[j])))
                       ELSE FInt(0)
             bwd(j) == IF j > 1 THEN FMul(FMul(2, w), FSub(x[j], FMul(x[j - 1], x[j - 1]))) ELSE FInt(0)
         IN [j \in 1..n |-> FMul(sc, FAdd(fwd(j), bwd(j)))]
    [] s.kind = "wavy" -> [j \in 1..n |-> FAdd(FMul(FMul(s.a, s.w), FCos(FAdd(FMul(s.w, x[j]), FInt(j - 1)))),
                                               FSub(x[j], s.p[j]))]
    [] s.kind = "exp" -> [j \in 1..n |-> LET t0 == FMul(s.a[j], x[j])
                                             t == FMax(FInt(-50), FMin(FInt(50), t0))
                                         IN IF FEq(t, t0) THEN FMul(s.a[j], FSub(FExp(t), FMul(QHALF, FExp(FMul(FNeg(QHALF), t)))))
                                            ELSE FInt(0)]
    [] s.kind = "const" -> Zero(n)
    [] OTHER -> Zero(n)
=============================================================================
