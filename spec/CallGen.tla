------------------------------ MODULE CallGen ------------------------------
(* Inputs for the components (subproblem solvers, updates, polynomials and  *)
(* interpolation sets), enumerated by TLC: exhaustively over small integers *)
(* for dimension one and two, by random subsets of the same spaces above.   *)
(* Every state is one call; it is printed and executed by harness/calls.py, *)
(* and the recorded call is checked by CallTrace.tla.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Json, IOUtils

Suite == IOEnv.SUITE
N     == atoi(IOEnv.COUNT)      \* how many inputs of every sampled space

VARIABLE inp

\* N elements of a space, or all when there are no more
Some(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Vecs(n, S) == [1..n -> S]
\* symmetric matrix from its n(n+1)/2 upper entries
Pos(n, i, j) == LET a == IF i < j THEN i ELSE j  b == IF i < j THEN j ELSE i IN (a - 1) * n - ((a - 1) * (a - 2)) \div 2 + (b - a + 1)
Sym(n, w) == [i \in 1..n |-> [j \in 1..n |-> w[Pos(n, i, j)]]]
Tri(n) == (n * (n + 1)) \div 2
Cut(w, a, k) == [j \in 1..k |-> w[a + j]]
Rows(w, a, m, n) == [i \in 1..m |-> [j \in 1..n |-> w[a + (i - 1) * n + j]]]
Full(n) == ((n + 1) * (n + 2)) \div 2
Sq(x) == x * x

-----------------------------------------------------------------------------
Radii == {"0.25", "1", "3"}
Odd   == {"1e-10", "1e-5", "1e5", "0.7"}
TrmsOf(n, w, del) == [k |-> "trms", g |-> Cut(w, 0, n), H |-> Sym(n, Cut(w, n, Tri(n))), del |-> del]
TrmsSet ==
  LET sp(n, S) == Vecs(n + Tri(n), S) IN
  {TrmsOf(1, w, d) : w \in sp(1, -3..3), d \in Radii \cup Odd}
  \cup {TrmsOf(2, w, d) : w \in Some(N, sp(2, {-2, -1, 0, 1, 2})), d \in Radii}
  \cup {TrmsOf(2, w, d) : w \in Some(N \div 4, sp(2, -5..5)), d \in Odd}
  \cup {TrmsOf(3, w, d) : w \in RandomSubset(N, sp(3, -2..2)), d \in {"1", "3"}}
  \cup {TrmsOf(3, w, d) : w \in RandomSubset(N \div 2, sp(3, {-4, 0, 3})), d \in {"0.25", "1e5"}}
  \cup {TrmsOf(4, w, d) : w \in RandomSubset(N \div 2, sp(4, -2..2)), d \in {"0.5", "4"}}
  \cup {TrmsOf(6, w, d) : w \in RandomSubset(N \div 4, sp(6, {-1, 0, 0, 1, 2})), d \in {"1", "20"}}

TcgOf(n, w, del, mi) == [k |-> "tcg", b |-> Cut(w, 0, n), A |-> Sym(n, Cut(w, n, Tri(n))), del |-> del, maxit |-> mi]
TcgSet ==
  LET sp(n, S) == Vecs(n + Tri(n), S) IN
  {TcgOf(1, w, d, 20) : w \in sp(1, -3..3), d \in Radii}
  \cup {TcgOf(2, w, d, 40) : w \in Some(N, sp(2, {-2, -1, 0, 1, 2})), d \in Radii}
  \cup {TcgOf(2, w, d, mi) : w \in Some(N \div 4, sp(2, 0..4)), d \in {"100"}, mi \in {1, 2, 40}}
  \cup {TcgOf(3, w, d, 60) : w \in RandomSubset(N, sp(3, -2..3)), d \in {"1", "30"}}
  \cup {TcgOf(4, w, d, 80) : w \in RandomSubset(N \div 2, sp(4, -1..3)), d \in {"2", "50"}}

\* diagonally dominant (positive definite) systems: the interior solution has to be found
DomOf(n, w, del) == [k |-> "tcg", b |-> Cut(w, 0, n), del |-> del, maxit |-> 20 * n,
                     A |-> LET M == Sym(n, Cut(w, n, Tri(n))) IN
                           [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 2 * n + 1 + M[i][i] ELSE M[i][j]]]]
TcgDom == UNION {{DomOf(n, w, d) : w \in RandomSubset(N, Vecs(n + Tri(n), -2..2)), d \in {"0.5", "1000"}} : n \in {2, 3, 4, 5}}

-----------------------------------------------------------------------------
BcOf(n, w, del) == [k |-> "trmsbc", g |-> Cut(w, 0, n), H |-> Sym(n, Cut(w, n, Tri(n))), del |-> del,
                    lb |-> [j \in 1..n |-> -Sq(w[n + Tri(n) + j])], ub |-> [j \in 1..n |-> Sq(w[2 * n + Tri(n) + j])]]
BcSet ==
  LET sp(n, S) == Vecs(3 * n + Tri(n), S) IN
  {BcOf(1, w, d) : w \in sp(1, -2..2), d \in {"0.5", "3"}}
  \cup {BcOf(2, w, d) : w \in RandomSubset(2 * N, sp(2, -2..2)), d \in {"0.5", "2", "10"}}
  \cup {BcOf(3, w, d) : w \in RandomSubset(N, sp(3, -2..2)), d \in {"0.5", "3"}}
  \cup {BcOf(4, w, d) : w \in RandomSubset(N \div 2, sp(4, -2..2)), d \in {"1", "5"}}

BllsOf(m, n, w) == [k |-> "blls", A |-> Rows(w, 0, m, n), b |-> Cut(w, m * n, m),
                    lb |-> [j \in 1..n |-> IF w[m * n + m + j] = 3 THEN "-inf" ELSE ToString(-Sq(w[m * n + m + j]))],
                    ub |-> [j \in 1..n |-> IF w[m * n + m + n + j] = 3 THEN "inf" ELSE ToString(Sq(w[m * n + m + n + j]))]]
BllsSet ==
  LET sp(m, n) == Vecs(m * n + m + 2 * n, {-2, -1, 0, 1, 3}) IN
  UNION {{BllsOf(mn[1], mn[2], w) : w \in RandomSubset(N, sp(mn[1], mn[2]))} :
         mn \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<4, 3>>, <<2, 3>>, <<4, 4>>, <<6, 5>>}}

-----------------------------------------------------------------------------
BfgsOf(n, w, first) == [k |-> "bfgs", first |-> first, s |-> Cut(w, 0, n), y |-> Cut(w, n, n),
                        \* B B' + I for an integer B
                        H |-> LET B == Rows(w, 2 * n, n, n) IN
                              [i \in 1..n |-> [j \in 1..n |-> (IF i = j THEN 1 ELSE 0) +
                                 LET RECURSIVE S(_) S(l) == IF l = 0 THEN 0 ELSE B[i][l] * B[j][l] + S(l - 1) IN S(n)]]]
BfgsSet ==
  UNION {{BfgsOf(n, w, f) : w \in RandomSubset(N, Vecs(2 * n + n * n, -2..2)), f \in {0, 1}} : n \in {2, 3, 4}}
  \cup {BfgsOf(1, w, f) : w \in Vecs(3, -3..3), f \in {0, 1}}
ConvOf(n, w) == [k |-> "convex", A |-> Sym(n, w)]
CondOf(n, w, thr) == [k |-> "cond", A |-> Sym(n, w), thr |-> thr]
MatSet ==
  {ConvOf(1, w) : w \in Vecs(1, -3..3)} \cup {ConvOf(2, w) : w \in Some(N, Vecs(3, -4..4))}
  \cup {ConvOf(3, w) : w \in RandomSubset(N, Vecs(6, -2..2))} \cup {ConvOf(5, w) : w \in RandomSubset(N \div 2, Vecs(15, -2..2))}
  \cup {CondOf(2, w, th) : w \in Some(N, Vecs(3, -3..3)), th \in {"1e10", "3"}}
  \cup {CondOf(3, w, th) : w \in RandomSubset(N, Vecs(6, -2..2)), th \in {"1e10", "5"}}
  \cup {CondOf(4, w, th) : w \in RandomSubset(N \div 2, Vecs(10, -2..2)), th \in {"1e10"}}

-----------------------------------------------------------------------------
\* polynomials: n, number of coefficients, coefficients, point, base, scale (a power of two), shift
PolyOf(n, p, w, sc, sh) == [k |-> "poly", P |-> Cut(w, 0, p), x |-> Cut(w, p, n), base |-> Cut(w, p + n, n), sc |-> sc, shift |-> sh]
PolySet ==
  UNION {{PolyOf(n, p, w, sc, sh) : w \in RandomSubset(IF n <= 3 THEN N \div 4 ELSE N \div 8, Vecs(p + 2 * n, -3..3)),
                                    sc \in {"0.5", "4"}, sh \in {0, 1}} :
         <<n, p>> \in UNION {{<<m, r>> : r \in 1..Full(m)} : m \in 1..4}}
  \cup {PolyOf(n, Full(n), w, sc, 1) : n \in {5, 6}, w \in {[j \in 1..99 |-> v[j - 17 * (j \div 17) + 1]] : v \in RandomSubset(N \div 4, Vecs(17, -4..4))}, sc \in {"0.5"}}

\* interpolation sets: distinct points, first one the base
\* coordinates are read off a permutation-free code: point j is determined by w[..]
\* the size of the set (models of shifted and scaled sets do not depend on it)
Mag(q, sh) == IF sh = 0 THEN "1" ELSE CASE q = -2 -> "0.0001220703125" [] q = 2 -> "1024" [] OTHER -> "1"
SetOf(n, p, w, wm, sh) == [k |-> "set", mag |-> Mag(w[p * n + 1], sh), n |-> n, Y |-> Rows(w, 0, p, n), fY |-> Cut(w, p * n, p), x |-> Cut(w, p * n + p, n), wm |-> wm, shift |-> sh]
Distinct(r) == \A a, b \in 1..Len(r.Y) : a # b => r.Y[a] # r.Y[b]
SetSet ==
  {r \in UNION {{SetOf(np[1], np[2], w, wm, sh) :
                   w \in RandomSubset(IF np[1] = 1 THEN N \div 2 ELSE N, Vecs(np[2] * np[1] + np[2] + np[1], -2..2)), wm \in {0, 1, 2, 3}, sh \in {0, 1}} :
                np \in {<<1, 2>>, <<1, 3>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 8>>, <<3, 4>>, <<3, 6>>, <<3, 7>>, <<3, 10>>}} : Distinct(r)}

\* sets with a new point x, a radius, a choice of criterion and a sub-set of candidates
GeoOf(n, p, w, wm, sh) ==
  LET o == p * n + p + n IN
  [k |-> "geo", mag |-> Mag(w[p * n + 1], sh), n |-> n, Y |-> Rows(w, 0, p, n), fY |-> Cut(w, p * n, p), x |-> Cut(w, p * n + p, n), wm |-> wm, shift |-> sh,
   del |-> CASE w[o + 1] < 0 -> "0.5" [] w[o + 1] = 0 -> "1" [] OTHER -> "3", far |-> IF w[o + 1] = 1 THEN "1" ELSE "2",
   crit |-> CASE w[o + 2] < 0 -> "weighted" [] w[o + 2] = 0 -> "standard" [] OTHER -> "distance", succ |-> IF w[o + 3] > 0 THEN 1 ELSE 0,
   close |-> IF w[o + 3] = 0 THEN "1.2" ELSE "2", thr |-> IF w[o + 2] = 2 THEN "1" ELSE "0.001",
   j |-> 1 + ((w[o + 1] + w[o + 2] + w[o + 3] + 6) \div 3) - (p - 1) * ((((w[o + 1] + w[o + 2] + w[o + 3] + 6) \div 3)) \div (p - 1)),
   part |-> w[o + 3] + 2]
GeoSet ==
  {r \in UNION {{GeoOf(np[1], np[2], w, wm, sh) :
                   w \in RandomSubset(IF np[1] = 1 THEN N \div 4 ELSE N \div 2, Vecs(np[2] * np[1] + np[2] + np[1] + 3, -2..2)), wm \in {0, 1, 2}, sh \in {0, 1}} :
                np \in {<<1, 2>>, <<1, 3>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<3, 4>>, <<3, 6>>, <<3, 10>>}} : Distinct(r)}

-----------------------------------------------------------------------------
Inputs == CASE Suite = "trms" -> TrmsSet
            [] Suite = "tcg" -> TcgSet \cup TcgDom
            [] Suite = "trmsbc" -> BcSet
            [] Suite = "blls" -> BllsSet
            [] Suite = "bfgs" -> BfgsSet \cup MatSet
            [] Suite = "poly" -> PolySet
            [] Suite = "set" -> SetSet
            [] Suite = "geo" -> GeoSet

Init == inp \in Inputs
Next == UNCHANGED inp
Emit == PrintT("@I " \o ToJson(inp))
=============================================================================
