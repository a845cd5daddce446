------------------------------ MODULE KernelMC ------------------------------
(* The estimators specified have the properties stated: exact on samples,   *)
(* within the range of the samples used, solution of their linear systems.  *)
EXTENDS Kernel, TLC
CONSTANTS Vals, Bases
V3 == {-2, 0, 3}
V2 == {-2, 3}
VARIABLES c, q
Line == {<<x, 0, 0>> : x \in {0, 1, 3}} \cup {<<1, 1, 0>>}
Subsets == {S \in SUBSET Line : Cardinality(S) \in 1..3}
Init == /\ \E S \in Subsets : \E v \in [1..3 -> Vals] :
              c = [p |-> SeqOf(S), v |-> [i \in 1..Cardinality(S) |-> v[i]]]
        /\ q \in Line
Next == UNCHANGED <<c, q>>
Spec == Init /\ [][Next]_<<c, q>>
All == DOMAIN c.p
Results == {5 * i : i \in -44..62} \cup {Undef}
\* weighted mean with inverse distances
Means == \A p \in 0..3, k \in {1, 3} :
  LET ds == Dists(c, q)
      ok == {<<r, n>> : r \in Results, n \in 0..3}
      good == {x \in ok : IdwOk(c, q, k, -1, p, FALSE, x)}
  IN Settled(ds, k) =>
     LET S == Nearest(ds, k) IN
     /\ good # {}
     /\ \A x \in good : /\ x[1] # Undef /\ x[2] \in 1..Cardinality(S)
                        /\ 100 * Least(c.v, S) - 1 <= x[1] /\ x[1] <= 100 * Most(c.v, S) + 1
     /\ \A i \in S : ds[i] = 0 => \A x \in good : x = <<100 * c.v[i], 1>>
     /\ Least(c.v, S) = Most(c.v, S) => \A x \in good : Near(x[1], 100 * Least(c.v, S), 1)
\* windows: 1 at the center, fading, never negative but for flat_top
Names == {"boxcar", "hamming", "blackman", "nuttall", "blackman_harris", "flat_top",
          "lanczos", "parzen", "parzen_swot"}
Grid == {100 * i : i \in 0..100}
Windows == \A f \in Names :
  /\ Near(Weight(f, 0, 0, 100, 5000), 30000, 320)
  /\ f # "flat_top" => \A x \in Grid : Weight(f, x, 0, 100, 5000) \in -60..30060
  /\ f \notin {"flat_top"} =>
        \A x \in Grid : x + 100 \in Grid =>
           Weight(f, x + 100, 0, 100, 5000) <= Weight(f, x, 0, 100, 5000) + 60
  /\ \A x \in {10100, 20000} : f \in {"boxcar", "hamming", "blackman", "nuttall"} =>
           Weight(f, x, 0, 100, 5000) = 0
\* kernels: covariances decrease from their value at 0
Covs == {"matern_12", "matern_32", "matern_52", "cauchy", "spherical", "gaussian", "linear_cov"}
Kernels == \A f \in Covs : \A e2 \in {4, 9} :
  /\ Near(Phi(f, 0, e2), 100000, 10)
  /\ \A d \in 0..30 : Phi(f, d + 1, e2) <= Phi(f, d, e2) /\ Phi(f, d, e2) >= 0
\* the closed form is the solution: at a node, its value
Closed == \A f \in Bases : \A b2 \in {2, 8} : \A n \in 2..4 : \A v \in [1..n -> Vals] : \A j \in 1..n :
  LET r2 == [i \in 1..n |-> IF i = j THEN 0 ELSE b2]
      e2 == IF f = "linear_cov" THEN 32 ELSE 4
      M == Most([i \in 1..n |-> Abs(v[i])], 1..n)
  IN /\ ClosedOk(f, e2, 0, v, r2, b2, 100 * v[j])
     /\ ~ClosedOk(f, e2, 0, v, r2, b2, 100 * v[j] + 12 + 20 * M) 
        \/ 10 * Abs(Phi(f, 0, e2) - Phi(f, b2, e2)) < Max2(Phi(f, 0, e2), Phi(f, b2, e2))
        \/ 10 * Abs(Phi(f, 0, e2) + (n - 1) * Phi(f, b2, e2)) < Max2(Phi(f, 0, e2), Phi(f, b2, e2))
\* tables
Tables ==
  /\ ExpNeg(0) = 100000
  \* exp(-(i + j)) = exp(-i) * exp(-j)
  /\ \A i, j \in 0..40 : Near(ExpNeg(1000 * (i + j)), Scaled((ExpNeg(1000 * i) \div 10) * (ExpNeg(1000 * j) \div 10), 1000, 1), 25)
  /\ \A i \in 0..1000 : Near(ExpNeg(100 * i + 100) * 101, ExpNeg(100 * i) * 100, 500 + ExpNeg(100 * i) \div 100)
  /\ Ln(1) = 0
  /\ \A i, j \in 1..20 : Near(Ln(i * j), Ln(i) + Ln(j), 2)
  /\ \A i \in 1..1999 : Near(Ln(i + 1) - Ln(i), 10000 \div i, 1 + 5000 \div (i * i))
ASSUME Windows
ASSUME Kernels
ASSUME Closed
ASSUME Tables
Inv == Means
=============================================================================
