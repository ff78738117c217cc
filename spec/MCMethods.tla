----------------------------- MODULE MCMethods -----------------------------
(***************************************************************************)
(* The formulas of Methods.tla have the order of accuracy they promise:    *)
(* every order condition, for every rooted tree, is evaluated exactly.     *)
(*                                                                         *)
(* The state machine goes over (method, claim).  Trees: a rooted tree is   *)
(* [n, kids]: its order and the list of its subtrees, as indices into the  *)
(* list of all trees; generated order by order up to order 8 (200 trees).  *)
(***************************************************************************)
EXTENDS Steps, TLC

CONSTANT MaxOrder

\* sequences of tree indices, non-increasing, all <= top, of total order n
RECURSIVE Forests(_, _, _)
Forests(trees, n, top) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<i>> \o fo : fo \in Forests(trees, n - trees[i].n, i)} :
              i \in {j \in 1 .. top : trees[j].n <= n}}

RECURSIVE SeqOfSet(_)
SeqOfSet(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SeqOfSet(X \ {x})

RECURSIVE TreesUpTo(_)
TreesUpTo(n) ==
  IF n = 1 THEN <<[n |-> 1, kids |-> <<>>]>>
  ELSE LET old == TreesUpTo(n - 1)
       IN old \o SeqOfSet({[n |-> n, kids |-> fo] : fo \in Forests(old, n - 1, Len(old))})

Trees == TreesUpTo(MaxOrder)

\* gamma of the trees, in order
RECURSIVE GammasUpTo(_)
GammasUpTo(k) ==
  IF k = 0 THEN <<>>
  ELSE LET g == GammasUpTo(k - 1)
           tr == Trees[k]
           RECURSIVE prod(_)
           prod(i) == IF i = 0 THEN ToString(tr.n) ELSE RMul(prod(i - 1), g[tr.kids[i]])
       IN Append(g, prod(Len(tr.kids)))

Gammas == GammasUpTo(Len(Trees))

\* elementary weights of the stages, for a matrix A
RECURSIVE PhisUpTo(_, _)
PhisUpTo(A, k) ==
  IF k = 0 THEN <<>>
  ELSE LET g == PhisUpTo(A, k - 1)
           tr == Trees[k]
           RECURSIVE prod(_)
           prod(i) == IF i = 0 THEN [s \in DOMAIN A |-> "1"] ELSE VHad(prod(i - 1), MVec(A, g[tr.kids[i]]))
       IN Append(g, prod(Len(tr.kids)))

Small(x, eps) == RLe(RAbs(x), eps)

\* defect of weights b for each tree of order <= p; theta: at an intermediate point
OrderHolds(A, b, p, theta, eps) ==
  LET phis == PhisUpTo(A, Len(Trees))
  IN \A k \in DOMAIN Trees :
       Trees[k].n <= p =>
         Small(RSub(VDot(b, phis[k]), RDiv(RPow(theta, Trees[k].n), Gammas[k])), eps)

\* row sums, triangular form
WellFormed(m) ==
  /\ \A i \in DOMAIN m.A : Small(RSub(RSum(m.A[i]), m.C[i]), "1e-16")
  /\ \A i \in DOMAIN m.A : \A j \in DOMAIN m.A : j >= i => REq(m.A[i][j], "0")

\* the tableau with the derivative at the new point as one more stage
ExtA(m) == Append([i \in DOMAIN m.A |-> Append(m.A[i], "0")], Append(m.B, "0"))

Eps(name) == IF name = "DOP853" THEN "1e-15" ELSE "0"

\* weights of the dense output at theta: sum_j P[i][j] theta^j
DenseWeights(m, theta) ==
  [i \in DOMAIN m.P |-> VDot(m.P[i], [j \in DOMAIN m.P[i] |-> RPow(theta, j)])]

Thetas == {"1/7", "1/2", "5/6", "1"}

(***************************************************************************)
(* DOP853's dense output: weights over the 16 stages at theta.             *)
(* y(theta) = y0 + F1 th + F2 th(1-th) + F3 th^2(1-th) + ...  where        *)
(* F1 = dy, F2 = h f0 - dy, F3 = 2 dy - h (f1 + f0), F4.. = h D K          *)
(***************************************************************************)
Pad16(v) == [i \in 1 .. 16 |-> IF i <= Len(v) THEN v[i] ELSE "0"]
Unit16(j) == [i \in 1 .. 16 |-> IF i = j THEN "1" ELSE "0"]

DopF ==
  LET dy == Pad16(DOP_B)
  IN <<dy, VSub(Unit16(1), dy), VSub(VScale("2", dy), VAdd(Unit16(1), Unit16(13)))>>
     \o [i \in 1 .. 4 |-> DOP_D[i]]

DopDenseWeights(th) == DopHorner(7, th, [i \in 1 .. 16 |-> "0"], DopF)

(***************************************************************************)
(* Linear multistep methods: exact for polynomials up to degree p, points  *)
(* at 1-k .. 0, the new one at 1.                                          *)
(***************************************************************************)
Node(m, i) == ToString(i - Len(m.A))

MSExact(m, j) ==
  LET x(i) == RPow(Node(m, i), j)
      dx(i) == IF j = 0 THEN "0" ELSE RMul(ToString(j), RPow(Node(m, i), j - 1))
      rhs == RSub(RAdd(RSum([i \in DOMAIN m.B |-> RMul(m.B[i], dx(i))]), RMul(m.Bn, ToString(j))),
                  RSum([i \in DOMAIN m.A |-> RMul(m.A[i], x(i))]))
  IN REq(rhs, "1")

MSHolds(m, p) == \A j \in 0 .. p : MSExact(m, j)

-----------------------------------------------------------------------------
Claims ==
  {<<n, "formed">> : n \in RKNames} \cup {<<n, "order">> : n \in RKNames}
    \cup {<<n, "not more">> : n \in RKNames \ {"DOP853"}}
    \cup {<<n, "embedded">> : n \in AdaptiveNames} \cup {<<n, "dense">> : n \in AdaptiveNames}
    \cup {<<n, "multistep">> : n \in MSNames} \cup {<<n, "multistep not more">> : n \in MSNames}

Holds(cl) ==
  LET name == cl[1] what == cl[2]
  IN CASE what = "formed" -> WellFormed(RK(name))
       [] what = "order" -> OrderHolds(RK(name).A, RK(name).B, RK(name).order, "1", Eps(name))
       [] what = "not more" -> ~OrderHolds(RK(name).A, RK(name).B, RK(name).order + 1, "1", Eps(name))
       [] what = "embedded" ->
            IF name = "DOP853"
              THEN /\ OrderHolds(RK(name).A, DOP_BHat, 3, "1", "1e-15")
                   /\ OrderHolds(ExtA(RK(name)), VSub(Append(DOP_B, "0"), DOP_E5), 5, "1", "1e-15")
              ELSE LET m == RK(name) IN
                   /\ OrderHolds(ExtA(m), VSub(Append(m.B, "0"), m.E), m.q, "1", "0")
                   /\ ~OrderHolds(ExtA(m), VSub(Append(m.B, "0"), m.E), m.q + 1, "1", "0")
       [] what = "dense" ->
            IF name = "DOP853"
              THEN \A th \in Thetas : OrderHolds(DOP_A, DopDenseWeights(th), 7, th, "1e-14")
              ELSE LET m == RK(name) IN \A th \in Thetas :
                     OrderHolds(ExtA(m), DenseWeights(m, th), IF name = "RungeKutta23" THEN 3 ELSE 4, th, "1e-14")
       [] what = "multistep" -> MSHolds(MS(name), MS(name).order)
       [] what = "multistep not more" -> ~MSHolds(MS(name), MS(name).order + 1)

VARIABLES todo, checked

Init == todo = Claims /\ checked = <<"", "">>
Next == \E cl \in todo : checked' = cl /\ todo' = todo \ {cl} /\ cl = (CHOOSE x \in todo : TRUE)
Spec == Init /\ [][Next]_<<todo, checked>>

ClaimHolds == checked = <<"", "">> \/ Holds(checked)
TreeCount == MaxOrder = 8 => Len(Trees) = 200
=============================================================================
