------------------------------ MODULE MCZeros ------------------------------
(***************************************************************************)
(* The root finders from every start of a small set, for every polynomial  *)
(* with small coefficients; and bisection of every sign function on a      *)
(* small grid.  The initial states double as inputs for the real code.     *)
(***************************************************************************)
EXTENDS Zeros, Json

CONSTANTS Degree, Size, Emitting

Coeffs == {"-2", "-1", "0", "1", "2"}
Starts == {"-3", "-1", "0", "1/2", "2"}
Polys == {c \in [1 .. Degree + 1 -> Coeffs] : \E i \in 2 .. Degree + 1 : c[i] # "0"}
Tol == "1e-6"
Grid == 0 .. Size
SignFs == [Grid -> {-1, 0, 1}]

VARIABLES mode, cf, mx, st, l, r
vars == <<mode, cf, mx, st, l, r>>

NoSt == [x |-> "0", it |-> 0, out |-> "", root |-> "nan"]

Init ==
  \/ /\ mode \in {"newton", "halley"} /\ cf \in Polys /\ mx \in {1, 3, 8}
     /\ \E x \in Starts : st = [NoSt EXCEPT !.x = x]
     /\ l = 0 /\ r = 0
     /\ Emitting => PrintT("TRANS " \o ToJson([m |-> mode, c |-> cf, maxiter |-> mx, x |-> st.x, x1 |-> ""]))
  \/ /\ mode = "secant" /\ cf \in Polys /\ mx \in {1, 3, 8}
     /\ \E x \in Starts, y \in Starts : x # y /\ st = SecantStart(cf, x, y)
          /\ (Emitting => PrintT("TRANS " \o ToJson([m |-> mode, c |-> cf, maxiter |-> mx, x |-> x, x1 |-> y])))
     /\ l = 0 /\ r = 0
  \/ /\ mode = "bisect" /\ cf \in SignFs /\ mx = Size
     /\ \E a \in {0, 1}, b \in {1, Size} : l = a /\ r = b
     /\ st = [NoSt EXCEPT !.out = BisectStart(cf, l, r)]
     /\ Emitting => PrintT("TRANS " \o ToJson([m |-> mode, sg |-> [i \in 1 .. Size + 1 |-> cf[i - 1]], l |-> l, r |-> r]))

Iterate ==
  /\ st.out = "" /\ mode \in {"newton", "halley", "secant"}
  /\ st' = IF mode = "secant" THEN SecantNext(cf, Tol, "0", mx, st) ELSE NewtonNext(mode, cf, Tol, "0", mx, st)
  /\ UNCHANGED <<mode, cf, mx, l, r>>

Halve ==
  /\ mode = "bisect" /\ st.out = "run" /\ r - l > 1
  /\ LET n == BisectNext(cf, l, r) IN l' = n[1] /\ r' = n[2]
  /\ UNCHANGED <<mode, cf, mx, st>>

Next == Iterate \/ Halve
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Limited == mode # "bisect" => st.it <= mx
\* what is reported as a root was a zero, or the last step was within tolerance
RootsAreRoots ==
  (mode \in {"newton", "halley"} /\ st.out = "ok") =>
     \/ REq(P(cf, st.root), "0")
     \/ RLe(RAbs(Step(mode, cf, st.x)), Tol)
\* equal, up to the precision the arithmetic is limited to
Same(a, b) == RLe(RAbs(RSub(a, b)), RMul("1e-90", RAdd(RAbs(a), RAbs(b))))
\* Newton's point is where the tangent vanishes; the secant's where the chord does
TangentVanishes ==
  (mode = "newton" /\ st.out = "" /\ ~REq(D(cf, st.x), "0")) =>
     Same(P(cf, st.x), RMul(D(cf, st.x), NewtonStep(cf, st.x)))
HalleyIsHalley ==   \* 2 f f' / (2 f'^2 - f f'')
  (mode = "halley" /\ st.out = "" /\ ~REq(D(cf, st.x), "0") /\ RLt(RAbs(Adj(cf, st.x)), "1")) =>
     LET f == P(cf, st.x) d == D(cf, st.x) e == D2(cf, st.x)
     IN Same(RMul(HalleyStep(cf, st.x), RSub(RMul("2", RMul(d, d)), RMul(f, e))), RMul("2", RMul(f, d)))
LinearAtOnce ==
  (mode \in {"newton", "secant"} /\ st.out = "ok" /\ \A i \in DOMAIN cf : i > 2 => cf[i] = "0") =>
     REq(P(cf, st.root), "0") /\ st.it <= 2
\* the bracket always holds a sign change (or a zero), and ends at neighbours
Bracketed ==
  (mode = "bisect" /\ st.out = "run") =>
     /\ cf[l] # 0 /\ (cf[r] = 0 \/ cf[l] = - cf[r])
     /\ l < r
Refused == (mode = "bisect" /\ st.out = "refuse") => (l >= r \/ (cf[l] = cf[r] /\ cf[l] # 0))
=============================================================================
