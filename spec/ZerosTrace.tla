----------------------------- MODULE ZerosTrace -----------------------------
(***************************************************************************)
(* Checks recorded runs of the real root finders against Zeros.tla.        *)
(*                                                                         *)
(* The points where the function was evaluated were recorded (xs): they    *)
(* are the steps of the machine.  The specification follows them: at each  *)
(* point it knows, in exact arithmetic, what the machine may do next, and  *)
(* compares.  Where rounding may decide either way, both ways are allowed. *)
(***************************************************************************)
EXTENDS Zeros, Problem, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sn,
          i,     \* iteration
          st     \* [p0, p1]: points of the secant
vars == <<sn, i, st>>

S == Sessions[sn]
Xs == S.xs

U == "1e-14"
\* bounds of the rounding errors of f, f', f'' at x
NF(x) == RMul(U, P(Absolute(S.c), RAbs(x)))
ND(x) == RMul(U, P(Absolute(Deriv(S.c)), RAbs(x)))
ND2(x) == RMul(U, P(Absolute(Deriv(Deriv(S.c))), RAbs(x)))

Slack(x) == RMul("1e-13", RAdd(RAbs(x), "1e-300"))

(***************************************************************************)
(* Newton and Halley at x: the next point, with the error it may have.     *)
(***************************************************************************)
StepErr(x) ==
  LET f == RAbs(P(S.c, x))
      d == RAbs(D(S.c, x))
      s == RDiv(f, d)
      e1 == RAdd(RDiv(NF(x), d), RMul(s, RDiv(ND(x), d)))
      a == Adj(S.c, x)
      k == RSub("1", a)
      da == RAdd(RAdd(RMul(e1, RDiv(RAbs(D2(S.c, x)), d)), RMul(s, RDiv(ND2(x), d))), RMul(RAdd(RAbs(a), "1e-3"), RAdd(RDiv(ND(x), d), U)))
  IN IF S.m # "halley" \/ ~RLt(RAbs(a), "1") THEN RMul("4", e1)
     ELSE RMul("4", RAdd(RDiv(e1, RAbs(k)), RDiv(RMul(s, da), RMul(k, k))))

DerivMaybeZero(x) == RLe(RAbs(D(S.c, x)), RMul("100", ND(x)))
\* Halley's correction is switched at |adj| = 1, and singular there
Delicate(x) == S.m = "halley" /\ ~DerivMaybeZero(x) /\ RLt(RAbs(RSub(RAbs(Adj(S.c, x)), "1")), "1e-6")

NextPoint(x) == RSub(x, Step(S.m, S.c, x))

NearPoint(p, x) == DerivMaybeZero(x) \/ Delicate(x) \/ RLe(RAbs(RSub(p, NextPoint(x))), RAdd(StepErr(x), Slack(RMax(RAbs(x), RAbs(p)))))

\* a multiple of 1/64 small enough for polynomials to be evaluated without rounding
Whole(x) == LET b == RAdd(x, "4503599627370496") IN REq(RDbl(b), b)
Simple(x) == RIsNum(x) /\ RLe(RAbs(x), "64") /\ Whole(RMul(x, "64"))
Easy == Len(S.c) <= 5 /\ \A n \in DOMAIN S.c : RLe(RAbs(S.c[n]), "16") /\ Whole(RMul(S.c[n], "4"))

ZeroMay(x) == RLe(RAbs(P(S.c, x)), NF(x))
ZeroMust(x) == Easy /\ Simple(x) /\ REq(P(S.c, x), "0")
DerivMay(x) == RLe(RAbs(D(S.c, x)), ND(x))
DerivMust(x) == Easy /\ Simple(x) /\ REq(D(S.c, x), "0")

StepSize(x) == RAbs(RSub(NextPoint(x), x))
Limit(x) == RAdd(S.tol, RMul(S.rtol, RAbs(x)))
ConvMay(x) == DerivMaybeZero(x) \/ Delicate(x) \/ RLe(RSub(StepSize(x), RAdd(StepErr(x), Slack(x))), Limit(x))
ConvMust(x) == ~DerivMaybeZero(x) /\ ~Delicate(x) /\ RLe(RAdd(StepSize(x), RAdd(StepErr(x), Slack(x))), Limit(x))

\* how the run ended
Good == S.kind = "ok" /\ S.conv # "False" /\ (S.conv = "True" \/ ~S.warned)
Bad == \/ S.kind = "RuntimeError" /\ (S.disp \/ S.fn = "j_newton")
       \/ S.kind = "ok" /\ ~S.disp /\ (S.conv = "False" \/ (S.conv = "" /\ S.warned)) /\ S.fn = "newton"
IterationsAre(n) == S.it = "" \/ S.it = ToString(n)

NewtonClause ==
  LET x == Xs[i]
      last == i = Len(Xs)
  IN IF i = 1 /\ ~REq(x, S.x0) THEN "does not start at x0"
     ELSE IF ~RIsNum(x) THEN ""    \* left the numbers: nothing is promised
     ELSE IF ~last THEN
       IF ZeroMust(x) THEN "goes on after a root was found"
       ELSE IF DerivMust(x) THEN "goes on where the derivative is zero"
       ELSE IF ConvMust(x) THEN "goes on after convergence"
       ELSE IF i >= S.maxiterN THEN "exceeds the iteration limit"
       ELSE IF ~NearPoint(Xs[i + 1], x) THEN "an iteration is not the method's"
       ELSE ""
     ELSE
       LET asZero == ZeroMay(x) /\ Good /\ REq(S.p, x)
           asConv == ~ZeroMust(x) /\ ~DerivMust(x) /\ ConvMay(x) /\ Good /\ NearPoint(S.p, x)
           asDeriv == ~ZeroMust(x) /\ DerivMay(x) /\ Bad
           asLimit == ~ZeroMust(x) /\ ~ConvMust(x) /\ i = S.maxiterN /\ Bad
       IN IF asZero \/ asConv \/ asDeriv \/ asLimit
            THEN IF (asZero /\ IterationsAre(i - 1)) \/ ((asConv \/ asDeriv \/ asLimit) /\ IterationsAre(i)) THEN "" ELSE "reports a wrong number of iterations"
          ELSE IF S.kind = "ok" /\ S.conv # "False" /\ ~S.warned
            THEN IF ZeroMust(x) \/ ConvMust(x) THEN "returns another point than the root found" ELSE "reports convergence, but has not converged"
          ELSE IF Bad THEN (IF ZeroMust(x) \/ ConvMust(x) THEN "reports failure, but has converged" ELSE "gives up before the iteration limit")
          ELSE "failure is not reported as it should be: " \o S.kind

(***************************************************************************)
(* Secant.                                                                 *)
(***************************************************************************)
\* chord through the two points of st
Q0 == P(S.c, st.p0)
Q1 == P(S.c, st.p1)
SecErr(a, b) ==
  LET d == RAbs(RSub(P(S.c, a), P(S.c, b)))
      w == RAbs(RSub(a, b))
      n == RAdd(NF(a), NF(b))
      m == RMin(RAbs(P(S.c, a)), RAbs(P(S.c, b)))
  IN RMul("4", RAdd(RDiv(RMul(n, w), d), RDiv(RMul(RMul(m, w), n), RMul(d, d))))
Flat == RLe(RAbs(RSub(Q0, Q1)), RMul("4", RAdd(NF(st.p0), NF(st.p1))))
FlatMust == Easy /\ Simple(st.p0) /\ Simple(st.p1) /\ REq(Q0, Q1)
SecPoint == SecantPoint(st.p0, Q0, st.p1, Q1)
SecBound == RAdd(SecErr(st.p0, st.p1), Slack(RMax(RAbs(SecPoint), RMax(RAbs(st.p0), RAbs(st.p1)))))
NearSec(p) == Flat \/ RLe(RAbs(RSub(p, SecPoint)), SecBound)
SecSize == RAbs(RSub(SecPoint, st.p1))
SecMay == Flat \/ RLe(RSub(SecSize, SecBound), Limit(st.p1))
SecMust == ~Flat /\ RLe(RAdd(SecSize, SecBound), Limit(st.p1))

\* evaluations: the two starts, then one for each iteration but the last
SecantClause ==
  LET last == i = Len(Xs) - 1
      \* out of iterations, the last point evaluated or not
      spent == i = S.maxiterN /\ i = Len(Xs) - 2
  IN IF Len(Xs) < 2 \/ ~REq(Xs[1], S.x0) \/ (S.x1 # "" /\ ~REq(Xs[2], S.x1)) \/ REq(Xs[1], Xs[2])
       THEN "does not start at x0, x1"
     ELSE IF ~RIsNum(st.p0) \/ ~RIsNum(st.p1) THEN ""
     ELSE IF ~last THEN
       IF FlatMust THEN "goes on where the chord is flat"
       ELSE IF SecMust THEN "goes on after convergence"
       ELSE IF i >= S.maxiterN /\ ~spent THEN "exceeds the iteration limit"
       ELSE IF ~NearSec(Xs[i + 2]) THEN "an iteration is not the method's"
       ELSE IF spent THEN IF ~Bad THEN "reports convergence, but has not converged" ELSE IF IterationsAre(i) THEN "" ELSE "reports a wrong number of iterations"
       ELSE ""
     ELSE
       LET asFlat == Flat /\ Bad
           asConv == ~FlatMust /\ SecMay /\ Good /\ NearSec(S.p)
           asLimit == ~FlatMust /\ ~SecMust /\ i = S.maxiterN /\ Bad
       IN IF asFlat \/ asConv \/ asLimit THEN IF IterationsAre(i) THEN "" ELSE "reports a wrong number of iterations"
          ELSE IF S.kind = "ok" /\ S.conv # "False" /\ ~S.warned
            THEN IF SecMust THEN "returns another point than the root found" ELSE "reports convergence, but has not converged"
          ELSE IF Bad THEN (IF SecMust THEN "reports failure, but has converged" ELSE "gives up before the iteration limit")
          ELSE "failure is not reported as it should be: " \o S.kind

BadCall == (RLe(S.tol, "0") /\ S.fn = "newton") \/ (S.maxiterN < 1 /\ S.fn = "newton") \/ (S.m = "secant" /\ S.x1 # "" /\ REq(S.x0, S.x1))

ScalarClause ==
  IF BadCall THEN IF S.kind = "ValueError" THEN "" ELSE "accepts an invalid call: " \o S.kind
  ELSE IF S.kind = "ValueError" THEN "refuses a valid call"
  ELSE IF Xs = <<>> THEN "fails: " \o S.kind
  ELSE IF S.m = "secant" THEN SecantClause ELSE NewtonClause

ScalarMore == /\ ~BadCall
              /\ IF S.m = "secant" THEN i < Len(Xs) - 1 /\ i # S.maxiterN /\ RIsNum(st.p0) /\ RIsNum(st.p1) ELSE i < Len(Xs) /\ RIsNum(Xs[i])

(***************************************************************************)
(* newton for an array: each element follows the method's iteration from   *)
(* its own start until all have converged.  The correction of Halley's     *)
(* method is always made, the second start of the secant is close to the   *)
(* first, and there is no relative tolerance.                              *)
(***************************************************************************)
StepE(x) == IF S.m = "halley" THEN RDiv(NewtonStep(S.c, x), RSub("1", Adj(S.c, x))) ELSE NewtonStep(S.c, x)
ErrE(x) == IF S.m = "halley" THEN RMul("4", RAdd(RMul("1e-9", RAbs(StepE(x))), StepErr(x))) ELSE StepErr(x)
\* zero derivative, or a correction close to singular: left open
OpenE(x) == DerivMaybeZero(x) \/ (S.m = "halley" /\ RLe("0.99", Adj(S.c, x)))
NearE(p, x) == OpenE(x) \/ RLe(RAbs(RSub(p, RSub(x, StepE(x)))), RAdd(ErrE(x), Slack(RMax(RAbs(x), RAbs(p)))))
MayE(x) == OpenE(x) \/ RLe(RSub(RAbs(StepE(x)), RAdd(ErrE(x), Slack(x))), S.tol)
MustE(x) == ~OpenE(x) /\ RLt(RAdd(RAbs(StepE(x)), RAdd(ErrE(x), Slack(x))), S.tol)

EndE(good, may, must, near, at) ==
  IF S.kind = "RuntimeError" THEN IF must \/ at < S.maxiterN THEN "reports failure, but has converged" ELSE ""
  ELSE IF S.kind # "ok" THEN "fails: " \o S.kind
  ELSE IF ~near THEN "an element is not where the iteration leads"
  ELSE IF good /\ ~may THEN "reports convergence of an element that has not converged"
  ELSE IF S.conv = "False" /\ must THEN "reports failure of an element that has converged"
  ELSE ""

ElementClause ==
  LET x == Xs[i]
      sec == S.m = "secant"
      good == S.conv = "True" \/ (S.conv = "" /\ ~S.warned)
      second == RAbs(RSub(Xs[2], Xs[1]))
  IN IF i = 1 /\ ~REq(Xs[1], S.x0) THEN "does not start at x0"
     ELSE IF sec /\ Len(Xs) < 2 THEN "does not evaluate a second point"
     ELSE IF sec /\ i = 1 /\ ~(RLt("0", second) /\ RLe(second, RMul("1e-3", RAdd("1", RAbs(S.x0))))) THEN "the second point is not close to the first"
     ELSE IF ~RIsNum(x) \/ (sec /\ (~RIsNum(st.p0) \/ ~RIsNum(st.p1))) THEN ""
     ELSE IF sec THEN
       IF i = Len(Xs) - 1 THEN EndE(good, SecMay, SecMust, NearSec(S.p), i)
       ELSE IF i > S.maxiterN THEN "exceeds the iteration limit"
       ELSE IF i = Len(Xs) - 2 /\ i = S.maxiterN THEN EndE(good, SecMay, SecMust, NearSec(S.p) \/ NearSec(Xs[i + 2]), i)
       ELSE IF ~NearSec(Xs[i + 2]) THEN "an iteration is not the method's" ELSE ""
     ELSE IF i = Len(Xs) THEN
       \* (where the function is zero for all, the iteration ends on the spot)
       IF ZeroMay(x) /\ S.kind = "ok" /\ REq(S.p, x) THEN "" ELSE EndE(good, MayE(x), MustE(x), NearE(S.p, x), i)
     ELSE IF i >= S.maxiterN THEN "exceeds the iteration limit"
     ELSE IF ~NearE(Xs[i + 1], x) THEN "an iteration is not the method's" ELSE ""

ArrayClause ==
  IF RLe(S.tol, "0") \/ S.maxiterN < 1 THEN IF S.kind = "ValueError" THEN "" ELSE "accepts an invalid call: " \o S.kind
  ELSE IF S.kind = "ValueError" THEN "refuses a valid call"
  ELSE IF Xs = <<>> THEN "fails: " \o S.kind
  ELSE ElementClause

(***************************************************************************)
(* Bisection.  g: [kind "roots", k, roots] or [kind "line", xs, vs]        *)
(***************************************************************************)
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN "1" ELSE RMul(s[1], Product(Tail(s)))

Line(g, x) ==
  IF RLe(x, g.xs[1]) THEN g.vs[1]
  ELSE IF RLe(g.xs[Len(g.xs)], x) THEN g.vs[Len(g.vs)]
  ELSE LET j == CHOOSE j \in 1 .. Len(g.xs) - 1 : RLe(g.xs[j], x) /\ RLt(x, g.xs[j + 1])
       IN RAdd(g.vs[j], RMul(RSub(g.vs[j + 1], g.vs[j]), RDiv(RSub(x, g.xs[j]), RSub(g.xs[j + 1], g.xs[j]))))

GVal(x) == IF S.g.kind = "roots" THEN RMul(S.g.k, Product([n \in DOMAIN S.g.roots |-> RSub(x, S.g.roots[n])]))
           ELSE Line(S.g, x)

\* a zero or sign change of g within w of x, in the bracket
Crossing(x, w) ==
  LET a == RMax(S.l, RSub(x, w))
      b == RMin(S.r, RAdd(x, w))
      pts == {a, x, b} \cup (IF S.g.kind = "roots" THEN {} ELSE {S.g.xs[n] : n \in DOMAIN S.g.xs} )
      in == {p \in pts : RLe(a, p) /\ RLe(p, b)}
      sg == {RSign(GVal(p)) : p \in in}
  IN \/ 0 \in sg \/ {1, -1} \subseteq sg
     \/ S.g.kind = "roots" /\ \E n \in DOMAIN S.g.roots : RLe(a, S.g.roots[n]) /\ RLe(S.g.roots[n], b)

\* rounding of interpolated values
Noise == IF S.g.kind = "roots" THEN "0" ELSE RMul("1e-14", MaxNorm(S.g.vs))
EndMaybeZero == RLe(RAbs(GVal(S.l)), Noise) \/ RLe(RAbs(GVal(S.r)), Noise)

BisectClause ==
  LET gl == RSign(GVal(S.l)) gr == RSign(GVal(S.r))
      w == RAdd(RMul(RSub(S.r, S.l), RMul("1.001", RDiv("1", RPow("2", S.maxiterN)))),
                RMul("1e-15", RMax(RAbs(S.l), RAbs(S.r))))
  IN IF RLt(S.l, S.r) /\ gl * gr # 0 /\ EndMaybeZero THEN ""
     ELSE IF ~RLt(S.l, S.r) \/ gl * gr > 0 THEN IF S.kind = "ValueError" THEN "" ELSE "does not refuse an interval that is empty or without a sign change"
     ELSE IF S.kind # "ok" THEN "fails: " \o S.kind
     ELSE IF ~(RLe(S.l, S.p) /\ RLe(S.p, S.r)) THEN "returns a point outside the bracket"
     ELSE IF \E n \in DOMAIN Xs : ~(RLe(S.l, Xs[n]) /\ RLe(Xs[n], S.r)) THEN "evaluates the function outside the bracket"
     ELSE IF RLe(RAbs(GVal(S.p)), RMul("1.0000001", S.tol)) THEN ""
     ELSE IF Crossing(S.p, w) THEN ""
     ELSE "the function does not change sign at the point returned"

(***************************************************************************)
(* Newton's method in n dimensions.                                        *)
(***************************************************************************)
SumSq(v) == VDot(v, v)
HdClause ==
  IF S.kind = "ok" THEN
    IF ~AllNum(S.y) \/ Len(S.y) # Dim(S.prob) THEN "returns something that is not a point"
    ELSE LET f == F(S.prob, "0", S.y)
             lim == RAdd(RMul(S.tol, "1.000001"), RMul("1e-13", FScale(S.prob, "0", S.y)))
         IN IF RLe(SumSq(f), RMul(lim, lim)) THEN "" ELSE "the norm of the function is not within tolerance"
  ELSE IF S.kind \notin {"RuntimeError", "LinAlgError"} THEN "fails: " \o S.kind
  ELSE IF S.easy THEN "fails on a well-conditioned linear system"
  ELSE ""

Clause == CASE S.fn \in {"newton", "j_newton"} -> ScalarClause
            [] S.fn = "elements" -> ArrayClause
            [] S.fn = "bisect" -> BisectClause
            [] S.fn = "newton_hd" -> IF S.same THEN HdClause ELSE "modifies its starting point"

-----------------------------------------------------------------------------
StartOf(s) ==
  IF s.fn = "elements" /\ Len(s.xs) >= 2 THEN [p0 |-> s.xs[1], p1 |-> s.xs[2]]
  ELSE IF s.fn \in {"newton", "j_newton"} /\ s.m = "secant" /\ Len(s.xs) >= 2
  THEN LET c == SecantStart(s.c, s.xs[1], s.xs[2]) IN
       \* where the values are equal up to rounding, the real order is seen from the function values
       IF "swap" \in DOMAIN s THEN (IF s.swap THEN [p0 |-> s.xs[2], p1 |-> s.xs[1]] ELSE [p0 |-> s.xs[1], p1 |-> s.xs[2]])
       ELSE [p0 |-> c.p0, p1 |-> c.p1]
  ELSE [p0 |-> "0", p1 |-> "0"]
Load(n) == st' = IF n <= Len(Sessions) THEN StartOf(Sessions[n]) ELSE st
Init == sn = 1 /\ i = 1 /\ st = StartOf(Sessions[1])
Consume ==
  /\ sn <= Len(Sessions)
  /\ LET c == Clause
     IN IF c # "" THEN PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> i, clause |-> c])) /\ sn' = sn + 1 /\ i' = 1 /\ Load(sn + 1)
        ELSE IF S.fn \in {"newton", "j_newton", "elements"} /\ ScalarMore
          THEN sn' = sn /\ i' = i + 1 /\ st' = IF S.m = "secant" THEN [p0 |-> st.p1, p1 |-> Xs[i + 2]] ELSE st
        ELSE sn' = sn + 1 /\ i' = 1 /\ Load(sn + 1)
Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ UNCHANGED <<i, st>>
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
