------------------------------- MODULE Zeros -------------------------------
(***************************************************************************)
(* The root finders: Newton, Halley and secant iterations, and bisection,  *)
(* for polynomials  c[1] + c[2] x + c[3] x^2 + ...                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

RECURSIVE Horner(_, _)
Horner(c, x) == IF c = <<>> THEN "0" ELSE RAdd(c[1], RMul(x, Horner(Tail(c), x)))
Deriv(c) == [i \in 1 .. Len(c) - 1 |-> RMul(ToString(i), c[i + 1])]
Absolute(c) == [i \in DOMAIN c |-> RAbs(c[i])]

P(c, x) == Horner(c, x)
D(c, x) == Horner(Deriv(c), x)
D2(c, x) == Horner(Deriv(Deriv(c)), x)

NewtonStep(c, x) == RDiv(P(c, x), D(c, x))
\* Halley's correction, only where it does not turn the step around
Adj(c, x) == RDiv(RMul(NewtonStep(c, x), D2(c, x)), RMul("2", D(c, x)))
HalleyStep(c, x) ==
  LET a == Adj(c, x) IN IF RLt(RAbs(a), "1") THEN RDiv(NewtonStep(c, x), RSub("1", a)) ELSE NewtonStep(c, x)
Step(m, c, x) == IF m = "halley" THEN HalleyStep(c, x) ELSE NewtonStep(c, x)

\* where the line through two points of the graph vanishes
SecantPoint(p0, q0, p1, q1) == RSub(p1, RDiv(RMul(q1, RSub(p1, p0)), RSub(q1, q0)))

Close(p, p0, tol, rtol) == RLe(RAbs(RSub(p, p0)), RAdd(tol, RMul(rtol, RAbs(p0))))

(***************************************************************************)
(* The machine.  st: [x (or p0, p1), it, out, root]; out is "" while it    *)
(* runs, then "ok", "derivative" or "limit".                               *)
(***************************************************************************)
NewtonNext(m, c, tol, rtol, maxiter, st) ==
  LET f == P(c, st.x)
  IN IF REq(f, "0") THEN [st EXCEPT !.out = "ok", !.root = st.x]
     ELSE IF REq(D(c, st.x), "0") THEN [st EXCEPT !.it = st.it + 1, !.out = "derivative", !.root = st.x]
     ELSE LET p == RSub(st.x, Step(m, c, st.x))
          IN IF Close(p, st.x, tol, rtol) THEN [st EXCEPT !.it = st.it + 1, !.out = "ok", !.root = p]
             ELSE IF st.it + 1 = maxiter THEN [st EXCEPT !.it = st.it + 1, !.out = "limit", !.root = p]
             ELSE [st EXCEPT !.it = st.it + 1, !.x = p]

SecantStart(c, x0, x1) ==
  LET q0 == P(c, x0) q1 == P(c, x1)
  IN IF RLt(RAbs(q1), RAbs(q0)) THEN [p0 |-> x1, p1 |-> x0, it |-> 0, out |-> "", root |-> "nan"]
     ELSE [p0 |-> x0, p1 |-> x1, it |-> 0, out |-> "", root |-> "nan"]

SecantNext(c, tol, rtol, maxiter, st) ==
  LET q0 == P(c, st.p0) q1 == P(c, st.p1)
  IN IF REq(q0, q1) THEN [st EXCEPT !.it = st.it + 1, !.out = IF REq(st.p0, st.p1) THEN "ok" ELSE "derivative", !.root = RDiv(RAdd(st.p0, st.p1), "2")]
     ELSE LET p == SecantPoint(st.p0, q0, st.p1, q1)
          IN IF Close(p, st.p1, tol, rtol) THEN [st EXCEPT !.it = st.it + 1, !.out = "ok", !.root = p]
             ELSE IF st.it + 1 = maxiter THEN [st EXCEPT !.it = st.it + 1, !.out = "limit", !.root = p]
             ELSE [st EXCEPT !.it = st.it + 1, !.p0 = st.p1, !.p1 = p]

(***************************************************************************)
(* Bisection of a sign function over integers (a grid): sg[x] in -1, 0, 1. *)
(***************************************************************************)
BisectStart(sg, l, r) ==
  IF ~(l < r) THEN "refuse"
  ELSE IF sg[l] = 0 THEN "left"
  ELSE IF sg[r] = 0 THEN "right"
  ELSE IF sg[l] = sg[r] THEN "refuse"
  ELSE "run"
BisectNext(sg, l, r) ==
  LET m == (l + r) \div 2
  IN IF sg[m] = sg[l] THEN <<m, r>> ELSE <<l, m>>
=============================================================================
