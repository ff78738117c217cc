------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* What one step of each kind of method does, evaluated in exact numbers:  *)
(*   Runge-Kutta and multistep formulas, the implicit equation,            *)
(*   error control and step size selection of the variable step methods,   *)
(*   the automatic first step, and the continuous extensions.              *)
(*                                                                         *)
(* Rounding: code works in doubles.  Where a decision hangs on a computed  *)
(* number (accept or reject), the specification carries an interval that   *)
(* bounds what rounding can do to it, and is silent when the decision is   *)
(* within that interval.                                                   *)
(***************************************************************************)
EXTENDS Methods, FiniteSets

Least(v) == RNeg(RMaxOf([i \in DOMAIN v |-> RNeg(v[i])]))

\* rounding of a time
Ulp(t, h) == RMul("1e-15", RAdd(RAbs(t), RAbs(h)))

(***************************************************************************)
(* Multistep.  ys, fs: the last Len(A) points, oldest first.               *)
(***************************************************************************)
Tail_(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

MSKnown(m, h, ys, fs, n) ==
  VSub(VScale(h, VLin(m.B, Tail_(fs, Len(m.B)), n)), VLin(m.A, Tail_(ys, Len(m.A)), n))

\* how far y1 is from solving the equation of the step
MSResidual(m, p, h, ys, fs, t1, y1) ==
  LET n == Len(y1)
      known == MSKnown(m, h, ys, fs, n)
  IN IF REq(m.Bn, "0") THEN VSub(y1, known)
     ELSE VSub(VSub(y1, known), VScale(RMul(h, m.Bn), F(p, t1, y1)))

MSScale(m, p, h, ys, fs, t1, y1) ==
  RAdd(RAdd(RMaxOf([i \in DOMAIN ys |-> MaxNorm(ys[i])]), MaxNorm(y1)),
       RMul(RAbs(h), RAdd(RMaxOf([i \in DOMAIN fs |-> MaxNorm(fs[i])]), FScale(p, t1, y1))))

\* bound of the derivative of f with respect to y (row sum norm)
Lipschitz(p, t, y) ==
  RMaxOf([i \in DOMAIN p.M |->
            RAdd(RSum(VAbs(p.M[i])), RAdd(RMul("2", RAbs(RMul(p.q[i], y[i]))), RAbs(RMul(t, p.e[i]))))])

Norm2Sq(v) == RSum(VHad(v, v))

(***************************************************************************)
(* Variable step methods.  opts: atol, rtol, min_step, max_step,           *)
(* min_factor, max_factor, safety_factor.                                  *)
(***************************************************************************)
ErrorScale(opts, y0, y1) ==
  [i \in DOMAIN y0 |-> RAdd(opts.atol, RMul(opts.rtol, RMax(RAbs(y0[i]), RAbs(y1[i]))))]

RmsNorm(v) == RRoot(RDiv(RSum(VHad(v, v)), Len(v)), 2)

Scaled(v, scale) == [i \in DOMAIN v |-> RDiv(v[i], scale[i])]

\* DOP853 combines a third and a fifth order estimate
DopNorm(n5, n3) ==
  IF REq(n5, "0") THEN "0"
  ELSE RDiv(RMul(n5, n5), RRoot(RAdd(RMul(n5, n5), RMul("1/100", RMul(n3, n3))), 2))

\* one attempt of method m with step h from (t, y): the new point and an interval for the error norm
Attempt(m, p, opts, t, y, f0, h) ==
  LET dop == "E3" \in DOMAIN m
      n == Len(y)
      K0 == Stages(m, p, t, y, f0, h)
      y1 == RKNew(m, y, h, K0)
      t1 == RAdd(t, h)
      f1 == F(p, t1, y1)
      K == Append(K0, f1)
      scale == ErrorScale(opts, y, y1)
      size == RMul(RAbs(h), RAdd(RAdd(FScale(p, t, y), FScale(p, t1, y1)), RMaxOf([i \in DOMAIN K |-> MaxNorm(K[i])])))
      \* (an exact problem has no rounding: the limits are judged to the last bit)
      noise == IF "exact" \in DOMAIN opts THEN "0" ELSE RDiv(RMul(IF dop THEN "1e-13" ELSE "2e-14", size), Least(scale))
      est(E) == RmsNorm(Scaled(VScale(h, VLin(E, K, n)), scale))
      lower(x) == RMax("0", RSub(x, noise))
      upper(x) == RAdd(x, noise)
  IN [t |-> t1, y |-> y1, f |-> f1, size |-> RAdd(size, MaxNorm(y)),
      norm |-> IF dop THEN DopNorm(est(m.E5), est(m.E3)) ELSE est(m.E),
      lo |-> IF dop THEN DopNorm(lower(est(m.E5)), upper(est(m.E3))) ELSE lower(est(m.E)),
      hi |-> IF dop THEN DopNorm(upper(est(m.E5)), lower(est(m.E3))) ELSE upper(est(m.E))]

\* the factor by which the step changes, for a given norm
Factor(q, opts, norm) ==
  IF REq(norm, "0") THEN opts.max_factor
  ELSE RMin(opts.max_factor, RMax(opts.min_factor, RDiv(opts.safety_factor, RRoot(norm, q + 1))))

NextStep(q, opts, h, norm) == RMin(RMul(h, Factor(q, opts, norm)), opts.max_step)

\* Attempts from a point until one is accepted.
\* kind: "step"; "fail": the required step is below min_step; "?": too close to call
RECURSIVE Chain(_, _, _, _, _, _, _, _)
Chain(m, p, opts, t, y, f0, h, rejected) ==
  LET a == Attempt(m, p, opts, t, y, f0, h)
      q == m.q
      hn == NextStep(q, opts, h, a.norm)
      hlo == NextStep(q, opts, h, a.hi)
      hhi == NextStep(q, opts, h, a.lo)
      atLeast(x) == RMax(x, opts.min_step)
      sure == RLe(RSub(hhi, hlo), RMul("1e-7", hn))
      exact == "exact" \in DOMAIN opts
  IN IF RLt(a.hi, "1")
       THEN [kind |-> "step", h |-> h, t |-> a.t, y |-> a.y, f |-> a.f, lo |-> atLeast(hlo), hi |-> atLeast(hhi), size |-> a.size,
             norm |-> a.norm, rejected |-> rejected]
     ELSE IF RLe("1", a.lo) /\ sure /\ rejected < 60
       THEN IF RLt(hhi, opts.min_step)
              THEN [kind |-> "fail", rejected |-> rejected + 1]
            ELSE IF (IF exact THEN RLt(hlo, opts.min_step) ELSE RLe(hlo, opts.min_step))
              THEN [kind |-> "?"]
              ELSE Chain(m, p, opts, t, y, f0, hn, rejected + 1)
     ELSE [kind |-> "?"]

(***************************************************************************)
(* The automatic first step (Hairer, Norsett, Wanner, Sec. II.4).          *)
(* An interval, as above.                                                  *)
(***************************************************************************)
FirstStep(q, p, opts, t0, y0, f0) ==
  LET scale == [i \in DOMAIN y0 |-> RAdd(opts.atol, RMul(opts.rtol, RAbs(y0[i])))]
      d0 == RmsNorm(Scaled(y0, scale))
      d1 == RmsNorm(Scaled(f0, scale))
      h0 == IF RLt(d0, "1e-5") \/ RLt(d1, "1e-5") THEN "1e-6" ELSE RMul("1/100", RDiv(d0, d1))
      y1 == VAdd(y0, VScale(h0, f0))
      f1 == F(p, RAdd(t0, h0), y1)
      d2 == RDiv(RmsNorm(Scaled(VSub(f1, f0), scale)), h0)
      noise == RDiv(RMul("1e-14", RAdd(FScale(p, t0, y0), FScale(p, t0, y1))), RMul(h0, Least(scale)))
      h1(x) == IF RLe(d1, "1e-15") /\ RLe(x, "1e-15") THEN RMax("1e-6", RMul(h0, "1e-3"))
               ELSE RRoot(RDiv("1/100", RMax(d1, x)), q + 1)
      res(x) == RMin(RMin(RMul("100", h0), h1(x)), opts.max_step)
  IN [lo |-> RMin(res(RAdd(d2, noise)), res(d2)), hi |-> RMax(res(RMax("0", RSub(d2, noise))), res(d2))]

(***************************************************************************)
(* Continuous extensions: the state at t0 + th (t1 - t0), 0 < th < 1.      *)
(***************************************************************************)
Hermite(t0, y0, f0, t1, y1, f1, tau) ==
  LET h == RSub(t1, t0)
      th == RDiv(RSub(tau, t0), h)
      u == RSub(th, "1")
      dy == VSub(y1, y0)
      inner == VAdd(VScale(RSub("1", RMul("2", th)), dy), VScale(h, VAdd(VScale(u, f0), VScale(th, f1))))
  IN VAdd(VAdd(y0, VScale(th, dy)), VScale(RMul(th, u), inner))

PolyDense(name, p, t0, y0, f0, t1, tau) ==
  LET m == RK(name)
      h == RSub(t1, t0)
      th == RDiv(RSub(tau, t0), h)
      K0 == Stages(m, p, t0, y0, f0, h)
      K == Append(K0, F(p, t1, RKNew(m, y0, h, K0)))
      w == [i \in DOMAIN m.P |-> VDot(m.P[i], [j \in DOMAIN m.P[i] |-> RPow(th, j)])]
  IN VAdd(y0, VScale(h, VLin(w, K, Len(y0))))

RECURSIVE DopExtra(_, _, _, _, _)
DopExtra(p, t0, y0, h, K) ==
  IF Len(K) = 16 THEN K
  ELSE LET s == Len(K) + 1
           ys == VAdd(y0, VScale(h, VLin(SubSeq(DOP_A[s], 1, s - 1), K, Len(y0))))
       IN DopExtra(p, t0, y0, h, Append(K, F(p, RAdd(t0, RMul(h, DOP_C[s])), ys)))

RECURSIVE DopHorner(_, _, _, _)
DopHorner(i, th, acc, fs) ==
  IF i = 0 THEN acc
  ELSE DopHorner(i - 1, th, VScale(IF i % 2 = 1 THEN th ELSE RSub("1", th), VAdd(acc, fs[i])), fs)

DopDense(p, t0, y0, f0, t1, y1, tau) ==
  LET m == RK("DOP853")
      n == Len(y0)
      h == RSub(t1, t0)
      th == RDiv(RSub(tau, t0), h)
      K0 == Stages(m, p, t0, y0, f0, h)
      f1 == F(p, t1, RKNew(m, y0, h, K0))
      K == DopExtra(p, t0, y0, h, Append(K0, f1))
      dy == VSub(y1, y0)
      fs == <<dy, VSub(VScale(h, f0), dy), VSub(VScale("2", dy), VScale(h, VAdd(f0, f1)))>>
            \o [i \in 1 .. 4 |-> VScale(h, VLin(DOP_D[i], K, n))]
  IN VAdd(y0, DopHorner(7, th, [i \in 1 .. n |-> "0"], fs))

\* the continuous extension of a method over the step (t0, y0, f0) -> (t1, y1, f1)
Extension(name, p, t0, y0, f0, t1, y1, f1, tau) ==
  CASE name \in {"RungeKutta23", "RungeKutta45"} -> PolyDense(name, p, t0, y0, f0, t1, tau)
    [] name = "DOP853" -> DopDense(p, t0, y0, f0, t1, y1, tau)
    [] OTHER -> Hermite(t0, y0, f0, t1, y1, f1, tau)
=============================================================================
