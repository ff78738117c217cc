----------------------------- MODULE StepTrace -----------------------------
(***************************************************************************)
(* Checks recorded single steps, starts and interpolations of real solvers *)
(* against the formulas of Steps.tla.  Each transition is judged from the  *)
(* recorded state before it and after it.                                  *)
(*                                                                         *)
(* A session: cls, p (problem), opts (variable step options, if any),      *)
(* hgiven (the step given, or "none"), t0, y0, events.  With a method that *)
(* is not of the package, its coefficients: method.                        *)
(***************************************************************************)
EXTENDS Steps, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Checking(p) == IOEnv.PROP = p

VARIABLES sn, k,
          cnt     \* how many transitions were decided, by kind: for the evidence

vars == <<sn, k, cnt>>

S == Sessions[sn]
E == S.events[k]      \* after
B == S.events[k - 1]  \* before
p == S.p
name == S.cls
\* a method defined by its coefficients (C22), or one of the package
Own == "method" \in DOMAIN S
Adaptive == IF Own THEN S.method.kind \in {"adaptive", "fsal"} ELSE name \in AdaptiveNames
IsRK == IF Own THEN S.method.kind \in {"rk", "adaptive", "fsal"} ELSE name \in RKNames
TheRK ==
  IF ~Own THEN RK(name)
  ELSE IF ~Adaptive \/ "E" \in DOMAIN S.method THEN S.method
  ELSE LET m == S.method
           est == IF m.kind = "fsal" THEN VSub(Append(m.B, "0"), m.B2) ELSE Append(VSub(m.B, m.B2), "0")
       IN [x \in DOMAIN m \cup {"E"} |-> IF x = "E" THEN est ELSE m[x]]
TheMS == IF Own THEN S.method ELSE MS(name)
Implicit == ~IsRK /\ ~REq(TheMS.Bn, "0")
L == Len(B.ht)

Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

H == IF Adaptive THEN RSub(E.t, B.t) ELSE B.h

(***************************************************************************)
(* C10                                                                     *)
(***************************************************************************)
ExplicitRK ==
  LET m == TheRK
      K == Stages(m, p, B.t, B.y, B.f, H)
      y1 == RKNew(m, B.y, H, K)
      size == StepScale(p, B.t, B.y, H, K)
      \* the step of a variable step method is read off the times
      slack == IF Adaptive THEN RMul(Ulp(B.t, H), RMul("4", RMaxOf([i \in DOMAIN K |-> MaxNorm(K[i])]))) ELSE "0"
  IN IF ~Adaptive /\ ~Near(E.t, RAdd(B.t, H), Ulp(B.t, H)) THEN "time does not advance by the step"
     ELSE IF ~NearVec(E.y, y1, RAdd(RMul("1e-12", size), slack)) THEN "new state is not that of the published formula"
     ELSE ""

ExplicitMS ==
  LET m == TheMS
      t1 == RAdd(B.t, B.h)
      r == MSResidual(m, p, B.h, B.hy, B.hf, t1, E.y)
  IN IF ~Near(E.t, t1, Ulp(B.t, B.h)) THEN "time does not advance by the step"
     ELSE IF ~NearVec(r, [i \in DOMAIN r |-> "0"], RMul("1e-12", MSScale(m, p, B.h, B.hy, B.hf, t1, E.y)))
       THEN "new state is not that of the published formula"
     ELSE ""

(***************************************************************************)
(* C11                                                                     *)
(***************************************************************************)
\* rounding does not keep the equation from being solved to the (absolute) tolerance
Attainable ==
  RLe(RAdd(RMaxOf([j \in DOMAIN B.hy |-> MaxNorm(B.hy[j])]), RMul(B.h, FScale(p, RAdd(B.t, B.h), B.y))), "2e6")

ImplicitMS ==
  LET m == TheMS
      t1 == RAdd(B.t, B.h)
      r == MSResidual(m, p, B.h, B.hy, B.hf, t1, E.y)
      size == MSScale(m, p, B.h, B.hy, B.hf, t1, E.y)
      lip == RAdd("1", RMul(RAbs(RMul(B.h, m.Bn)), Lipschitz(p, t1, E.y)))
      bound == IF Len(E.y) = 1 THEN RMul("3e-8", lip) ELSE "1.5e-8"
      tol == RAdd(bound, RMul("1e-12", size))
  IN IF ~Near(E.t, t1, Ulp(B.t, B.h)) THEN "time does not advance by the step"
     ELSE IF ~AllNum(E.y) THEN "recorded a state that is not a number"
     ELSE IF ~RLe(Norm2Sq(r), RMul(tol, tol)) THEN "new state does not solve the implicit equation"
     ELSE ""

(***************************************************************************)
(* C12                                                                     *)
(***************************************************************************)
ControlChain == Chain(TheRK, p, S.opts, B.t, B.y, B.f, B.h, 0)

Controlled(ch) ==
  LET dt == RAdd(RMul("1e-6", RAbs(ch.h)), RMul("4", Ulp(B.t, ch.h)))
      real == Attempt(TheRK, p, S.opts, B.t, B.y, B.f, RSub(E.t, B.t))
  IN IF RLe("1", real.lo) /\ RLt(RMul("1e6", Ulp(B.t, ch.h)), ch.h) THEN "accepted a step whose error is not within tolerance"
     ELSE IF RLt(ch.t, RSub(E.t, dt)) THEN "accepted a longer step than error control allows"
     ELSE IF RLt(RAdd(E.t, dt), ch.t) THEN "took a shorter step than error control asks for"
     ELSE IF ~NearVec(E.y, ch.y, RMul("1e-5", ch.size)) THEN "new state is not that of the attempt accepted"
     ELSE IF RLt(S.opts.max_step, E.h) THEN "next step is above max_step"
     ELSE IF RLt(E.h, RMul("0.99999", ch.lo)) THEN "next step is smaller than the controller's"
     ELSE IF RLt(RMul("1.00001", ch.hi), E.h) THEN "next step is larger than the controller's"
     ELSE ""

Control ==
  LET ch == ControlChain
  IN IF ch.kind = "?" THEN "?"
     ELSE IF ch.kind = "fail" THEN
       IF E.kind = "RuntimeError" THEN IF RLt(E.h, RMin(B.h, S.opts.min_step)) THEN "keeps a step below min_step" ELSE "" ELSE "required step below min_step, but: " \o E.kind
     ELSE IF E.kind # "ok" THEN "step fails: " \o E.kind
     ELSE Controlled(ch)

(***************************************************************************)
(* C06: the interpolated state, from the recorded history.                 *)
(***************************************************************************)
\* the steps of the history that contain tau
StepsWith(tau) == {i \in 1 .. L - 1 : RLt(B.ht[i], B.ht[i + 1]) /\ RLe(B.ht[i], tau) /\ RLe(tau, B.ht[i + 1])}

Interpolated ==
  LET tau == E.ts[1]
      inside == RLe(B.ht[1], tau) /\ RLe(tau, B.ht[L])
      onPoint == {i \in 1 .. L : REq(B.ht[i], tau)}
  IN IF ~inside THEN IF E.kind = "ValueError" THEN "" ELSE "time outside the history, but: " \o E.kind
     ELSE IF E.kind # "ok" THEN "time within the history, but: " \o E.kind
     ELSE IF ~(E.t = B.t /\ E.y = B.y /\ E.f = B.f /\ E.ht = B.ht /\ E.hy = B.hy /\ E.hf = B.hf /\ E.h = B.h)
       THEN "interpolation alters the solver"
     ELSE IF onPoint # {} THEN
       IF \E i \in onPoint : NearVec(E.ry[1], B.hy[i], RMul("1e-14", RMaxOf([j \in 1 .. L |-> MaxNorm(B.hy[j])]))) THEN "" ELSE "recorded state is not reproduced at a recorded time"
     ELSE LET i == CHOOSE j \in StepsWith(tau) : TRUE
              h == RSub(B.ht[i + 1], B.ht[i])
              want == Extension(name, p, B.ht[i], B.hy[i], B.hf[i], B.ht[i + 1], B.hy[i + 1], B.hf[i + 1], tau)
              size == RAdd(RAdd(MaxNorm(B.hy[i]), MaxNorm(B.hy[i + 1])),
                           RMul(h, RAdd(FScale(p, B.ht[i], B.hy[i]), FScale(p, B.ht[i + 1], B.hy[i + 1]))))
              slack == RMul(Ulp(B.ht[i], h), RMul("50", RAdd(RAdd(MaxNorm(B.hf[i]), MaxNorm(B.hf[i + 1])), FScale(p, B.ht[i], B.hy[i]))))
          IN IF NearVec(E.ry[1], want, RAdd(RMul("1e-11", size), slack)) THEN ""
             ELSE "interpolated state is not that of the method's continuous extension"

(***************************************************************************)
(* C13, C17: construction                                                  *)
(***************************************************************************)
StartPoint ==
  LET y0 == S.y0
  IN IF S.built # "ok" THEN "cannot be built: " \o S.built
     ELSE IF "shape" \in DOMAIN S /\ S.shape # <<Len(y0)>> THEN "state is not a vector"
     ELSE IF "started" \in DOMAIN S /\ S.started THEN ""
     ELSE IF ~REq(E.t, S.t0) THEN "does not start at t0"
     ELSE IF ~(Len(E.y) = Len(y0) /\ \A i \in DOMAIN y0 : REq(E.y[i], y0[i])) THEN "does not start at y0"
     ELSE IF ~NearVec(E.f, F(p, S.t0, y0), RMul("1e-12", RAdd(FScale(p, S.t0, y0), "1e-300"))) THEN "initial derivative is not the right-hand side"
     ELSE ""

\* a step given is used as it is, but not above max_step
FirstStepClause ==
  IF ~Adaptive THEN IF REq(E.h, IF S.hgiven = "none" THEN "1" ELSE S.hgiven) THEN "" ELSE "does not use the step given"
  ELSE IF S.hgiven # "none" THEN IF REq(E.h, RMin(S.hgiven, S.opts.max_step)) THEN "" ELSE "does not use the first step given"
  ELSE LET fs == FirstStep(TheRK.q, p, S.opts, S.t0, S.y0, F(p, S.t0, S.y0))
       IN IF RLt(S.opts.max_step, E.h) THEN "first step is above max_step"
          ELSE IF RLt(E.h, RMul("0.999999", fs.lo)) THEN "first step is smaller than the automatic choice"
          ELSE IF RLt(RMul("1.000001", fs.hi), E.h) THEN "first step is larger than the automatic choice"
          ELSE ""

Construction ==
  IF "refused" \in DOMAIN S /\ S.refused
    THEN IF S.built = "ValueError" THEN "" ELSE "accepts an invalid option: " \o S.built
  ELSE IF "sane" \in DOMAIN S /\ ~S.sane THEN "evaluates the right-hand side at a state that is not a number"
  ELSE IF StartPoint # "" THEN StartPoint ELSE FirstStepClause

\* S.end: where the start-up ends if there is no t_bound (nothing but that bounds it), S.tb: t_bound
\* S.start: [t, y]: the points the first stepper produces (recorded from a stepper of its own)
StartUp ==
  LET n == Len(S.start.t)
      LL == Len(E.ht)
      big == RAdd("1e-30", RMaxOf([i \in DOMAIN S.start.y |-> MaxNorm(S.start.y[i])]))
      node(i) == RAdd(S.t0, RMul(S.hgiven, i))
  IN IF RLt(S.tb, S.end) THEN IF S.built = "ValueError" THEN "" ELSE "starts although t_bound comes before its first points: " \o S.built
     ELSE IF S.built # "ok" THEN "cannot be built: " \o S.built
     ELSE IF RLt(S.tb, E.t) THEN "starts beyond t_bound"
     ELSE IF LL < n THEN "history is too short"
     ELSE IF ~\A i \in 1 .. n : Near(E.ht[LL - n + i], node(i - 1), RMul("4", Ulp(RAdd(RAbs(S.t0), RMul(n, RAbs(S.hgiven))), "0"))) THEN "history is not t0, t0 + h, t0 + 2h, ..."
     ELSE IF ~\A i \in 1 .. LL - n : REq(E.ht[i], S.t0) THEN "older history is not the initial point"
     ELSE IF ~\A i \in 1 .. n : NearVec(E.hy[LL - n + i], S.start.y[i], RMul("1e-9", big)) THEN "history is not what the first stepper produces"
     ELSE IF ~\A i \in 1 .. LL : NearVec(E.hf[i], F(p, E.ht[i], E.hy[i]), RMul("1e-9", RAdd(FScale(p, E.ht[i], E.hy[i]), "1e-30"))) THEN "derivative in the start-up history is not the right-hand side"
     ELSE IF ~(REq(E.t, E.ht[LL]) /\ E.y = E.hy[LL] /\ E.f = E.hf[LL]) THEN "does not continue from the last start-up point"
     ELSE ""

(***************************************************************************)
(* C22: a method defined by its coefficients.                              *)
(* S.facts: what the package says about the new class.                     *)
(***************************************************************************)
Definition ==
  LET m == S.method
      longest == IF IsRK THEN 2 ELSE IF "len" \in DOMAIN m THEN m.len ELSE IF Len(m.A) > 2 THEN Len(m.A) ELSE 2
  IN IF S.refused THEN (IF S.defined /\ S.built # "not found" THEN "accepts coefficients that are not explicit" ELSE "")
     ELSE IF ~S.defined THEN "cannot be defined: " \o S.built
     ELSE IF S.facts.implicit # Implicit THEN "is not implicit exactly if its formula is"
     ELSE IF S.facts.fixed # ~Adaptive THEN "is not of fixed step exactly if it has no error estimate"
     ELSE IF ~S.facts.found THEN "is not found among the solvers of its kind"
     ELSE IF S.built # "ok" THEN "cannot be built: " \o S.built
     ELSE IF Len(E.ht) # longest THEN "history is not as long as the formula needs"
     ELSE IF ~IsRK THEN (IF REq(E.h, S.hgiven) THEN "" ELSE "does not use the step given")
     ELSE Construction

OwnMove ==
  IF Adaptive THEN
    LET c == Control IN IF c # "" \/ E.kind # "ok" THEN c ELSE ExplicitRK
  ELSE IF E.kind # "ok" THEN (IF ~Implicit \/ Attainable THEN "step fails: " \o E.kind ELSE "raised")
  ELSE IF IsRK THEN ExplicitRK
  ELSE IF Implicit THEN ImplicitMS
  ELSE ExplicitMS

OwnStep ==
  IF OwnMove # "" \/ E.kind # "ok" THEN OwnMove
  ELSE IF ~NearVec(E.f, F(p, E.t, E.y), RMul("1e-9", RAdd(FScale(p, E.t, E.y), "1e-30"))) THEN "recorded derivative is not the right-hand side"
  ELSE ""

-----------------------------------------------------------------------------
Clause ==
  IF E.kind = "hang" THEN "does not return"
  ELSE IF E.op = "new" THEN
    IF Checking("C22") THEN Definition ELSE
    IF Checking("C13") THEN StartUp ELSE IF Checking("C17") THEN Construction ELSE "-"
  ELSE IF E.op = "step" THEN
    IF Checking("C22") THEN OwnStep ELSE
    IF Checking("C10") THEN
      IF E.kind # "ok" THEN (IF Adaptive THEN "-" ELSE "explicit step fails: " \o E.kind)
      ELSE IF IsRK THEN ExplicitRK ELSE ExplicitMS
    ELSE IF Checking("C11") THEN
      IF E.kind # "ok" THEN (IF S.benign /\ Attainable THEN "step of a linear problem fails: " \o E.kind ELSE "raised")
      ELSE ImplicitMS
    ELSE IF Checking("C12") THEN Control
    ELSE IF Checking("C13") /\ E.kind = "ok" THEN
       \* the first steps after the start-up are the method's
       (IF Implicit THEN ImplicitMS ELSE ExplicitMS)
    ELSE "-"
  ELSE IF E.op = "interpolate" /\ (Checking("C06") \/ Checking("C22")) THEN Interpolated
  ELSE "-"

Kind(c) == IF c = "" THEN "decided" ELSE IF c = "?" THEN "too close to call" ELSE IF c = "raised" THEN "raised" ELSE "other"

Verdict(c) == PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> c]))

Count(c) == cnt' = [x \in DOMAIN cnt |-> IF x = Kind(c) THEN cnt[x] + 1 ELSE cnt[x]]

Init == sn = 1 /\ k = 1 /\ cnt = [x \in {"decided", "too close to call", "raised", "other"} |-> 0]

Consume ==
  /\ sn <= Len(Sessions)
  /\ LET c == Clause
     IN IF c \in {"", "-", "?", "raised"}
          THEN /\ Count(c)
               /\ IF k < Len(S.events) THEN k' = k + 1 /\ sn' = sn ELSE k' = 1 /\ sn' = sn + 1
          ELSE Verdict(c) /\ sn' = sn + 1 /\ k' = 1 /\ UNCHANGED cnt

Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("NOTE " \o ToJson(cnt))
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ UNCHANGED <<k, cnt>>

Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
