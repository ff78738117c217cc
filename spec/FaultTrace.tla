---------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Checks recorded sessions in which the right-hand side or an event       *)
(* function fails at a chosen evaluation, or a step fails by itself,       *)
(* against Solver.tla: a call is a sequence of steps, and a failure cuts   *)
(* it short between two of them (Fault.tla says why).                      *)
(*                                                                         *)
(* Reference grids come from solvers that never fail.  For fixed step      *)
(* methods there is one for the whole session.  A variable step method may *)
(* go on with another step size after a failure: from there its grid is    *)
(* that of a new solver started at the same point with that step size.     *)
(***************************************************************************)
EXTENDS Solver, Problem, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sn, k, pos, tol
vars == <<sn, k, pos, tol>>

S == Sessions[sn]
E == S.events[k]
Grid(g) == S.grids[g]
G == LET g == Grid(E.g) IN [L |-> g.L, t |-> g.t, tn |-> [i \in DOMAIN g.t |-> RDbl(RAdd(g.t[i], g.h[i]))]]
Ref == Grid(E.g)

Tolerances(s) ==
  LET g == s.grids[1]
      n == Len(g.t)
      steps == [i \in 1 .. (n - g.L) |-> RSub(g.t[g.L + i], g.t[g.L + i - 1])]
      least == IF n = g.L THEN "1e-3" ELSE RNeg(RMaxOf([i \in DOMAIN steps |-> RNeg(steps[i])]))
      big == RMaxOf([i \in DOMAIN g.y |-> MaxNorm(g.y[i])])
  IN [t |-> RMul("1e-6", least), y |-> RMul("1e-9", RAdd(big, "1e-30"))]

NearT(a, b) == RLe(RAbs(RSub(a, b)), tol.t)
NearY(a, b) == NearVec(a, b, tol.y)
Where == {i \in G.L .. Last(G) : NearT(G.t[i], E.t)}
At == CHOOSE i \in Where : \A j \in Where : i <= j

Op == [op |-> E.op, n |-> E.n, upto |-> E.upto, ts |-> E.ts]
Outc == Call(G, "inf", pos, Op)

\* the call asks for a step that the reference did not make
NeedsMore ==
  CASE E.op \in {"step", "skip"} ->
         LET want == IF E.n = -1 /\ E.upto = None THEN 1 ELSE E.n
         IN /\ want = -1 \/ pos + want > Last(G)
            /\ E.upto = None \/ RLe(G.tn[Last(G)], E.upto)
    [] E.op = "run" -> RLt(G.t[Last(G)], MaxTime(E.ts)) /\ Outc.kind = "ok"
    [] OTHER -> FALSE

StateOf(row) == IF row.at > 0 THEN Ref.y[row.at] ELSE S.dense[E.g][row.t]
SameTimes(rows) ==
  /\ Len(E.rt) = Len(rows)
  /\ \A i \in DOMAIN rows : NearT(E.rt[i], rows[i].t)
SameStates(rows) ==
  /\ Len(E.ry) = Len(rows)
  /\ \A i \in DOMAIN rows : NearY(E.ry[i], StateOf(rows[i]))

HistoryMatches(at) ==
  /\ Len(E.ht) = G.L
  /\ \A j \in 1 .. G.L :
       LET i == at - G.L + j
       IN NearT(E.ht[j], G.t[i]) /\ NearY(E.hy[j], Ref.y[i])
DerivativesMatch ==
  \A j \in DOMAIN E.ht : NearVec(F(S.p, E.ht[j], E.hy[j]), E.hf[j], RMul("1e-9", RAdd(FScale(S.p, E.ht[j], E.hy[j]), "1e-30")))

\* the failing evaluation belongs to the step after the point where the solver is, or to an event
\* or interpolation within the step before it
NextTime(at) == RMax(G.tn[at], IF at < Last(G) THEN G.t[at + 1] ELSE G.tn[at])
FaultIsNear(at) ==
  LET lo == IF E.fault = "event" \/ E.op = "run" THEN G.t[at - 1] ELSE G.t[at]
      hi == IF E.fault = "event" THEN G.t[at] ELSE NextTime(at)
  IN RLe(RSub(lo, tol.t), E.tau) /\ RLe(E.tau, RAdd(hi, tol.t))

Clause ==
  IF E.kind = "hang" THEN "does not return"
  ELSE IF Where = {} THEN IF NeedsMore /\ Ref.end = "" /\ ~E.raised THEN "" ELSE "not at an accepted point of the trajectory"
  ELSE IF At < pos THEN "goes back"
  ELSE IF ~NearY(E.y, Ref.y[At]) THEN "the state is not that of the accepted point"
  ELSE IF ~HistoryMatches(At) THEN "the history is not the last accepted points"
  ELSE IF ~(REq(E.ht[G.L], E.t) /\ E.hy[G.L] = E.y /\ E.hf[G.L] = E.f) THEN "the history does not end with the current point"
  ELSE IF ~DerivativesMatch THEN "a recorded derivative is not the right-hand side at its point"
  ELSE IF E.op = "new" THEN IF At = G.L THEN "" ELSE "does not start where it should"
  ELSE IF E.raised THEN
    IF E.kind = "ok" THEN "the failure is swallowed"
    ELSE IF At > Outc.pos THEN "goes beyond what was asked for"
    ELSE IF E.op # "interpolate" /\ ~FaultIsNear(At) THEN "not at the point that was accepted last"
    ELSE ""
  ELSE IF NeedsMore THEN
    IF Ref.end = "" THEN ""
    ELSE IF E.kind = "ok" THEN "a step that fails is reported as made"
    ELSE IF At # Last(G) THEN "not at the point that was accepted last"
    ELSE ""
  ELSE IF E.kind # Outc.kind THEN "a call that has to work fails: " \o E.kind
  ELSE IF At # Outc.pos THEN "goes to another point than without the failure"
  ELSE IF ~SameTimes(Outc.rows) THEN "returns other times than without the failure"
  ELSE IF ~SameStates(Outc.rows) THEN "returns other states than without the failure"
  ELSE ""

Stop == Where = {} \/ (NeedsMore /\ Ref.end = "" /\ ~E.raised)

-----------------------------------------------------------------------------
Init == sn = 1 /\ k = 0 /\ pos = 0 /\ tol = [t |-> "0", y |-> "0"]
Fail(c) ==
  /\ PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> c]))
  /\ sn' = sn + 1 /\ k' = 0 /\ UNCHANGED <<pos, tol>>
Build ==
  /\ sn <= Len(Sessions) /\ k = 0
  /\ IF S.built # "ok" THEN Fail("cannot be built: " \o S.built)
     ELSE /\ k' = 1 /\ sn' = sn /\ pos' = S.grids[1].L /\ tol' = Tolerances(S)
Consume ==
  /\ sn <= Len(Sessions) /\ k > 0
  /\ LET c == Clause
     IN IF c # "" THEN Fail(c)
        ELSE /\ IF k < Len(S.events) /\ ~Stop THEN sn' = sn /\ k' = k + 1 ELSE sn' = sn + 1 /\ k' = 0
             /\ pos' = IF Where = {} THEN pos ELSE At
             /\ UNCHANGED tol
Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ UNCHANGED <<k, pos, tol>>
Spec == Init /\ [][Build \/ Consume \/ Finish]_vars
=============================================================================
