---------------------------- MODULE SolverTrace ----------------------------
(***************************************************************************)
(* Checks recorded sessions with real solvers against Solver.tla.          *)
(*                                                                         *)
(* A session is a new solver and a list of calls.  The grid was recorded   *)
(* from a solver of its own that made single steps only; dense holds the   *)
(* values a third solver, driven by single steps, interpolates.  After     *)
(* each call the solver's whole visible state was recorded.                *)
(*                                                                         *)
(* The specification's state follows the session: where the solver should  *)
(* be after each call is what Solver!Call says, starting from where it was *)
(* observed before.  Each event is judged by named clauses; the first that *)
(* fails ends its session with a VERDICT line.                             *)
(***************************************************************************)
EXTENDS Solver, Problem, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Checking(p) == IOEnv.PROP = p

VARIABLES sn,     \* session
          k,      \* event within the session
          pos,    \* point of the grid the solver was observed at
          tol     \* [t, y]: tolerances for times and states of this session

vars == <<sn, k, pos, tol>>

S == Sessions[sn]
E == S.events[k]

\* times and states of the session's grid, in the form Solver.tla wants
G == [L |-> S.grid.L, t |-> S.grid.t,
      tn |-> [i \in DOMAIN S.grid.t |-> RDbl(RAdd(S.grid.t[i], S.grid.h[i]))]]

Tolerances(s) ==
  LET g == s.grid
      n == Len(g.t)
      steps == [i \in 1 .. (n - g.L) |-> RSub(g.t[g.L + i], g.t[g.L + i - 1])]
      least == RNeg(RMaxOf([i \in DOMAIN steps |-> RNeg(steps[i])]))
      big == RMaxOf([i \in DOMAIN g.y |-> MaxNorm(g.y[i])])
  IN [t |-> RMul("1e-6", least), y |-> RMul("1e-9", RAdd(big, "1e-30")),
      f |-> RMul("1e-9", RAdd(RMaxOf([i \in DOMAIN g.f |-> MaxNorm(g.f[i])]), "1e-30"))]

NearT(a, b) == RLe(RAbs(RSub(a, b)), tol.t)
NearY(a, b) == NearVec(a, b, tol.y)

\* the points of the grid the solver may be at
Where(e) == {i \in G.L .. Last(G) : NearT(G.t[i], e.t)}

StateOf(row) ==
  IF row.at > 0 THEN S.grid.y[row.at] ELSE S.dense[row.t]

Outc == Call(G, S.tb, pos, [op |-> E.op, n |-> E.n, upto |-> E.upto, ts |-> E.ts])

SameTimes(rows, exact) ==
  /\ Len(E.rt) = Len(rows)
  /\ \A i \in DOMAIN rows : IF exact THEN REq(E.rt[i], rows[i].t) ELSE NearT(E.rt[i], rows[i].t)

SameStates(rows) ==
  /\ Len(E.ry) = Len(rows)
  /\ \A i \in DOMAIN rows : NearY(E.ry[i], StateOf(rows[i]))

HistoryMatches(at) ==
  E.ht # <<>> =>
    /\ Len(E.ht) = G.L
    /\ \A j \in 1 .. G.L :
         LET i == at - G.L + j
         IN /\ NearT(E.ht[j], G.t[i])
            /\ NearY(E.hy[j], S.grid.y[i])

DerivativesMatch ==
  LET one(t, y, f) == NearVec(F(S.p, t, y), f, RMul("1e-9", RAdd(FScale(S.p, t, y), "1e-30")))
  IN /\ one(E.t, E.y, E.f)
     /\ \A j \in DOMAIN E.ht : one(E.ht[j], E.hy[j], E.hf[j])

(***************************************************************************)
(* The clauses: <<property, name, holds>>.                                 *)
(***************************************************************************)
FirstFailing(cl) ==
  LET bad == {i \in DOMAIN cl : Checking(cl[i][1]) /\ ~cl[i][3]}
  IN IF bad = {} THEN "" ELSE cl[CHOOSE i \in bad : \A j \in bad : i <= j][2]

(***************************************************************************)
(* Calls with times next to the ends of the recorded history, which is     *)
(* the one seen after the previous call.                                   *)
(***************************************************************************)
AtEnds(at) ==
  LET pr == S.events[k - 1]
      in(x) == RLe(pr.ht[1], x) /\ RLe(x, pr.t)
      ok == \A i \in DOMAIN E.ts : in(E.ts[i])
      state(r) == \E i \in pos - G.L + 1 .. pos : NearT(G.t[i], E.ts[r]) /\ NearY(E.ry[r], S.grid.y[i])
  IN IF E.op # (IF Checking("C04") THEN "run" ELSE IF Checking("C06") THEN "interpolate" ELSE "") \/ pr.ht = <<>> THEN ""
     ELSE IF ~ok THEN IF E.kind # "ValueError" THEN "expected ValueError, but: " \o E.kind
                      ELSE IF at # pos THEN "moves the solver" ELSE ""
     ELSE IF E.kind # "ok" THEN "refuses a time within the history: " \o E.kind
     ELSE IF at # pos THEN "moves the solver"
     ELSE IF Len(E.rt) # Len(E.ts) \/ Len(E.ry) # Len(E.ts) THEN "does not return what was requested"
     ELSE IF ~\A r \in DOMAIN E.ts : REq(E.rt[r], E.ts[r]) THEN "returned times are not those requested"
     ELSE IF ~\A r \in DOMAIN E.ts : state(r) THEN "state at an end of the history is not the recorded one"
     ELSE ""

\* stopped at point `at' although more was asked for and the next point does not lie beyond `limit', to the last bit
\* (decided where the times of the two solvers are the same to the last bit)
StopsShort(o, at, limit) ==
  \/ at < o.pos - 1
  \/ at < o.pos /\ at < Last(G) /\ REq(E.t, G.t[at]) /\ REq(E.h, S.grid.h[at]) /\ RLe(G.t[at + 1], limit)

\* Evaluated only after the solver was found on the grid, at point `at'.
Judge(o, at) ==
  IF Checking("C01") THEN
    IF at < pos THEN "goes back"
    ELSE IF ~NearY(E.y, S.grid.y[at]) THEN "state differs from that of single steps"
    ELSE IF E.op = "step" /\ ~\A r \in DOMAIN E.rt :
              \E i \in pos .. Last(G) : NearT(E.rt[r], G.t[i]) /\ r \in DOMAIN E.ry /\ NearY(E.ry[r], S.grid.y[i])
         THEN "returned point differs from that of single steps"
    ELSE ""
  ELSE IF Checking("C02") THEN
    IF E.op \notin {"step", "skip"} THEN ""
    \* to the last bit
    ELSE IF E.upto # None /\ at > pos /\ RLt(E.upto, E.t) THEN "goes beyond upto_t"
    ELSE IF E.upto # None /\ \E r \in DOMAIN E.rt : RLt(E.upto, E.rt[r]) THEN "returned a point beyond upto_t"
    ELSE IF E.edge THEN
       IF o.kind # "ok" \/ S.tb # "inf" THEN ""
       ELSE IF E.kind # "ok" THEN "call fails: " \o E.kind
       ELSE IF StopsShort(o, at, E.upto) THEN "stops too early"
       ELSE IF E.n # -1 /\ at > pos + E.n THEN "goes too far"
       ELSE IF E.op = "step" /\ ~SameTimes(Between(G, pos, at), FALSE) THEN "returned times are not those passed"
       ELSE IF E.op = "step" /\ ~SameStates(Between(G, pos, at)) THEN "returned states are not those passed"
       ELSE ""
    ELSE IF o.kind # "ok" THEN ""
    ELSE IF E.kind # "ok" THEN "call fails: " \o E.kind
    ELSE IF at < o.pos THEN "stops too early"
    ELSE IF at > o.pos THEN "goes too far"
    ELSE IF ~SameTimes(o.rows, FALSE) THEN "returned times are not those passed"
    ELSE IF ~SameStates(o.rows) THEN "returned states are not those passed"
    ELSE ""
  ELSE IF Checking("C03") THEN
    IF RLt(S.tb, E.t) /\ at # G.L THEN "the solver is beyond t_bound"
    ELSE IF \E r \in DOMAIN E.rt : RLt(S.tb, E.rt[r]) THEN "returned a point beyond t_bound"
    ELSE IF E.edge THEN
       \* a request beyond the bound, by however little
       IF o.kind = "ValueError" THEN
          IF E.kind # "ValueError" THEN "should raise ValueError, but: " \o E.kind
          ELSE IF at # pos THEN "not where a refused call leaves the solver"
          ELSE ""
       ELSE IF E.kind \notin {"ok", o.kind, "RuntimeError"} THEN "raises " \o E.kind
       ELSE IF StopsShort(o, at, S.tb) THEN "stops at another point than the last that fits"
       ELSE ""
    ELSE IF o.kind # "ok" /\ E.op # "interpolate" /\ ~(E.op = "run" /\ RLt(MinTime(E.ts), Oldest(G, pos))) THEN
       IF E.kind # o.kind THEN "should raise " \o o.kind \o ", but: " \o E.kind
       ELSE IF at # o.pos THEN "not where a refused call leaves the solver"
       ELSE ""
    ELSE IF o.kind = "ok" /\ S.tb # "inf" /\ E.op # "interpolate" THEN
       IF E.kind # "ok" THEN "refused although within t_bound: " \o E.kind
       ELSE IF at # o.pos THEN "stops at another point than the last that fits"
       ELSE IF E.op = "run" /\ ~SameTimes(o.rows, TRUE) THEN "does not return the points that can be reached"
       ELSE ""
    ELSE ""
  ELSE IF E.ends THEN AtEnds(at)
  ELSE IF Checking("C04") THEN
    IF E.op # "run" \/ E.edge THEN ""
    ELSE IF E.kind # o.kind THEN "expected " \o o.kind \o ", but: " \o E.kind
    ELSE IF at # o.pos THEN "advances to another point than the first that covers the request"
    ELSE IF ~SameTimes(o.rows, TRUE) THEN "returned times are not those requested"
    ELSE IF ~SameStates(o.rows) THEN "returned states are not the solution at those times"
    ELSE ""
  ELSE IF Checking("C05") THEN
    IF ~HistoryMatches(at) THEN "history is not the last accepted points"
    ELSE IF E.ht # <<>> /\ ~(REq(E.ht[G.L], E.t) /\ E.hy[G.L] = E.y /\ E.hf[G.L] = E.f) THEN "history does not end with the current point"
    ELSE IF ~DerivativesMatch THEN "recorded derivative is not the right-hand side at the recorded point"
    ELSE ""
  ELSE IF Checking("C06") THEN
    IF E.op # "interpolate" THEN ""
    ELSE IF E.kind # o.kind THEN "expected " \o o.kind \o ", but: " \o E.kind
    ELSE IF at # pos THEN "moves the solver"
    ELSE IF ~SameStates(o.rows) THEN "interpolated state depends on what was done before"
    ELSE IF ~NearY(E.y, S.grid.y[at]) \/ ~HistoryMatches(at) THEN "alters the recorded history"
    ELSE ""
  ELSE ""

NewClause ==
  IF E.kind = "hang" THEN "does not return"
  ELSE IF Where(E) # {G.L} THEN
         IF Checking("C01") \/ Checking("C05") THEN "does not start where the other solver did" ELSE ""
  ELSE ""

Clause ==
  IF E.op = "new" THEN NewClause
  ELSE IF E.kind = "hang" THEN "does not return"
  ELSE IF Where(E) = {}
    THEN IF Checking("C01") THEN "not at a point that single steps reach"
         ELSE IF Checking("C03") /\ RLt(S.tb, E.t) THEN "the solver is beyond t_bound"
         ELSE IF Outc.pos < Last(G) /\ (Checking("C02") \/ Checking("C04") \/ Checking("C05") \/ Checking("C06"))
                THEN "not at a point that single steps reach" ELSE ""
  ELSE IF Outc.pos >= Last(G) THEN ""
  ELSE Judge(Outc, CHOOSE i \in Where(E) : \A j \in Where(E) : i <= j)

\* a solver that cannot be built: only if its start-up does not fit in t_bound
BuiltClause ==
  IF S.built = "ok" THEN IF "short" \in DOMAIN S /\ S.short THEN "single steps fail: " \o S.grid.end ELSE ""
  ELSE IF S.built = "ValueError" /\ S.grid.t # <<>> /\ RLt(S.tb, G.t[G.L]) THEN ""
  ELSE "cannot be built: " \o S.built

Verdict(c) == PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> c]))

-----------------------------------------------------------------------------
Init == sn = 1 /\ k = 0 /\ pos = 0 /\ tol = [t |-> "0", y |-> "0", f |-> "0"]

Fail(c) ==
  /\ Verdict(c)
  /\ sn' = sn + 1 /\ k' = 0 /\ UNCHANGED <<pos, tol>>

\* construction of the solver
Build ==
  /\ sn <= Len(Sessions) /\ k = 0
  /\ IF BuiltClause # "" THEN Fail(BuiltClause)
     ELSE IF S.events = <<>> THEN /\ sn' = sn + 1 /\ k' = 0 /\ UNCHANGED <<pos, tol>>
     ELSE /\ k' = 1 /\ sn' = sn /\ pos' = S.grid.L /\ tol' = Tolerances(S)

\* one call
Consume ==
  /\ sn <= Len(Sessions) /\ k > 0
  /\ LET c == Clause
     IN IF c # "" THEN Fail(c)
        ELSE /\ IF k < Len(S.events)
                  /\ Where(E) # {} 
                  /\ (E.op = "new" \/ Outc.pos < Last(G))
                  THEN sn' = sn /\ k' = k + 1
                  ELSE sn' = sn + 1 /\ k' = 0
             /\ pos' = IF Where(E) = {} THEN pos ELSE CHOOSE i \in Where(E) : \A j \in Where(E) : i <= j
             /\ UNCHANGED tol

Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ UNCHANGED <<k, pos, tol>>

Next == Build \/ Consume \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
