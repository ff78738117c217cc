---------------------------- MODULE EventsTrace ----------------------------
(***************************************************************************)
(* Checks recorded run_events calls of real solvers against Events.tla.    *)
(*                                                                         *)
(* Sessions as in SolverTrace.  A run_events call also has                 *)
(*   fns   the event functions: dir, term, gv (values at the points of the *)
(*         grid), scale (a bound of the terms it is a sum of;              *)
(*         exact: they depend on time alone)                               *)
(*   et    event times reported, per function;  ey  the states             *)
(*   probe per function and reported event: the values of the function     *)
(*         on the reference solution just before, at, and just after it    *)
(*   atend values of the functions at the last row                         *)
(*   single per function: it changes sign at most once in the last step    *)
(***************************************************************************)
EXTENDS SolverTrace, Events

N == Len(E.fns)
Fns == E.fns

Plain == RunCall(G, S.tb, pos, E.ts)

Trig(j, i) == Triggers(Fns[j].dir, Fns[j].gv[i - 1], Fns[j].gv[i])

TerminalSteps == {i \in pos + 1 .. Plain.pos : \E j \in 1 .. N : Fns[j].term /\ Trig(j, i)}
HasEnd == TerminalSteps # {}
EndStep == CHOOSE i \in TerminalSteps : \A k2 \in TerminalSteps : i <= k2
To == IF HasEnd THEN EndStep ELSE Plain.pos

\* an event found over step i: at = the point it is at, or 0 if it is inside the step
Item(j, i) ==
  LET pl == Place(Fns[j].gv[i - 1], Fns[j].gv[i])
  IN [step |-> i, at |-> CASE pl = "end" -> i [] pl = "start" -> i - 1 [] OTHER -> 0]

Dup(acc, it) == acc # <<>> /\ it.at # 0 /\ acc[Len(acc)].at = it.at

RECURSIVE Expected(_, _, _, _)
Expected(j, i, upto, acc) ==
  IF i > upto THEN acc
  ELSE LET it == Item(j, i)
       IN Expected(j, i + 1, upto, IF ~Trig(j, i) \/ Dup(acc, it) THEN acc ELSE Append(acc, it))

\* events of function j that are certain: those of the steps before the one that ends the run
Sure(j) == Expected(j, pos + 1, IF HasEnd THEN EndStep - 1 ELSE To, <<>>)

Eps(i) == RMul("1e-14", RAdd(RAbs(G.t[i]), RSub(G.t[i], G.t[i - 1])))
AtPoint(x, i) == RLe(RAbs(RSub(x, G.t[i])), IF i > 1 THEN Eps(i) ELSE "0")
InStep(x, i) == RLe(RSub(G.t[i - 1], Eps(i)), x) /\ RLe(x, RAdd(G.t[i], Eps(i)))
Matches(x, it) == IF it.at # 0 THEN AtPoint(x, it.at) ELSE InStep(x, it.step)

\* The values of a function of the state are those of the reference solver only to rounding:
\* where one is that close to zero, its sign is not known.
Unsure ==
  \E j \in 1 .. N : ~Fns[j].exact /\ \E i \in pos .. Plain.pos : RLe(RAbs(Fns[j].gv[i]), RMul("1e-11", Fns[j].scale))

(***************************************************************************)
(* C07                                                                     *)
(***************************************************************************)
ListClause(j) ==
  LET sure == Sure(j)
      et == E.et[j]
      n == Len(sure)
  IN IF Len(et) < n THEN "a sign change is not reported"
     ELSE IF Len(et) > n + (IF HasEnd /\ Trig(j, EndStep) THEN 1 ELSE 0) THEN "more events than sign changes"
     ELSE IF \E i \in 1 .. n : ~Matches(et[i], sure[i]) THEN "an event is reported for the wrong step"
     ELSE IF Len(et) > n /\ ~InStep(et[n + 1], EndStep) THEN "an event is reported for the wrong step"
     ELSE IF \E i \in 1 .. Len(et) - 1 : ~RLt(et[i], et[i + 1]) THEN "events of a function are out of order, or repeated"
     ELSE IF Len(E.ey[j]) # Len(et) THEN "there is not one state for each event"
     ELSE ""

FirstOf(s) == LET bad == {i \in DOMAIN s : s[i] # ""} IN IF bad = {} THEN "" ELSE s[CHOOSE i \in bad : \A k2 \in bad : i <= k2]

Detection(at) ==
  IF Plain.kind # "ok" THEN IF E.kind = Plain.kind /\ at = pos THEN "" ELSE "should refuse and stay, but: " \o E.kind
  ELSE IF E.kind # "ok" THEN "call fails: " \o E.kind
  ELSE IF Unsure THEN ""
  ELSE IF Len(E.et) # N \/ Len(E.ey) # N THEN "there is not one list for each event function"
  ELSE IF ~HasEnd /\ at # To THEN "tracking events changes how far the solver goes"
  ELSE LET c == FirstOf([j \in 1 .. N |-> ListClause(j)])
       IN IF c # "" THEN c
          ELSE IF HasEnd THEN ""
          ELSE IF ~SameTimes(Plain.rows, TRUE) \/ ~SameStates(Plain.rows) THEN "tracking events changes the solution returned"
          ELSE ""

(***************************************************************************)
(* C08                                                                     *)
(***************************************************************************)
Noise(f) == RMul("1e-14", f.scale)

Located(j, n, at) ==
  LET x == E.et[j][n]
      pr == E.probe[j][n]
  IN IF ~\E i \in pos + 1 .. at : InStep(x, i) THEN "event lies outside the steps made"
     ELSE IF ~(RLe(RAbs(pr[2]), Noise(Fns[j])) \/ RSign(pr[1]) * RSign(pr[3]) <= 0) THEN "event function is not zero at the event"
     ELSE IF ~(n \in DOMAIN E.ey[j] /\ NearY(E.ey[j][n], S.dense[x])) THEN "state of an event is not the solution at its time"
     ELSE ""

Location(at) ==
  IF E.kind # "ok" \/ Plain.kind # "ok" THEN IF E.kind # Plain.kind THEN "call fails: " \o E.kind ELSE ""
  ELSE FirstOf([j \in 1 .. Len(E.et) |-> FirstOf([n \in DOMAIN E.et[j] |-> Located(j, n, at)])])

(***************************************************************************)
(* C09                                                                     *)
(***************************************************************************)
EndRow == E.rt[Len(E.rt)]

\* where function j ends up in the last step
Extra(j) == IF Len(E.et[j]) > Len(Sure(j)) THEN E.et[j][Len(E.et[j])] ELSE "none"
Repeats(j) == Dup(Sure(j), Item(j, EndStep))

FinalClause(j) ==
  LET it == Item(j, EndStep)
      x == Extra(j)
      later == IF it.at # 0 THEN RLt(EndRow, G.t[it.at])
               ELSE \/ ~E.single[j]
                    \/ RLe(RAbs(E.atend[j]), Noise(Fns[j]))
                    \/ RSign(E.atend[j]) = RSign(Fns[j].gv[EndStep - 1])
  IN IF ~Trig(j, EndStep) THEN ""
     ELSE IF x # "none" THEN
       IF RLt(EndRow, x) THEN "reports an event after the end"
       ELSE IF Fns[j].term /\ RLt(x, EndRow) THEN "does not end at the earliest terminal event"
       ELSE ""
     ELSE IF Repeats(j) THEN ""
     ELSE IF later THEN ""
     ELSE IF Fns[j].term THEN "does not end at the earliest terminal event"
     ELSE "an event before the end is missing"

Rows == EventRows(E.ts, G.t[EndStep - 1], Now(G, EndStep), EndRow)

\* (what was requested up to the start of the last step is there already)
EndRowsMatch == Len(Rows) = Len(E.rt) /\ \A i \in DOMAIN Rows : REq(Rows[i], E.rt[i])

Termination(at) ==
  IF Plain.kind # "ok" \/ Unsure THEN ""
  ELSE IF E.kind # "ok" THEN IF HasEnd THEN "call fails: " \o E.kind ELSE ""
  ELSE IF ~HasEnd THEN
     IF at < To \/ Len(E.rt) < Len(Plain.rows) THEN "ends although no terminal event occurs"
     ELSE IF Len(E.rt) > Len(Plain.rows) THEN "returns more than was requested" ELSE ""
  ELSE IF at < EndStep THEN "ends before the terminal event"
  ELSE IF at > EndStep THEN "goes on after the terminal event"
  ELSE IF E.rt = <<>> THEN "does not return the terminal event"
  ELSE IF \E j \in 1 .. N : Len(E.ey[j]) # Len(E.et[j]) THEN "there is not one state for each event"
  ELSE IF ~InStep(EndRow, EndStep) THEN "last row is not the terminal event"
  ELSE IF ~\E j \in 1 .. N : Fns[j].term /\ Trig(j, EndStep) /\ E.et[j] # <<>> /\ REq(E.et[j][Len(E.et[j])], EndRow)
    THEN "last row is not an event of a terminal function"
  ELSE LET c == FirstOf([j \in 1 .. N |-> FinalClause(j)])
       IN IF c # "" THEN c
          ELSE IF \E i \in DOMAIN E.rt : RLt(EndRow, E.rt[i]) THEN "returns a time after the end"
          ELSE IF ~EndRowsMatch THEN "requested times before the end are missing or out of order"
          ELSE IF ~\A i \in DOMAIN E.rt : NearY(E.ry[i], S.dense[E.rt[i]]) THEN "returned states are not the solution at those times"
          ELSE ""

EvClause ==
  IF E.op = "new" THEN ""
  ELSE IF E.kind = "hang" THEN IF E.op = "run_events" THEN "does not return" ELSE ""
  ELSE IF E.op # "run_events" THEN ""
  ELSE IF Where(E) = {} THEN IF Plain.pos < Last(G) THEN "not at a point that single steps reach" ELSE ""
  ELSE IF Plain.pos >= Last(G) THEN ""
  ELSE LET at == CHOOSE i \in Where(E) : \A j \in Where(E) : i <= j
       IN CASE Checking("C07") -> Detection(at)
            [] Checking("C08") -> Location(at)
            [] Checking("C09") -> Termination(at)

-----------------------------------------------------------------------------
EvConsume ==
  /\ sn <= Len(Sessions) /\ k > 0
  /\ LET c == EvClause
     IN IF c # "" THEN Fail(c)
        ELSE /\ IF k < Len(S.events) /\ Where(E) # {} THEN sn' = sn /\ k' = k + 1 ELSE sn' = sn + 1 /\ k' = 0
             /\ pos' = IF Where(E) = {} THEN pos ELSE CHOOSE i \in Where(E) : \A j \in Where(E) : i <= j
             /\ UNCHANGED tol

EvSpec == Init /\ [][Build \/ EvConsume \/ Finish]_vars
=============================================================================
