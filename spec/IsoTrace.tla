------------------------------ MODULE IsoTrace ------------------------------
(***************************************************************************)
(* Checks recorded interleavings of several real solvers, during which the *)
(* caller overwrites arrays it holds, against the promise of Isolation.tla *)
(* (SolversUndisturbed, CallerUndisturbed).                                *)
(*                                                                         *)
(* For every solver of a session, alone[s] is the list of what the same    *)
(* calls did in a process where nothing else happened: the solver's        *)
(* visible state and the arrays returned.  After each event the states of  *)
(* all solvers and the contents of all arrays the caller holds are known.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sn, k,
          n,      \* calls each solver has made
          want,   \* what the arrays held by the caller should contain
          seen    \* the state each solver was last observed in
vars == <<sn, k, n, want, seen>>

S == Sessions[sn]
E == S.events[k]
Solvers == DOMAIN S.alone

Scale(s) == S.scale
Near(a, b) == IF RIsNum(a) /\ RIsNum(b) THEN RLe(RAbs(RSub(a, b)), RMul("1e-8", RAdd(Scale(0), RAbs(b)))) ELSE a = b
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i])
NearSeqs(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NearSeq(a[i], b[i])

A == S.alone[E.s][n[E.s] + 1]

Clause ==
  LET others == IF E.op = "scribble" THEN Solvers ELSE Solvers \ {E.s}
      disturbed == {x \in others : E.obs[x] # seen[x]}
      new == IF E.op = "scribble" THEN 0 ELSE Len(E.ret)
      old == Len(E.held) - new
      altered == {i \in 1 .. Len(want) : E.held[i] # (IF E.op = "scribble" /\ i = E.a THEN E.content ELSE want[i])}
  IN IF disturbed # {} THEN
       (IF E.op = "scribble" THEN "writing to an array the caller holds (" \o S.names[E.a] \o ") alters a solver"
        ELSE "a call of one solver alters another")
     ELSE IF old # Len(want) THEN "harness: arrays held"
     ELSE IF altered # {} THEN
       (IF E.op = "scribble" THEN "writing to one array alters another one the caller holds: "
        ELSE E.op \o " alters an array the caller holds: ") \o S.names[CHOOSE i \in altered : TRUE]
     ELSE IF E.op = "scribble" THEN ""
     ELSE IF E.kind # A.kind THEN E.op \o " gives " \o E.kind \o " but alone: " \o A.kind
     ELSE IF ~NearSeqs(E.ret, A.ret) THEN E.op \o " returns something else than alone"
     ELSE IF ~NearSeqs(E.obs[E.s], A.obs) THEN "after " \o E.op \o " the solver is not where it is alone"
     ELSE ""

Reset == n' = <<>> /\ want' = <<>> /\ seen' = <<>>
Begin ==
  /\ sn <= Len(Sessions) /\ k = 0
  /\ k' = 1 /\ sn' = sn
  /\ n' = [s \in Solvers |-> 0] /\ want' = S.passed /\ seen' = [s \in Solvers |-> <<>>]

Consume ==
  /\ sn <= Len(Sessions) /\ k > 0
  /\ LET c == Clause
     IN IF c # "" THEN PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> c])) /\ sn' = sn + 1 /\ k' = 0 /\ Reset
        ELSE IF k = Len(S.events) THEN sn' = sn + 1 /\ k' = 0 /\ Reset
        ELSE /\ sn' = sn /\ k' = k + 1
             /\ want' = E.held
             /\ seen' = E.obs
             /\ n' = IF E.op = "scribble" THEN n ELSE [n EXCEPT ![E.s] = @ + 1]

Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ k' = 0 /\ Reset

Init == sn = 1 /\ k = 0 /\ n = <<>> /\ want = <<>> /\ seen = <<>>
Spec == Init /\ [][Begin \/ Consume \/ Finish]_vars
=============================================================================
