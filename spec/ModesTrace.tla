----------------------------- MODULE ModesTrace -----------------------------
(***************************************************************************)
(* The same solver, problem and calls, executed in several ways: pure      *)
(* Python or compiled, the right-hand side compiled beforehand or not, its *)
(* parameters passed or bound.  The product of these executions moves in   *)
(* lock step: after each call all of them gave the same kind of outcome,   *)
(* returned the same arrays and are in the same state (times and states    *)
(* to rounding, which the root finder of implicit methods magnifies).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sn, k
vars == <<sn, k>>

S == Sessions[sn]
R == S.runs[1]      \* pure Python, parameters bound
Others == 2 .. Len(S.runs)

Near(a, b) ==
  IF RIsNum(a) /\ RIsNum(b) THEN RLe(RAbs(RSub(a, b)), RMul(S.tol, RAdd(S.scale, RAbs(b)))) ELSE a = b
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i])
NearSeqs(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NearSeq(a[i], b[i])

Differs(i) ==
  LET a == S.runs[i].events
      e == a[k]
      w == R.events[k]
  IN IF k > Len(a) THEN "stops before the others"
     ELSE IF e.kind # w.kind THEN e.op \o " gives " \o e.kind \o " instead of " \o w.kind
     ELSE IF ~NearSeqs(e.ret, w.ret) THEN e.op \o " returns something else"
     ELSE IF ~NearSeqs(e.obs, w.obs) THEN "after " \o e.op \o " the solver is in another state"
     ELSE ""

Clause ==
  LET bad == {i \in Others : Differs(i) # ""}
  IN IF R.events[k].kind = "hang" THEN "does not return"
     ELSE IF bad = {} THEN ""
     ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
          IN S.runs[i].form \o ": " \o Differs(i) \o " (compared with " \o R.form \o ")"

Init == sn = 1 /\ k = 1
Consume ==
  /\ sn <= Len(Sessions)
  /\ LET c == Clause
     IN IF c # "" THEN PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> c])) /\ sn' = sn + 1 /\ k' = 1
        ELSE IF k = Len(R.events) THEN sn' = sn + 1 /\ k' = 1
        ELSE sn' = sn /\ k' = k + 1
Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ k' = 1
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
