------------------------------- MODULE Fault --------------------------------
(***************************************************************************)
(* Steps that may fail at any evaluation of the right-hand side.           *)
(*                                                                         *)
(* A step from point p evaluates Stages stages in work space, then the     *)
(* derivative at the new point, and then appends (t, y, f) to the history. *)
(* A failure may strike at any evaluation; the call ends, the solver does  *)
(* not.  The two rules that make this safe are parameters, so that TLC     *)
(* shows them to be necessary (with either FALSE, Intact or DenseOk is     *)
(* violated) and sufficient:                                               *)
(*   EvaluateFirst  nothing is appended before the last evaluation         *)
(*   KeepStages     the dense output of the last accepted step does not    *)
(*                  read work space that the next step overwrites          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Stages, MaxPoint, MaxFaults, L, EvaluateFirst, KeepStages

VARIABLES hist,     \* the last L points: records [t, f], f the derivative's point
          work,     \* stage -> the point from which it was evaluated
          kept,     \* the stages the dense output of the last step is made of
          pc,       \* 0: between calls; 1..Stages: evaluating; Stages + 1: the derivative; Stages + 2: appended, derivative to do
          accepted, \* ghost: number of accepted points
          faults

vars == <<hist, work, kept, pc, accepted, faults>>

Init ==
  /\ hist = [i \in 1 .. L |-> [t |-> 0, f |-> 0]]
  /\ work = [i \in 1 .. Stages |-> -1] /\ kept = [i \in 1 .. Stages |-> -1]
  /\ pc = 0 /\ accepted = 0 /\ faults = 0

Begin == pc = 0 /\ accepted < MaxPoint /\ pc' = 1 /\ UNCHANGED <<hist, work, kept, accepted, faults>>

Evaluate ==
  /\ pc \in 1 .. Stages
  /\ work' = [work EXCEPT ![pc] = hist[L].t]
  /\ pc' = pc + 1
  /\ UNCHANGED <<hist, kept, accepted, faults>>

Push(r) == hist' = [i \in 1 .. L |-> IF i = L THEN r ELSE hist[i + 1]]

\* a variable step method may find the error too large, and evaluate the stages again
Reject == pc = Stages + 1 /\ pc' = 1 /\ UNCHANGED <<hist, work, kept, accepted, faults>>

Accept ==
  /\ pc = Stages + 1
  /\ IF EvaluateFirst
       THEN /\ Push([t |-> hist[L].t + 1, f |-> hist[L].t + 1])
            /\ kept' = work /\ accepted' = accepted + 1 /\ pc' = 0
            /\ UNCHANGED <<work, faults>>
       ELSE /\ Push([t |-> hist[L].t + 1, f |-> hist[1].f])   \* the slot still holds the oldest derivative
            /\ pc' = Stages + 2 /\ UNCHANGED <<work, kept, accepted, faults>>

Complete ==
  /\ pc = Stages + 2
  /\ hist' = [hist EXCEPT ![L].f = hist[L].t]
  /\ kept' = work /\ accepted' = accepted + 1 /\ pc' = 0
  /\ UNCHANGED <<work, faults>>

\* the evaluation that was to be made fails, and with it the call
Strike == pc # 0 /\ faults < MaxFaults /\ pc' = 0 /\ faults' = faults + 1 /\ UNCHANGED <<hist, work, kept, accepted>>

Next == Begin \/ Evaluate \/ Reject \/ Accept \/ Complete \/ Strike
Spec == Init /\ [][Next]_vars

Dense == IF KeepStages THEN kept ELSE work
Old(n) == IF n < 0 THEN 0 ELSE n

\* between calls the history is the last accepted points, each with its own derivative
Intact == pc = 0 => \A i \in 1 .. L : hist[i].t = Old(accepted - L + i) /\ hist[i].f = hist[i].t
\* and the dense output is that of the last accepted step
DenseOk == (pc = 0 /\ accepted > 0) => \A i \in 1 .. Stages : Dense[i] = accepted - 1
=============================================================================
