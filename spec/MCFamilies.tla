---------------------------- MODULE MCFamilies ----------------------------
(***************************************************************************)
(* The shapes that a method defined by its coefficients can have, and what *)
(* the package has to do with them:                                        *)
(*   Runge-Kutta, s stages, with an embedded formula or not (the estimate  *)
(*   over the stages, or over the stages and the derivative at the end);   *)
(*   linear multistep, a weights of states, b weights of derivatives, over *)
(*   a history of L points (as long as a, but at least 2, unless given).   *)
(*                                                                         *)
(* For multistep methods the model makes the start and a few steps over    *)
(* the grid 0, 1, 2, ... and keeps the points of the history: with it the  *)
(* weights always meet the last points, each as soon as it exists.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxStages, MaxWeights, MaxLen, Steps

RKShapes == {[kind |-> k, s |-> s] : k \in {"rk", "adaptive", "fsal"}, s \in 1 .. MaxStages}
MSShapes ==
  {x \in {[kind |-> k, a |-> a, b |-> b, len |-> l] : k \in {"ams", "ims"}, a \in 1 .. MaxWeights, b \in 1 .. MaxWeights, l \in {0} \cup 2 .. MaxLen} :
     LET L == IF x.len = 0 THEN (IF x.a > 2 THEN x.a ELSE 2) ELSE x.len IN x.a <= L /\ x.b <= L}

VARIABLES shape, hist, now
vars == <<shape, hist, now>>

Length(x) == IF x.len = 0 THEN (IF x.a > 2 THEN x.a ELSE 2) ELSE x.len
Push(h, x) == Append(Tail(h), x)
Last(h, n) == SubSeq(h, Len(h) - n + 1, Len(h))

Init ==
  /\ shape \in RKShapes \cup MSShapes
  /\ PrintT("SHAPE " \o ToJson(shape))
  /\ hist = IF "a" \in DOMAIN shape THEN [i \in 1 .. Length(shape) |-> 0] ELSE <<0, 0>>
  /\ now = 0

\* the first stepper makes the points 1 .. a - 1, then the method goes on
Next == now < Steps /\ now' = now + 1 /\ hist' = Push(hist, now + 1) /\ UNCHANGED shape
Spec == Init /\ [][Next]_vars

IsMS == "a" \in DOMAIN shape
LengthKept == Len(hist) = IF IsMS THEN Length(shape) ELSE 2
\* once started, the weights of the states meet the last a points of the grid
StatesMet == IsMS /\ now >= shape.a - 1 => Last(hist, shape.a) = [i \in 1 .. shape.a |-> now - shape.a + i]
\* and those of the derivatives the last b points, the initial one standing for those before it
SlopesMet == IsMS => Last(hist, shape.b) = [i \in 1 .. shape.b |-> IF now - shape.b + i < 0 THEN 0 ELSE now - shape.b + i]
=============================================================================
