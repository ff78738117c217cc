----------------------------- MODULE MCEvents -----------------------------
(***************************************************************************)
(* Event tracking as a state machine: every combination of directions,     *)
(* terminal flags and values at the points of a grid, for two event        *)
(* functions that are linear within each step.  Time is in sixths of a     *)
(* step so that zeros are at whole numbers.                                *)
(*                                                                         *)
(* The promises are stated about the whole history of values, without      *)
(* following Events.tla.                                                   *)
(***************************************************************************)
EXTENDS Events, TLC, Json

CONSTANTS NSteps,     \* steps of the run
          Emitting

Values == << {"-1", "0", "1"}, {"-2", "0", "1"} >>

Flags == [dir : {-1, 0, 1}, term : BOOLEAN]

VARIABLES fns,     \* the two functions
          hist,    \* hist[j]: values at the points so far
          lists,   \* event times recorded
          end      \* "none", or the time of the terminal event

vars == <<fns, hist, lists, end>>

Pt(i) == RMul("6", i - 1)   \* time of point i

Steps == Len(hist[1]) - 1

\* where a function that is linear over the step from point i to i + 1 is zero
Zero(i, a, b) ==
  CASE Place(a, b) = "end" -> Pt(i + 1)
    [] Place(a, b) = "start" -> Pt(i)
    [] OTHER -> RAdd(Pt(i), RMul("6", RDiv(a, RSub(a, b))))

Init ==
  /\ fns \in [1 .. 2 -> Flags]
  /\ \E a \in Values[1], b \in Values[2] : hist = <<<<a>>, <<b>>>>
  /\ lists = <<<<>>, <<>>>>
  /\ end = "none"

Next ==
  /\ end = "none"
  /\ Steps < NSteps
  /\ \E a \in Values[1], b \in Values[2] :
       LET new == <<a, b>>
           n == Len(hist[1])
           found == [j \in 1 .. 2 |-> IF Triggers(fns[j].dir, hist[j][n], new[j]) THEN <<Zero(n, hist[j][n], new[j])>> ELSE <<>>]
           s == StepEvents(fns, lists, found)
       IN /\ hist' = [j \in 1 .. 2 |-> Append(hist[j], new[j])]
          /\ lists' = s.lists
          /\ end' = s.end
          /\ UNCHANGED fns
          /\ Emitting => PrintT("TRANS " \o ToJson([dirs |-> <<fns[1].dir, fns[2].dir>>, terms |-> <<fns[1].term, fns[2].term>>,
                                                     from |-> [j \in 1 .. 2 |-> hist[j][n]], to |-> new]))

Spec == Init /\ [][Next]_vars

\* with one value sequence, so that each pair of neighbouring values is seen once per flags
View == <<fns, [j \in 1 .. 2 |-> hist[j][Len(hist[j])]], Len(hist[1]), end>>

-----------------------------------------------------------------------------
Fn == 1 .. 2

\* the function at a time, on the whole axis covered so far
ValueAt(j, t) ==
  LET i == CHOOSE i \in 1 .. Steps : RLe(Pt(i), t) /\ RLe(t, Pt(i + 1))
      th == RDiv(RSub(t, Pt(i)), "6")
  IN RAdd(RMul(RSub("1", th), hist[j][i]), RMul(th, hist[j][i + 1]))

Horizon == IF end = "none" THEN Pt(Steps + 1) ELSE end

Strict(j, i) == RSign(hist[j][i]) * RSign(hist[j][i + 1]) < 0
Watched(j, i) ==   \* a strict sign change over step i, in the direction watched
  Strict(j, i) /\ (fns[j].dir = 0 \/ fns[j].dir = RSign(hist[j][i + 1]))

In(t, i) == RLe(Pt(i), t) /\ RLe(t, Pt(i + 1))
Inside(t, i) == RLt(Pt(i), t) /\ RLt(t, Pt(i + 1))

\* C07: each strict sign change watched for is reported, once
EveryChange ==
  \A j \in Fn : \A i \in 1 .. Steps :
    Watched(j, i) =>
      LET z == Zero(i, hist[j][i], hist[j][i + 1])
      IN IF RLe(z, Horizon) THEN Cardinality({k \in DOMAIN lists[j] : Inside(lists[j][k], i)}) = 1
         ELSE ~\E k \in DOMAIN lists[j] : Inside(lists[j][k], i)

\* C07: a step whose values are strictly on one side, or change against the direction, has none inside
NoOther ==
  \A j \in Fn : \A i \in 1 .. Steps : ~Watched(j, i) => ~\E k \in DOMAIN lists[j] : Inside(lists[j][k], i)

\* C07: zero at a point: reported if and only if the function reaches or leaves it in the watched direction
AtPoints ==
  \A j \in Fn : \A i \in 1 .. Steps + 1 :
    LET v == hist[j]
        reaches(s) == i > 1 /\ RSign(v[i - 1]) * s <= 0
        leaves(s) == i <= Steps /\ RSign(v[i + 1]) * s > 0
        wanted == IF fns[j].dir = 0 THEN (i > 1 \/ (i <= Steps /\ ~REq(v[i + 1], "0")))
                  ELSE reaches(fns[j].dir) \/ leaves(fns[j].dir)
        here == \E k \in DOMAIN lists[j] : REq(lists[j][k], Pt(i))
    IN IF REq(v[i], "0")
         THEN IF RLt(Horizon, Pt(i)) THEN ~here ELSE (end = "none" => (here <=> wanted)) /\ (here => wanted)
         ELSE ~here

\* C07: in order, without duplicates
Ordered == \A j \in Fn : \A k \in 1 .. Len(lists[j]) - 1 : RLt(lists[j][k], lists[j][k + 1])

\* C08: where the function is zero
AtZeros == \A j \in Fn : \A k \in DOMAIN lists[j] : REq(ValueAt(j, lists[j][k]), "0")

\* C09: nothing after the end; the end is an event of a terminal function, and it is the first of those
EndsFirst ==
  end # "none" =>
    /\ \A j \in Fn : \A k \in DOMAIN lists[j] : RLe(lists[j][k], end)
    /\ \E j \in Fn : fns[j].term /\ lists[j] # <<>> /\ REq(lists[j][Len(lists[j])], end)
    /\ \A j \in Fn : fns[j].term => \A k \in DOMAIN lists[j] : REq(lists[j][k], end)
TerminalEnds == \A j \in Fn : (fns[j].term /\ lists[j] # <<>>) => end # "none"

\* C09: rows for every choice of requested times
Requests == {<<"0", "3", "6", "9">>, <<"10", "2">>, <<"18">>}
Rows ==
  \A ts \in Requests :
    LET r == EventRows(ts, "0", Pt(Steps + 1), end)
    IN /\ end # "none" => /\ r # <<>> /\ r[Len(r)] = end
                          /\ \A i \in DOMAIN r : RLe(r[i], end)
                          /\ \A i \in DOMAIN ts : RLt(ts[i], end) => \E k \in DOMAIN r : r[k] = ts[i]
       /\ end = "none" => \A i \in DOMAIN ts : RLe(ts[i], Pt(Steps + 1)) <=> \E k \in DOMAIN r : r[k] = ts[i]
=============================================================================
