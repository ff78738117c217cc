----------------------------- MODULE MCSolver -----------------------------
(***************************************************************************)
(* The solver interface as a state machine, for exhaustive checking: every *)
(* call with every argument from a small set, from every reachable point,  *)
(* of small grids that stand for                                           *)
(*   "fixed"     a fixed step method (lands on what it proposes)           *)
(*   "multi"     a multistep method with a start-up history of 3 points    *)
(*   "fill"      the same without start-up (repeated initial point)        *)
(*   "adaptive"  a variable step method, some of whose steps are shortened *)
(* The properties say what the documentation promises, without following   *)
(* the operational definitions of Solver.tla.                              *)
(*                                                                         *)
(* Emit prints every transition as JSON: the conformance driver walks this *)
(* graph with real solvers.                                                *)
(***************************************************************************)
EXTENDS Solver, TLC, Json

CONSTANTS NPoints,    \* points after the starting one
          Emitting    \* print the transitions

Str(i) == ToString(i)

Times(first, k) == [i \in 1 .. k |-> Str(first + i - 1)]

GridOf(name) ==
  CASE name = "fixed" ->
         [L |-> 2, t |-> <<"0">> \o Times(0, NPoints + 1),
          tn |-> <<"0">> \o Times(1, NPoints + 1)]
    [] name = "multi" ->
         [L |-> 3, t |-> Times(-2, NPoints + 3), tn |-> Times(-1, NPoints + 3)]
    [] name = "fill" ->
         [L |-> 3, t |-> <<"0", "0">> \o Times(0, NPoints + 1),
          tn |-> <<"0", "0">> \o Times(1, NPoints + 1)]
    [] name = "adaptive" ->
         [L |-> 2, t |-> <<"0">> \o Times(0, NPoints + 1),
          tn |-> <<"0">> \o [i \in 1 .. NPoints + 1 |->
                               IF i % 2 = 0 THEN RAdd(Str(i), "5/4") ELSE Str(i)]]

GridNames == {"fixed", "multi", "fill", "adaptive"}

\* Targets: on points, around them, and between them.
Targets ==
  {"-3", "-1", "-1/2"} \cup {Str(i) : i \in 0 .. NPoints - 1}
    \cup {RAdd(Str(i), d) : i \in 0 .. NPoints - 2, d \in {"1/8", "1/2", "7/8"}}

Bounds == {"inf", "0", "1/2", "1", "5/2", Str(NPoints - 1)}

NSteps == {0, 1, 2, 4}

StepOps == [op : {"step", "skip"}, n : {-1} \cup NSteps, upto : {None} \cup Targets, ts : {<<>>}]

RunLists == {<<a>> : a \in Targets}
            \cup {<<"1/2", "1/2">>, <<"5/2", "1/2", "1">>, <<"2", "1/8">>, <<"0", "3/2", "3">>, <<"7/8", "3", "7/8">>}
RunOps == [op : {"run"}, n : {-1}, upto : {None}, ts : RunLists]
InterpolateOps == [op : {"interpolate"}, n : {-1}, upto : {None}, ts : {<<a>> : a \in Targets}]

Ops == StepOps \cup RunOps \cup InterpolateOps

VARIABLES grid,   \* which grid
          tb,     \* t_bound
          pos,    \* the solver: the current point
          last    \* observation: the last call, where it was made, its outcome

vars == <<grid, tb, pos, last>>

NoCall == [op |-> "new", n |-> -1, upto |-> None, ts |-> <<>>]

Init ==
  /\ grid \in GridNames
  /\ tb \in Bounds
  /\ pos = GridOf(grid).L
  /\ last = [from |-> GridOf(grid).L, call |-> NoCall, out |-> Outcome(pos, "ok", <<>>)]

\* The model is finite: calls that would need more points than there are, are left out.
Enough(G, o) == o.pos < Last(G)

Do(op) ==
  /\ last.call = NoCall
  /\ op.op \in {"step", "skip"} => (op.upto = None => op.n + pos < Last(GridOf(grid)))
  /\ LET o == Call(GridOf(grid), tb, pos, op)
     IN /\ Enough(GridOf(grid), o)
        /\ pos' = o.pos
        /\ last' = [from |-> pos, call |-> op, out |-> o]
  /\ UNCHANGED <<grid, tb>>

\* The observation is forgotten before the next call, so that it does not multiply the states.
Ready ==
  /\ last.call # NoCall
  /\ last' = [from |-> pos, call |-> NoCall, out |-> Outcome(pos, "ok", <<>>)]
  /\ UNCHANGED <<grid, tb, pos>>

Next == Ready \/ \E op \in Ops : Do(op)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What is promised. *)

G0 == GridOf(grid)

TypeOK == pos \in G0.L .. Last(G0)

\* C03
NeverBeyondBound == RLe(Now(G0, pos), tb) \/ pos = G0.L

\* C01: forward along the grid
Forward == pos >= last.from

c == last.call
o == last.out
from == last.from
taken == o.pos - from

Refused == o.kind # "ok"
Past(x) == RLt(x, Now(G0, from))

\* what repeated single steps give
RECURSIVE Singles(_, _, _)
Singles(G, p, k) ==
  IF k = 0 THEN p
  ELSE LET x == StepCall(G, tb, p, -1, None) IN IF x.kind # "ok" THEN p ELSE Singles(G, x.pos, k - 1)

\* C01: any call is some number of single steps
SingleSteps == Singles(G0, from, taken) = pos

StepsWithin(lim) == \A i \in from .. pos - 1 : RLe(G0.tn[i], lim)

\* C02, C03
StepContract ==
  c.op \in {"step", "skip"} =>
    /\ c.upto = None =>
         LET want == IF c.n = -1 THEN 1 ELSE c.n
         IN /\ taken <= want
            /\ ~Refused <=> taken = want
            /\ Refused => o.kind = "RuntimeError" /\ RLt(tb, G0.tn[pos])
            /\ StepsWithin(tb)
    /\ (c.upto # None /\ Past(c.upto)) => ~Refused /\ taken = 0
    /\ (c.upto # None /\ ~Past(c.upto) /\ RLt(tb, c.upto)) => o.kind = "ValueError" /\ taken = 0
    /\ (c.upto # None /\ ~Past(c.upto) /\ RLe(c.upto, tb)) =>
         /\ ~Refused
         /\ StepsWithin(c.upto)
         /\ RLe(Now(G0, pos), c.upto)
         /\ c.n = -1 => RLt(c.upto, G0.tn[pos])                       \* goes as far as it can
         /\ c.n # -1 => taken <= c.n /\ (taken < c.n => RLt(c.upto, G0.tn[pos]))
    /\ (c.op = "step" /\ ~Refused) =>
         /\ Len(o.rows) = taken
         /\ \A i \in 1 .. taken : o.rows[i] = [t |-> G0.t[from + i], at |-> from + i]
    /\ (c.op = "skip" \/ Refused) => o.rows = <<>>

\* C04, C03
IsSubsequence(s, u) ==
  \E m \in [1 .. Len(s) -> 1 .. Len(u)] :
    /\ \A i, j \in 1 .. Len(s) : i < j => m[i] < m[j]
    /\ \A i \in 1 .. Len(s) : s[i] = u[m[i]]

RunContract ==
  c.op = "run" =>
    LET tooOld == \E i \in DOMAIN c.ts : RLt(c.ts[i], Oldest(G0, from))
        tooFar == \E i \in DOMAIN c.ts : RLt(tb, c.ts[i])
        times == [i \in DOMAIN o.rows |-> o.rows[i].t]
    IN /\ Refused <=> (tooOld \/ tooFar)
       /\ Refused => o.kind = "ValueError" /\ taken = 0
       /\ ~Refused =>
            /\ IsSubsequence(times, c.ts)
            \* only times that cannot be reached are missing
            /\ \A i \in DOMAIN c.ts : (~\E k \in DOMAIN times : times[k] = c.ts[i])
                  => RLt(Now(G0, pos), c.ts[i]) /\ RLt(tb, G0.tn[pos])
            /\ tb = "inf" => times = c.ts
            \* no step that is not needed
            /\ taken > 0 => \E i \in DOMAIN c.ts : RLt(G0.t[pos - 1], c.ts[i])

\* C06: a dense value comes from the step that contains the time
DenseFromItsStep ==
  c.op \in {"run", "interpolate"} =>
    \A k \in DOMAIN o.rows :
      LET a == o.rows[k].at
      IN IF a > 0 THEN REq(G0.t[a], o.rows[k].t)
         ELSE RLt(G0.t[-a - 1], o.rows[k].t) /\ RLt(o.rows[k].t, G0.t[-a])

InterpolateContract ==
  c.op = "interpolate" =>
    /\ taken = 0
    /\ ~Refused <=> \E i, j \in Hist(G0, from) : RLe(G0.t[i], c.ts[1]) /\ RLe(c.ts[1], G0.t[j])
    /\ Refused => o.kind = "ValueError"

\* C05: the history is the last points, in time order
HistoryOrdered ==
  \A i, j \in Hist(G0, pos) : i < j => RLe(G0.t[i], G0.t[j])

-----------------------------------------------------------------------------
Emit ==
  (Emitting /\ c # NoCall) =>
    PrintT("TRANS " \o ToJson([grid |-> grid, tb |-> tb, from |-> from, to |-> pos, call |-> c, kind |-> o.kind]))
=============================================================================
