------------------------------ MODULE Solver ------------------------------
(***************************************************************************)
(* The public interface of a solver object: step, skip, run, interpolate.  *)
(*                                                                         *)
(* A solver is described by its grid, the sequence of points that repeated *)
(* single steps produce.  A grid G is a record with                        *)
(*   L    length of the history (>= 2)                                     *)
(*   t    sequence of times.  t[1..L] is the history right after           *)
(*        construction (so t[L] is where the solver starts), t[L+1..] the  *)
(*        points reached by 1, 2, ... steps                                *)
(*   tn   tn[i] for i >= L: the time the step from point i proposes to     *)
(*        reach.  A step is taken only if its proposal is within the limit *)
(*        in force.  Fixed step methods land on it; variable step methods  *)
(*        may land before it, if the step is rejected and shortened.       *)
(*                                                                         *)
(* The whole abstract state is pos, the index of the current point.  The   *)
(* operators below define, for each call, its outcome:                     *)
(*   pos   where the solver is afterwards                                  *)
(*   kind  "ok", or the exception: "ValueError", "RuntimeError"            *)
(*   rows  what is returned: a sequence of records [t, at].  at is the     *)
(*         index of a point whose state is returned, or -j for the dense   *)
(*         value at time t within the step that ends in point j            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

None == "none"          \* an optional argument that is not given
Inf  == "inf"

Last(G) == Len(G.t)
Hist(G, pos) == (pos - G.L + 1) .. pos
Oldest(G, pos) == G.t[pos - G.L + 1]
Now(G, pos) == G.t[pos]

Point(G, i) == [t |-> G.t[i], at |-> i]

Outcome(pos, kind, rows) == [pos |-> pos, kind |-> kind, rows |-> rows]

\* (A grid is finite: an outcome at its last point means that the grid was too short to tell.)
\* Where at most n steps lead, none of which proposes to go beyond lim.  n = -1: any number.
RECURSIVE Advance(_, _, _, _)
Advance(G, pos, n, lim) ==
  IF n = 0 \/ pos >= Last(G) \/ ~RLe(G.tn[pos], lim) THEN pos
  ELSE Advance(G, pos + 1, n - 1, lim)

Between(G, from, to) == [i \in 1 .. (to - from) |-> Point(G, from + i)]

(***************************************************************************)
(* step(n, upto_t) and skip(n, upto_t)                                     *)
(***************************************************************************)
StepCall(G, tb, pos, n, upto) ==
  IF upto # None /\ RLt(upto, Now(G, pos))
    THEN Outcome(pos, "ok", <<>>)
  ELSE IF upto # None /\ RLt(tb, upto)
    THEN Outcome(pos, "ValueError", <<>>)
  ELSE LET want == IF n = -1 /\ upto = None THEN 1 ELSE n
           lim == IF upto = None THEN tb ELSE upto
           to == Advance(G, pos, want, lim)
       IN IF upto = None /\ to < pos + want
            THEN Outcome(to, "RuntimeError", <<>>)
            ELSE Outcome(to, "ok", Between(G, pos, to))

SkipCall(G, tb, pos, n, upto) ==
  LET o == StepCall(G, tb, pos, n, upto) IN Outcome(o.pos, o.kind, <<>>)

(***************************************************************************)
(* Dense output: where the state at time tau comes from, when the solver   *)
(* is at point pos and tau is within the history.                          *)
(***************************************************************************)
\* the first point of the history, or after it, at or after tau
Cover(G, pos, tau) ==
  LET S == {i \in (pos - G.L + 1) .. Last(G) : RLe(tau, G.t[i])}
  IN CHOOSE i \in S : \A j \in S : i <= j

Dense(G, pos, tau) ==
  LET j == Cover(G, pos, tau)
  IN [t |-> tau, at |-> IF REq(tau, G.t[j]) THEN j ELSE -j]

InterpolateCall(G, pos, tau) ==
  IF RLe(Oldest(G, pos), tau) /\ RLe(tau, Now(G, pos))
    THEN Outcome(pos, "ok", <<Dense(G, pos, tau)>>)
    ELSE Outcome(pos, "ValueError", <<>>)

(***************************************************************************)
(* run(ts): advance, one step at a time and within t_bound, until the      *)
(* latest of ts is covered.                                                *)
(***************************************************************************)
RECURSIVE AdvanceTo(_, _, _, _)
AdvanceTo(G, tb, pos, tau) ==
  IF pos >= Last(G) \/ RLe(tau, Now(G, pos)) \/ ~RLe(G.tn[pos], tb) THEN pos
  ELSE AdvanceTo(G, tb, pos + 1, tau)

MaxTime(ts) == RMaxOf(ts)
MinTime(ts) == RNeg(RMaxOf([i \in DOMAIN ts |-> RNeg(ts[i])]))

RunCall(G, tb, pos, ts) ==
  IF RLt(MinTime(ts), Oldest(G, pos)) \/ RLt(tb, MaxTime(ts))
    THEN Outcome(pos, "ValueError", <<>>)
    ELSE LET to == AdvanceTo(G, tb, pos, MaxTime(ts))
             reached == SelectSeq(ts, LAMBDA x : RLe(x, Now(G, to)))
         IN Outcome(to, "ok", [i \in DOMAIN reached |-> Dense(G, pos, reached[i])])

(***************************************************************************)
(* One call.  op is a record with op.op in {"step", "skip", "run",         *)
(* "interpolate"} and the arguments n, upto, ts.                           *)
(***************************************************************************)
Call(G, tb, pos, op) ==
  CASE op.op = "step" -> StepCall(G, tb, pos, op.n, op.upto)
    [] op.op = "skip" -> SkipCall(G, tb, pos, op.n, op.upto)
    [] op.op = "run" -> RunCall(G, tb, pos, op.ts)
    [] op.op = "interpolate" -> InterpolateCall(G, pos, op.ts[1])
=============================================================================
