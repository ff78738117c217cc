------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Event tracking in run_events, step by step.                             *)
(*                                                                         *)
(* An event function is described by                                       *)
(*   dir   the direction watched: 1 upwards, -1 downwards, 0 any           *)
(*   term  whether it ends the integration                                 *)
(* and, at each point of the grid, its value.  Over a step, from value a   *)
(* to value b, an event is found if the values leave or reach zero in the  *)
(* watched direction; it is placed where the function is zero: at the end  *)
(* of the step, at its start, or inside it.                                *)
(***************************************************************************)
EXTENDS Solver

Upwards(a, b) == RLe(a, "0") /\ RLe("0", b)
Downwards(a, b) == RLe("0", a) /\ RLe(b, "0")

Triggers(dir, a, b) ==
  CASE dir = 1 -> Upwards(a, b)
    [] dir = -1 -> Downwards(a, b)
    [] OTHER -> Upwards(a, b) \/ Downwards(a, b)

Place(a, b) == IF REq(b, "0") THEN "end" ELSE IF REq(a, "0") THEN "start" ELSE "inside"

\* An event found at the very time of the one found last is the same event.
IsSame(lst, t) == lst # <<>> /\ REq(lst[Len(lst)], t)

(***************************************************************************)
(* One step.  found[j]: <<>> or <<time>>, for each function j; lists: the  *)
(* times recorded so far.  Without a terminal event, all are recorded.     *)
(* The earliest terminal one ends the integration: what was found later in *)
(* the step did not happen.                                                *)
(***************************************************************************)
Record(lists, found) ==
  [j \in DOMAIN lists |->
     IF found[j] = <<>> \/ IsSame(lists[j], found[j][1]) THEN lists[j] ELSE Append(lists[j], found[j][1])]

Ending(fns, found) == {j \in DOMAIN fns : fns[j].term /\ found[j] # <<>>}

EndTime(fns, found) ==
  LET S == {found[j][1] : j \in Ending(fns, found)}
  IN CHOOSE t \in S : \A u \in S : RLe(t, u)

StepEvents(fns, lists, found) ==
  IF Ending(fns, found) = {}
    THEN [lists |-> Record(lists, found), end |-> "none"]
    ELSE LET T == EndTime(fns, found)
         IN [lists |-> Record(lists, [j \in DOMAIN found |->
                                        IF found[j] # <<>> /\ RLt(T, found[j][1]) THEN <<>> ELSE found[j]]),
             end |-> T]

(***************************************************************************)
(* Rows returned: the requested times that were reached, in the order      *)
(* requested, and at last the terminal event.                              *)
(***************************************************************************)
EventRows(ts, start, now, end) ==
  IF end = "none" THEN SelectSeq(ts, LAMBDA x : RLe(x, now))
  ELSE Append(SelectSeq(ts, LAMBDA x : RLe(x, start) \/ RLt(x, end)), end)
=============================================================================
