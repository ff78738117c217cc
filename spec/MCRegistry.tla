---------------------------- MODULE MCRegistry ----------------------------
(***************************************************************************)
(* Every order of definitions, valid or not, from a small set of classes   *)
(* that compete for names and groups, on top of those of the package.      *)
(***************************************************************************)
EXTENDS Registry

CONSTANT MaxDefined

Names == {K("X", "x"), K("x", "x"), K("Y", "y"), K("RUNGE2", "runge2"), K("euler", "euler")}
GroupKeys == {K("Euler", "euler"), K("EULER", "euler"), K("New", "new")}
Classes == {Class(n.s, <<n>> \o al, g, b, ~b, b, ~b) : n \in Names, al \in {<<>>, <<K("Z", "z")>>}, g \in GroupKeys, b \in BOOLEAN}

VARIABLES R, last
vars == <<R, last>>

Init == R = Builtin /\ last = [c |-> Builtin[1], valid |-> TRUE, before |-> <<>>]
Next == /\ Len(R) < Len(Builtin) + MaxDefined
        /\ \E c \in Classes, valid \in BOOLEAN : R' = Define(R, c, valid) /\ last' = [c |-> c, valid |-> valid, before |-> R]
Spec == Init /\ [][Next]_vars

NamesAreUnique == \A i, j \in DOMAIN R : i # j => Lows(R[i]) \cap Lows(R[j]) = {}
EachFoundByItsNames == \A i \in DOMAIN R : \A n \in Lows(R[i]) : Find(R, n) = R[i].cls
NothingElseFound == Find(R, "nothing") = "ValueError"
NoFilter == [implicit |-> "None", fixed |-> "None", rk |-> "None", multi |-> "None"]
GroupsPartition ==
  /\ \A i \in DOMAIN R : Cardinality({g \in GroupLows(R) : R[i].cls \in Select([k \in {i} |-> R[i]], {g}, NoFilter)}) = 1
  /\ Select(R, {}, NoFilter) = UNION {Select(R, {g}, NoFilter) : g \in GroupLows(R)}
FiltersSplit ==
  \A f \in {"implicit", "fixed", "rk", "multi"} :
    LET yes == Select(R, {}, [NoFilter EXCEPT ![f] = "True"])
        no == Select(R, {}, [NoFilter EXCEPT ![f] = "False"])
    IN yes \cup no = Select(R, {}, NoFilter)
AddsExactlyItself ==
  last.before # <<>> =>
    /\ Len(R) - Len(last.before) = IF last.valid /\ Lows(last.c) \cap AllLows(last.before) = {} THEN 1 ELSE 0
    /\ SubSeq(R, 1, Len(last.before)) = last.before
    /\ AllLows(R) \subseteq AllLows(last.before) \cup Lows(last.c)
=============================================================================
