------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Solvers and the arrays they share with nobody.                          *)
(*                                                                         *)
(* A heap of arrays.  Each solver owns the arrays of its history; the      *)
(* caller holds the arrays it passed in and those it was given.  A call    *)
(* moves one solver, replaces contents of arrays that solver owns, and     *)
(* hands out new arrays.  The caller may overwrite any array it holds.     *)
(*                                                                         *)
(* The discipline - copy what is passed in, copy what is handed out - is a *)
(* parameter, so that the model shows it to be necessary and sufficient.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Solvers,      \* names of solvers
          Len_,         \* length of a history
          MaxSteps,     \* of each solver
          MaxHeld,      \* arrays the caller holds at most
          CopyIn, CopyOut   \* the discipline

Junk == 1000

VARIABLES heap,     \* array -> content
          owned,    \* solver -> sequence of arrays (its history, newest last), <<>> before it is built
          held,     \* arrays the caller holds
          \* ghosts: what things should be
          start,    \* solver -> the value it was built from
          steps,    \* solver -> steps made
          should    \* array -> content, for the arrays the caller holds

vars == <<heap, owned, held, start, steps, should>>

Fresh == Cardinality(DOMAIN heap) + 1
Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]

\* the method: the next state depends on the whole history (here: on its newest state)
NextValue(v) == v + 1

Init ==
  /\ heap = [a \in {1} |-> 0]          \* an array of the caller, to build solvers from
  /\ held = {1}
  /\ owned = [s \in Solvers |-> <<>>]
  /\ start = [s \in Solvers |-> 0] /\ steps = [s \in Solvers |-> 0]
  /\ should = [a \in {1} |-> 0]

RECURSIVE Extend(_, _, _)
Extend(h, n, v) == IF n = 0 THEN h ELSE Extend(Put(h, Cardinality(DOMAIN h) + 1, v), n - 1, v)

Build(s, a) ==
  /\ owned[s] = <<>> /\ a \in held
  /\ LET n == Cardinality(DOMAIN heap)
         v == heap[a]
     IN IF CopyIn
        THEN /\ heap' = Extend(heap, Len_, v)
             /\ owned' = [owned EXCEPT ![s] = [i \in 1 .. Len_ |-> n + i]]
        ELSE /\ heap' = Extend(heap, Len_ - 1, v)
             /\ owned' = [owned EXCEPT ![s] = [i \in 1 .. Len_ |-> IF i = Len_ THEN a ELSE n + i]]
  /\ start' = [start EXCEPT ![s] = heap[a]]
  /\ UNCHANGED <<held, steps, should>>

\* the history moves by one: the arrays stay, their contents shift
Advance(s, h) ==
  LET o == owned[s]
  IN [a \in DOMAIN h |->
       IF \E i \in 1 .. Len_ : o[i] = a
       THEN LET i == CHOOSE i \in 1 .. Len_ : o[i] = a
            IN IF i < Len_ THEN heap[o[i + 1]] ELSE NextValue(heap[o[Len_]])
       ELSE h[a]]

Call(s) ==
  /\ owned[s] # <<>> /\ steps[s] < MaxSteps /\ Cardinality(held) < MaxHeld
  /\ LET h == Advance(s, heap)
         new == h[owned[s][Len_]]
     IN IF CopyOut
        THEN /\ heap' = Put(h, Fresh, new)
             /\ held' = held \cup {Fresh}
             /\ should' = Put(should, Fresh, start[s] + steps[s] + 1)
        ELSE /\ heap' = h
             /\ held' = held \cup {owned[s][Len_]}
             /\ should' = Put(should, owned[s][Len_], start[s] + steps[s] + 1)
  /\ steps' = [steps EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<owned, start>>

Scribble(a) ==
  /\ a \in held
  /\ heap' = [heap EXCEPT ![a] = Junk]
  /\ should' = [should EXCEPT ![a] = Junk]
  /\ UNCHANGED <<owned, held, start, steps>>

Next == \/ \E s \in Solvers, a \in held : Build(s, a)
        \/ \E s \in Solvers : Call(s)
        \/ \E a \in held : Scribble(a)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* each solver is where it would be if it were alone
SolversUndisturbed ==
  \A s \in Solvers : owned[s] # <<>> =>
     \A i \in 1 .. Len_ :
        LET back == Len_ - i IN heap[owned[s][i]] = start[s] + (IF steps[s] > back THEN steps[s] - back ELSE 0)

\* what the caller holds is what it was given or wrote
CallerUndisturbed == \A a \in held : heap[a] = should[a]

NothingShared ==
  LET mine(s) == {owned[s][i] : i \in DOMAIN owned[s]}
  IN /\ \A s \in Solvers : mine(s) \cap held = {}
     /\ \A s, u \in Solvers : s # u => mine(s) \cap mine(u) = {}
=============================================================================
