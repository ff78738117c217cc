------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of solvers: names and aliases in any letter case, groups,  *)
(* and the filters of get_solvers.                                         *)
(*                                                                         *)
(* State: a sequence of classes, in the order they were defined.  A class: *)
(*   cls     its name                                                      *)
(*   names   its name and aliases, as [s, low]                             *)
(*   group   [s, low]                                                      *)
(*   implicit, fixed, rk, multi                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Class(cls, names, group, implicit, fixed, rk, multi) ==
  [cls |-> cls, names |-> names, group |-> group, implicit |-> implicit, fixed |-> fixed, rk |-> rk, multi |-> multi]

K(s, low) == [s |-> s, low |-> low]

AB(s, low) == Class(s, <<K(s, low)>>, K("Adams-Bashforth", "adams-bashforth"), FALSE, TRUE, FALSE, TRUE)
AM(s, low) == Class(s, <<K(s, low)>>, K("Adams-Moulton", "adams-moulton"), TRUE, TRUE, FALSE, TRUE)
BDF(s, low) == Class(s, <<K(s, low)>>, K("BDF", "bdf"), TRUE, TRUE, FALSE, TRUE)
RKF(s, low) == Class(s, <<K(s, low)>>, K("Runge-Kutta", "runge-kutta"), FALSE, TRUE, TRUE, FALSE)
RKV(s, low) == Class(s, <<K(s, low)>>, K("Runge-Kutta", "runge-kutta"), FALSE, FALSE, TRUE, FALSE)

\* what the package defines
Builtin == <<
  AB("AdamsBashforth1", "adamsbashforth1"), AB("AdamsBashforth2", "adamsbashforth2"), AB("AdamsBashforth3", "adamsbashforth3"),
  AB("AdamsBashforth4", "adamsbashforth4"), AB("AdamsBashforth5", "adamsbashforth5"),
  AM("AdamsMoulton1", "adamsmoulton1"), AM("AdamsMoulton2", "adamsmoulton2"), AM("AdamsMoulton3", "adamsmoulton3"),
  AM("AdamsMoulton4", "adamsmoulton4"), AM("AdamsMoulton5", "adamsmoulton5"),
  Class("ForwardEuler", <<K("ForwardEuler", "forwardeuler"), K("Euler", "euler")>>, K("Euler", "euler"), FALSE, TRUE, FALSE, TRUE),
  Class("BackwardEuler", <<K("BackwardEuler", "backwardeuler")>>, K("Euler", "euler"), TRUE, TRUE, FALSE, TRUE),
  BDF("BDF1", "bdf1"), BDF("BDF2", "bdf2"), BDF("BDF3", "bdf3"), BDF("BDF4", "bdf4"), BDF("BDF5", "bdf5"), BDF("BDF6", "bdf6"),
  RKF("Runge2", "runge2"), RKF("Runge3", "runge3"), RKF("Heun3", "heun3"), RKF("RungeKutta4", "rungekutta4"),
  RKF("RungeKutta3_8", "rungekutta3_8"),
  RKV("RungeKutta23", "rungekutta23"), RKV("RungeKutta45", "rungekutta45"), RKV("DOP853", "dop853") >>

Range(s) == {s[i] : i \in DOMAIN s}
Lows(c) == {c.names[i].low : i \in DOMAIN c.names}
AllLows(R) == UNION {Lows(R[i]) : i \in DOMAIN R}
GroupLows(R) == {R[i].group.low : i \in DOMAIN R}

Found(R, low) == {i \in DOMAIN R : low \in Lows(R[i])}
Find(R, low) == IF Found(R, low) = {} THEN "ValueError" ELSE R[CHOOSE i \in Found(R, low) : TRUE].cls

\* the name a group goes by: that of the first class in it
GroupName(R, low) ==
  LET i == CHOOSE i \in DOMAIN R : R[i].group.low = low /\ \A j \in 1 .. i - 1 : R[j].group.low # low IN R[i].group.s
Groups(R) == {GroupName(R, low) : low \in GroupLows(R)}

\* filters: "True", "False" or "None" for each
Passes(x, want) == want = "None" \/ (want = "True") = x
Select(R, lows, f) ==
  {R[i].cls : i \in {i \in DOMAIN R : /\ (lows = {} \/ R[i].group.low \in lows)
                                      /\ Passes(R[i].implicit, f.implicit) /\ Passes(R[i].fixed, f.fixed)
                                      /\ Passes(R[i].rk, f.rk) /\ Passes(R[i].multi, f.multi)}}

\* a definition: a class, and whether it is a valid one
Refused(R, c, valid) == ~valid \/ Lows(c) \cap AllLows(R) # {}
Define(R, c, valid) == IF Refused(R, c, valid) THEN R ELSE Append(R, c)
=============================================================================
