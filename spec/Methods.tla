------------------------------ MODULE Methods ------------------------------
(***************************************************************************)
(* The integration methods, as published, in exact numbers.                *)
(*                                                                         *)
(* Runge-Kutta methods: A (rows of the strictly lower triangle, complete), *)
(* B, C; the variable step ones also E, the weights of the error estimate  *)
(* (over the stages and the derivative at the new point), q, the order of  *)
(* the embedded formula, and the dense output.                             *)
(*                                                                         *)
(* Linear multistep methods, oldest point first, with                      *)
(*   y_new = h (sum B_i f_i + Bn f_new) - sum A_i y_i                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, DOP853, Problem

RKNames == {"Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8",
            "RungeKutta23", "RungeKutta45", "DOP853"}
AdaptiveNames == {"RungeKutta23", "RungeKutta45", "DOP853"}

RK(name) ==
  CASE name = "Runge2" ->
         [A |-> <<<<"0", "0">>, <<"1/2", "0">>>>, B |-> <<"0", "1">>, C |-> <<"0", "1/2">>, order |-> 2]
    [] name = "Runge3" ->
         [A |-> <<<<"0", "0", "0", "0">>, <<"1/2", "0", "0", "0">>, <<"0", "1", "0", "0">>, <<"0", "0", "1", "0">>>>,
          B |-> <<"1/6", "2/3", "0", "1/6">>, C |-> <<"0", "1/2", "1", "1">>, order |-> 3]
    [] name = "Heun3" ->
         [A |-> <<<<"0", "0", "0">>, <<"1/3", "0", "0">>, <<"0", "2/3", "0">>>>,
          B |-> <<"1/4", "0", "3/4">>, C |-> <<"0", "1/3", "2/3">>, order |-> 3]
    [] name = "RungeKutta4" ->
         [A |-> <<<<"0", "0", "0", "0">>, <<"1/2", "0", "0", "0">>, <<"0", "1/2", "0", "0">>, <<"0", "0", "1", "0">>>>,
          B |-> <<"1/6", "1/3", "1/3", "1/6">>, C |-> <<"0", "1/2", "1/2", "1">>, order |-> 4]
    [] name = "RungeKutta3_8" ->
         [A |-> <<<<"0", "0", "0", "0">>, <<"1/3", "0", "0", "0">>, <<"-1/3", "1", "0", "0">>, <<"1", "-1", "1", "0">>>>,
          B |-> <<"1/8", "3/8", "3/8", "1/8">>, C |-> <<"0", "1/3", "2/3", "1">>, order |-> 4]
    [] name = "RungeKutta23" ->
         [A |-> <<<<"0", "0", "0">>, <<"1/2", "0", "0">>, <<"0", "3/4", "0">>>>,
          B |-> <<"2/9", "1/3", "4/9">>, C |-> <<"0", "1/2", "3/4">>, order |-> 3,
          \* difference to the second order weights 7/24, 1/4, 1/3, 1/8
          E |-> <<"-5/72", "1/12", "1/9", "-1/8">>, q |-> 2,
          P |-> <<<<"1", "-4/3", "5/9">>, <<"0", "1", "-2/3">>, <<"0", "4/3", "-8/9">>, <<"0", "-1", "1">>>>]
    [] name = "RungeKutta45" ->
         [A |-> <<<<"0", "0", "0", "0", "0", "0">>,
                  <<"1/5", "0", "0", "0", "0", "0">>,
                  <<"3/40", "9/40", "0", "0", "0", "0">>,
                  <<"44/45", "-56/15", "32/9", "0", "0", "0">>,
                  <<"19372/6561", "-25360/2187", "64448/6561", "-212/729", "0", "0">>,
                  <<"9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656", "0">>>>,
          B |-> <<"35/384", "0", "500/1113", "125/192", "-2187/6784", "11/84">>,
          C |-> <<"0", "1/5", "3/10", "4/5", "8/9", "1">>, order |-> 5,
          E |-> <<"-71/57600", "0", "71/16695", "-71/1920", "17253/339200", "-22/525", "1/40">>, q |-> 4,
          P |-> <<<<"1", "-8048581381/2820520608", "8663915743/2820520608", "-12715105075/11282082432">>,
                  <<"0", "0", "0", "0">>,
                  <<"0", "131558114200/32700410799", "-68118460800/10900136933", "87487479700/32700410799">>,
                  <<"0", "-1754552775/470086768", "14199869525/1410260304", "-10690763975/1880347072">>,
                  <<"0", "127303824393/49829197408", "-318862633887/49829197408", "701980252875/199316789632">>,
                  <<"0", "-282668133/205662961", "2019193451/616988883", "-1453857185/822651844">>,
                  <<"0", "40617522/29380423", "-110615467/29380423", "69997945/29380423">>>>]
    [] name = "DOP853" ->
         [A |-> [i \in 1 .. 12 |-> [j \in 1 .. 12 |-> DOP_A[i][j]]],
          B |-> DOP_B, C |-> [i \in 1 .. 12 |-> DOP_C[i]], order |-> 8, q |-> 7,
          E3 |-> Append(VSub(DOP_B, DOP_BHat), "0"), E5 |-> DOP_E5]

MSNames == {"AdamsBashforth1", "AdamsBashforth2", "AdamsBashforth3", "AdamsBashforth4", "AdamsBashforth5", "ForwardEuler",
            "AdamsMoulton1", "AdamsMoulton2", "AdamsMoulton3", "AdamsMoulton4", "AdamsMoulton5", "BackwardEuler",
            "BDF1", "BDF2", "BDF3", "BDF4", "BDF5", "BDF6"}

\* y_new = y_last + h (...)
Adams(B, Bn, p) == [A |-> [i \in DOMAIN B |-> IF i = Len(B) THEN "-1" ELSE "0"], B |-> B, Bn |-> Bn, order |-> p]
BackDiff(A, Bn) == [A |-> A, B |-> [i \in DOMAIN A |-> "0"], Bn |-> Bn, order |-> Len(A)]

MS(name) ==
  CASE name \in {"AdamsBashforth1", "ForwardEuler"} -> Adams(<<"1">>, "0", 1)
    [] name = "AdamsBashforth2" -> Adams(<<"-1/2", "3/2">>, "0", 2)
    [] name = "AdamsBashforth3" -> Adams(<<"5/12", "-16/12", "23/12">>, "0", 3)
    [] name = "AdamsBashforth4" -> Adams(<<"-9/24", "37/24", "-59/24", "55/24">>, "0", 4)
    [] name = "AdamsBashforth5" -> Adams(<<"251/720", "-1274/720", "2616/720", "-2774/720", "1901/720">>, "0", 5)
    [] name \in {"AdamsMoulton1", "BackwardEuler"} -> Adams(<<"0">>, "1", 1)
    [] name = "AdamsMoulton2" -> Adams(<<"1/2">>, "1/2", 2)
    [] name = "AdamsMoulton3" -> Adams(<<"-1/12", "2/3">>, "5/12", 3)
    [] name = "AdamsMoulton4" -> Adams(<<"1/24", "-5/24", "19/24">>, "9/24", 4)
    [] name = "AdamsMoulton5" -> Adams(<<"-19/720", "106/720", "-264/720", "646/720">>, "251/720", 5)
    [] name = "BDF1" -> BackDiff(<<"-1">>, "1")
    [] name = "BDF2" -> BackDiff(<<"1/3", "-4/3">>, "2/3")
    [] name = "BDF3" -> BackDiff(<<"-2/11", "9/11", "-18/11">>, "6/11")
    [] name = "BDF4" -> BackDiff(<<"3/25", "-16/25", "36/25", "-48/25">>, "12/25")
    [] name = "BDF5" -> BackDiff(<<"-12/137", "75/137", "-200/137", "300/137", "-300/137">>, "60/137")
    [] name = "BDF6" -> BackDiff(<<"10/147", "-72/147", "225/147", "-400/147", "450/147", "-360/147">>, "60/147")

ImplicitName(name) == name \in MSNames /\ MS(name).Bn # "0"

(***************************************************************************)
(* One Runge-Kutta step from (t, y), where f0 is the recorded derivative.  *)
(***************************************************************************)
RECURSIVE StagesFrom(_, _, _, _, _, _, _, _)
StagesFrom(A, C, n, p, t, y, h, K) ==
  IF Len(K) >= n THEN K
  ELSE LET s == Len(K) + 1
           row == SubSeq(A[s], 1, s - 1)
           ys == VAdd(y, VScale(h, VLin(row, K, Len(y))))
       IN StagesFrom(A, C, n, p, t, y, h, Append(K, F(p, RAdd(t, RMul(h, C[s])), ys)))

Stages(m, p, t, y, f0, h) == StagesFrom(m.A, m.C, Len(m.B), p, t, y, h, <<f0>>)

RKNew(m, y, h, K) == VAdd(y, VScale(h, VLin(m.B, K, Len(y))))

\* the sizes rounding errors are relative to, in a step from y with stages K
StepScale(p, t, y, h, K) ==
  RAdd(RAdd(MaxNorm(y), RMul(RAbs(h), RMaxOf([i \in DOMAIN K |-> MaxNorm(K[i])]))),
       RMul(RAbs(h), FScale(p, t, y)))
=============================================================================
