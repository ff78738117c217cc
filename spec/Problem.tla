------------------------------ MODULE Problem ------------------------------
(***************************************************************************)
(* The family of right-hand sides the conformance runs use:                *)
(*   f(t, y) = M y + c + d t + q y*y + e t y      (componentwise products) *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

Dim(p) == Len(p.c)

F(p, t, y) ==
  VAdd(VAdd(MVec(p.M, y), VAdd(p.c, VScale(t, p.d))),
       VAdd(VHad(p.q, VHad(y, y)), VScale(t, VHad(p.e, y))))

MaxNorm(v) == RMaxOf(VAbs(v))

\* size of the terms f is made of: what rounding errors are relative to
FScale(p, t, y) ==
  RMaxOf(VAdd(VAdd(MVec([i \in DOMAIN p.M |-> VAbs(p.M[i])], VAbs(y)), VAdd(VAbs(p.c), VScale(RAbs(t), VAbs(p.d)))),
              VAdd(VHad(VAbs(p.q), VHad(y, y)), VScale(RAbs(t), VHad(VAbs(p.e), VAbs(y))))))

NearVec(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1 .. Len(a) : RLe(RAbs(RSub(a[i], b[i])), tol)

AllNum(v) == \A i \in DOMAIN v : RIsNum(v[i])
=============================================================================
