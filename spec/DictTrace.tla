----------------------------- MODULE DictTrace -----------------------------
(***************************************************************************)
(* Checks recorded operations on CaseInsensitiveDict objects.              *)
(* A session has several dictionaries: number 1 is new and empty, "copy"   *)
(* makes a new one of another, "new" builds one of items.  After each      *)
(* operation all of them were observed in full.                            *)
(***************************************************************************)
EXTENDS CIDict, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sn, k, ds   \* ds: the dictionaries of the session

vars == <<sn, k, ds>>

S == Sessions[sn]
E == S.events[k]

\* [state of all dictionaries, result]
Outcome ==
  CASE E.op = "new" -> Result(Append(ds, PutAll(Empty, E.items)), "ok")
    [] E.op = "copy" -> Result(Append(ds, ds[E.d]), "ok")
    [] E.op = "eqdict" -> Result(ds, IF Pairs(ds[E.d]) = Pairs(ds[E.other]) THEN "True" ELSE "False")
    [] E.op = "updatedict" -> Result([ds EXCEPT ![E.d] = PutAll(ds[E.d], [i \in DOMAIN ds[E.other] |->
                                        [k |-> [s |-> ds[E.other][i].s, low |-> ds[E.other][i].low], v |-> ds[E.other][i].v]])], "ok")
    [] E.op = "popitem" -> \* any entry: the one observed to be gone
         LET gone == {i \in DOMAIN ds[E.d] : E.r = ds[E.d][i].s \o "=" \o ds[E.d][i].v}
         IN IF ds[E.d] = Empty THEN Result(ds, Missing)
            ELSE IF gone = {} THEN Result(ds, "an entry")
            ELSE Result([ds EXCEPT ![E.d] = Without(ds[E.d], CHOOSE i \in gone : TRUE)], E.r)
    [] OTHER -> LET a == Apply(ds[E.d], [op |-> E.op, k |-> E.k, v |-> E.v, items |-> E.items])
                IN Result([ds EXCEPT ![E.d] = a.d], a.r)

Seen(d, o) ==
  IF o.len # ToString(Len(d)) THEN "length is wrong"
  ELSE IF o.iter # [i \in DOMAIN d |-> d[i].s] THEN "iteration does not give the keys as last set, in order"
  ELSE IF o.keys # o.iter THEN "keys are wrong"
  ELSE IF o.values # [i \in DOMAIN d |-> d[i].v] THEN "values are wrong"
  ELSE IF o.items # [i \in DOMAIN d |-> <<d[i].s, d[i].v>>] THEN "items are wrong"
  ELSE IF o.lower # [i \in DOMAIN d |-> <<d[i].low, d[i].v>>] THEN "lower_items are wrong"
  ELSE IF \E i \in DOMAIN S.universe : o.has[i] # (IF Has(d, S.universe[i].low) THEN "True" ELSE "False") THEN "membership is wrong"
  ELSE IF \E i \in DOMAIN S.universe :
            o.get[i] # (IF Has(d, S.universe[i].low) THEN d[Ix(d, S.universe[i].low)].v ELSE Missing) THEN "lookup is wrong"
  ELSE ""

Clause ==
  LET a == Outcome
      bad == IF Len(E.obs) # Len(a.d) THEN {} ELSE {i \in DOMAIN a.d : Seen(a.d[i], E.obs[i]) # ""}
  IN IF E.r # a.r THEN E.op \o " gives the wrong result"
     ELSE IF Len(E.obs) # Len(a.d) THEN E.op \o ": wrong number of dictionaries"
     ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN
          "after " \o E.op \o (IF "d" \in DOMAIN E /\ E.d # i THEN " of another dictionary: " ELSE ": ") \o Seen(a.d[i], E.obs[i])
     ELSE ""

Init == sn = 1 /\ k = 1 /\ ds = <<Empty>>

Consume ==
  /\ sn <= Len(Sessions)
  /\ LET c == Clause
     IN IF c # "" THEN PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> c])) /\ sn' = sn + 1 /\ k' = 1 /\ ds' = <<Empty>>
        ELSE IF k < Len(S.events) THEN k' = k + 1 /\ sn' = sn /\ ds' = Outcome.d
        ELSE sn' = sn + 1 /\ k' = 1 /\ ds' = <<Empty>>

Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ UNCHANGED <<k, ds>>

Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
