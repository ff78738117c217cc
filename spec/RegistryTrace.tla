--------------------------- MODULE RegistryTrace ---------------------------
(* Checks recorded uses of the solver registry against Registry.tla.       *)
EXTENDS Registry, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sn, k, R
vars == <<sn, k, R>>

S == Sessions[sn]
E == S.events[k]

DefClass == Class(E.c.cls, E.c.names, E.c.group, E.c.implicit, E.c.fixed, E.c.rk, E.c.multi)

After == IF E.op = "define" THEN Define(R, DefClass, E.valid) ELSE R

NoDup(s) == Cardinality(Range(s)) = Len(s)

\* classes with an alias that is their own name in another case (how these are listed is left open)
SelfNamed(r) == {i \in DOMAIN r : \E j \in 2 .. Len(r[i].names) : r[i].names[j].low = r[i].names[1].low}

\* everything the registry shows
Shown(r, o) ==
  IF {<<x.low, x.cls>> : x \in Range(o.names)} # UNION {{<<n, r[i].cls>> : n \in Lows(r[i])} : i \in DOMAIN r} THEN "names in the registry are wrong"
  ELSE IF ~NoDup(o.names) THEN "a name is listed twice"
  ELSE IF Range(o.groups) # Groups(r) \/ ~NoDup(o.groups) THEN "groups are wrong"
  ELSE IF \E x \in Range(o.members) : Range(x.cls) # Select(r, {x.low}, [implicit |-> "None", fixed |-> "None", rk |-> "None", multi |-> "None"]) \/ ~NoDup(x.cls)
    THEN "members of a group are wrong"
  ELSE IF Range(o.plain) \ {r[i].cls : i \in SelfNamed(r)} # {r[i].cls : i \in DOMAIN r \ SelfNamed(r)} \/ ~NoDup(o.plain) THEN "list_solvers without aliases does not give each solver once"
  ELSE IF ~(AllLows(r) \subseteq Range(o.listing)) THEN "list_solvers misses a name"
  ELSE IF ~({r[i].cls : i \in DOMAIN r \ SelfNamed(r)} \subseteq Range(o.dir)) THEN "dir of the package misses a solver"
  ELSE IF ~(AllLows(r) \subseteq Range(o.refusal)) THEN "the refusal of an unknown name does not give every valid one"
  ELSE IF ~(\A i \in DOMAIN r : r[i].cls \in Range(o.solvers)) \/ Len(o.solvers) # Len(r) THEN "get_solvers() does not give each solver once"
  ELSE ""

Clause ==
  CASE E.op = "define" ->
         IF Refused(R, DefClass, E.valid) /\ E.r = "ok" THEN "accepts a definition that should be refused"
         ELSE IF ~Refused(R, DefClass, E.valid) /\ E.r # "ok" THEN "refuses a definition: " \o E.r
         ELSE Shown(After, E.obs)
    [] E.op = "abstract" -> IF E.r # "ok" THEN "refuses an abstract class: " \o E.r ELSE Shown(R, E.obs)
    [] E.op = "start" -> Shown(R, E.obs)
    [] E.op = "get_solver" -> IF E.r # Find(R, E.k.low) THEN "get_solver gives " \o E.r \o " instead of " \o Find(R, E.k.low) ELSE ""
    [] E.op = "attribute" -> LET w == IF Find(R, E.k.low) = "ValueError" THEN "AttributeError" ELSE Find(R, E.k.low)
                             IN IF E.r # w THEN "attribute of the package gives " \o E.r \o " instead of " \o w ELSE ""
    [] E.op = "get_solvers" ->
         IF \E g \in Range(E.groups) : g.low \notin GroupLows(R)
           THEN IF E.kind = "KeyError" THEN "" ELSE "unknown group is not refused: " \o E.kind
         ELSE IF E.kind # "ok" THEN "get_solvers fails: " \o E.kind
         ELSE IF Range(E.cls) # Select(R, {g.low : g \in Range(E.groups)}, E.f) THEN "get_solvers does not give the solvers the filters describe"
         ELSE IF ~NoDup(E.cls) THEN "get_solvers gives a solver twice"
         ELSE ""

Init == sn = 1 /\ k = 1 /\ R = Builtin
Consume ==
  /\ sn <= Len(Sessions)
  /\ IF Clause # "" THEN PrintT("VERDICT " \o ToJson([id |-> S.id, event |-> k, clause |-> Clause])) /\ sn' = sn + 1 /\ k' = 1 /\ R' = Builtin
     ELSE IF k < Len(S.events) THEN k' = k + 1 /\ sn' = sn /\ R' = After
     ELSE sn' = sn + 1 /\ k' = 1 /\ R' = Builtin
Finish ==
  /\ sn = Len(Sessions) + 1
  /\ PrintT("DONE " \o ToString(Len(Sessions)))
  /\ sn' = sn + 1 /\ UNCHANGED <<k, R>>
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
