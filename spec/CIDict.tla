------------------------------- MODULE CIDict -------------------------------
(***************************************************************************)
(* A case-insensitive dictionary: a dictionary over the lower-cased keys   *)
(* that remembers the case of the key last set, and the order in which the *)
(* (lower-cased) keys were first inserted.                                 *)
(*                                                                         *)
(* A key is a record [s, low]; the state is a sequence of entries          *)
(* [low, s, v], one for each lower-cased key.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<>>

At(d, low) == {i \in DOMAIN d : d[i].low = low}
Has(d, low) == At(d, low) # {}
Ix(d, low) == CHOOSE i \in DOMAIN d : d[i].low = low
Without(d, i) == SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))

Put(d, k, v) ==
  LET e == [low |-> k.low, s |-> k.s, v |-> v]
  IN IF Has(d, k.low) THEN [d EXCEPT ![Ix(d, k.low)] = e] ELSE Append(d, e)

RECURSIVE PutAll(_, _)
PutAll(d, items) == IF items = <<>> THEN d ELSE PutAll(Put(d, items[1].k, items[1].v), Tail(items))

Remove(d, k) == IF Has(d, k.low) THEN Without(d, Ix(d, k.low)) ELSE d

Pairs(d) == {[low |-> d[i].low, v |-> d[i].v] : i \in DOMAIN d}

Missing == "KeyError"
Result(d, r) == [d |-> d, r |-> r]

\* op: [op, k (a key), v, items (a sequence of [k, v])].  The new state and the result.
Apply(d, o) ==
  CASE o.op = "set" -> Result(Put(d, o.k, o.v), "ok")
    [] o.op = "del" -> Result(Remove(d, o.k), IF Has(d, o.k.low) THEN "ok" ELSE Missing)
    [] o.op = "get" -> Result(d, IF Has(d, o.k.low) THEN d[Ix(d, o.k.low)].v ELSE Missing)
    [] o.op = "getdefault" -> Result(d, IF Has(d, o.k.low) THEN d[Ix(d, o.k.low)].v ELSE o.v)
    [] o.op = "has" -> Result(d, IF Has(d, o.k.low) THEN "True" ELSE "False")
    [] o.op = "pop" -> Result(Remove(d, o.k), IF Has(d, o.k.low) THEN d[Ix(d, o.k.low)].v ELSE Missing)
    [] o.op = "popdefault" -> Result(Remove(d, o.k), IF Has(d, o.k.low) THEN d[Ix(d, o.k.low)].v ELSE o.v)
    [] o.op = "setdefault" -> IF Has(d, o.k.low) THEN Result(d, d[Ix(d, o.k.low)].v) ELSE Result(Put(d, o.k, o.v), o.v)
    [] o.op = "update" -> Result(PutAll(d, o.items), "ok")
    [] o.op = "clear" -> Result(Empty, "ok")
    [] o.op = "eqnone" -> Result(d, "False")
    [] o.op = "eq" -> Result(d, IF Pairs(d) = Pairs(PutAll(Empty, o.items)) THEN "True" ELSE "False")
    [] o.op = "len" -> Result(d, ToString(Len(d)))
=============================================================================
