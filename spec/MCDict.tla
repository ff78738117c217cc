------------------------------- MODULE MCDict -------------------------------
(***************************************************************************)
(* A dictionary and a copy of it, every operation with every argument from *)
(* a small set.  The promises are compared with a function over lower-     *)
(* cased keys that is maintained alongside.                                *)
(***************************************************************************)
EXTENDS CIDict, Json

CONSTANTS Emitting, MaxLen

Keys == {[s |-> "a", low |-> "a"], [s |-> "A", low |-> "a"], [s |-> "b", low |-> "b"], [s |-> "B", low |-> "b"], [s |-> "Cc", low |-> "cc"]}
Vals == {"1", "2"}
ItemLists == { <<[k |-> [s |-> "a", low |-> "a"], v |-> "1"]>>,
               <<[k |-> [s |-> "B", low |-> "b"], v |-> "2"], [k |-> [s |-> "A", low |-> "a"], v |-> "1"]>>,
               <<>> }
NoKey == [s |-> "", low |-> ""]

Op(op, k, v, items) == [op |-> op, k |-> k, v |-> v, items |-> items]
Ops == {Op(x, k, "", <<>>) : x \in {"del", "get", "has", "pop"}, k \in Keys}
       \cup {Op(x, k, v, <<>>) : x \in {"set", "getdefault", "popdefault", "setdefault"}, k \in Keys, v \in Vals}
       \cup {Op(x, NoKey, "", l) : x \in {"update", "eq"}, l \in ItemLists}
       \cup {Op(x, NoKey, "", <<>>) : x \in {"clear", "len"}}

VARIABLES d,     \* the dictionary
          m      \* the function over lower-cased keys: low -> [s, v]

vars == <<d, m>>

Init == d = Empty /\ m = <<>>

With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Cut(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]

RECURSIVE WithAll(_, _)
WithAll(f, items) == IF items = <<>> THEN f
                     ELSE WithAll(With(f, items[1].k.low, [s |-> items[1].k.s, v |-> items[1].v]), Tail(items))

Expected(o) ==
  CASE o.op \in {"set"} -> With(m, o.k.low, [s |-> o.k.s, v |-> o.v])
    [] o.op = "setdefault" -> IF o.k.low \in DOMAIN m THEN m ELSE With(m, o.k.low, [s |-> o.k.s, v |-> o.v])
    [] o.op \in {"del", "pop", "popdefault"} -> Cut(m, o.k.low)
    [] o.op = "update" -> WithAll(m, o.items)
    [] o.op = "clear" -> <<>>
    [] OTHER -> m

Next ==
  \E o \in Ops :
    LET a == Apply(d, o)
    IN /\ d' = a.d
       /\ m' = Expected(o)
       /\ Emitting => PrintT("TRANS " \o ToJson([from |-> d, op |-> o]))
       /\ Assert(o.op = "get" => a.r = (IF o.k.low \in DOMAIN m THEN m[o.k.low].v ELSE Missing), "get")
       /\ Assert(o.op = "eq" => (a.r = "True") = ({<<x, m[x].v>> : x \in DOMAIN m} = {<<x.k.low, x.v>> : x \in {o.items[i] : i \in DOMAIN o.items}}), "eq")

Spec == Init /\ [][Next]_vars

OneEntryPerKey == \A i, j \in DOMAIN d : d[i].low = d[j].low => i = j
SameAsFunction == /\ {d[i].low : i \in DOMAIN d} = DOMAIN m
                  /\ \A i \in DOMAIN d : m[d[i].low] = [s |-> d[i].s, v |-> d[i].v]
Small == Len(d) <= MaxLen
=============================================================================
