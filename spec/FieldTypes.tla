------------------------------ MODULE FieldTypes ------------------------------
(* Type-directed conversion (base/py_conversions/dataclasses_util.py): which     *)
(* Python type a nested value must be converted to, and whether it may be        *)
(* missing.  A type is a record with a kind k:                                   *)
(*   prim(i), any, none, ns (SimpleNamespace), dc(i) (dataclass),                *)
(*   union(args), list/seq(a), tup(args, ell), dict/map(a, b), set(a)            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unsupp == [ok |-> FALSE, t |-> [k |-> "-"], opt |-> FALSE, absent |-> FALSE]   \* ValueError
Res(t, opt) == [ok |-> TRUE, t |-> t, opt |-> opt, absent |-> FALSE]
Absent == [ok |-> TRUE, t |-> [k |-> "-"], opt |-> FALSE, absent |-> TRUE]     \* no such field
NoCheck == [k |-> "unknown"]                                                    \* Any: not checked

\* Optional[T] decays to (T, optional); Any is optional and unchecked; other unions are errors.
Decay(t) ==
  IF t.k = "any" THEN Res(NoCheck, TRUE)
  ELSE IF t.k # "union" THEN Res(t, FALSE)
  ELSE IF Len(t.args) # 2 THEN Unsupp
  ELSE LET nones == {i \in 1..2 : t.args[i].k = "none"} IN
       IF Cardinality(nones) # 1 THEN Unsupp
       ELSE LET u == t.args[CHOOSE i \in 1..2 : i \notin nones] IN
            IF u.k = "any" THEN Res(NoCheck, TRUE) ELSE Res(u, TRUE)

IsGenericAlias(t) == t.k \in {"list", "dict", "set", "tup", "seq", "map"}   \* builtin and abc generics
IsSeq(t) == t.k \in {"list", "seq", "tup"}
IsMap(t) == t.k \in {"dict", "map"}

\* fields: the dataclasses, as a sequence of [name |-> type] functions
Lookup(defs, t, attr, prim) ==
  IF t.k = "absent" THEN Res(NoCheck, TRUE)                    \* no class given
  ELSE IF t.k = "ns" THEN Res(IF prim THEN NoCheck ELSE t, TRUE)
  ELSE IF t.k = "dc" THEN
    IF attr \notin DOMAIN defs[t.i] THEN Absent
    ELSE LET f == defs[t.i][attr] d == Decay(f) IN
         IF f.k = "any" THEN Res(NoCheck, TRUE)
         ELSE IF f.k = "dc" THEN Res(f, FALSE)
         ELSE IF ~d.ok THEN Unsupp
         ELSE IF d.opt THEN d
         ELSE IF IsGenericAlias(f) \/ f.k = "ns" \/ prim THEN Res(f, FALSE)
         ELSE Unsupp
  ELSE IF IsSeq(t) \/ IsMap(t) \/ t.k = "set" THEN
    IF attr = "__items__" /\ IsSeq(t) THEN
      IF t.k = "tup" /\ ~t.ell THEN Unsupp ELSE Decay(t.args[1])
    ELSE IF IsMap(t) /\ attr = "__keys__" THEN Decay(t.args[1])
    ELSE IF IsMap(t) /\ attr # "__items__" THEN Decay(t.args[2])
    ELSE Unsupp
  ELSE Unsupp

\* Properties of the table itself
DecayNeverOptionalTwice(t) == Decay(t).ok => Decay(t).t.k # "union" \/ ~Decay(t).opt
===============================================================================
