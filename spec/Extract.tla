------------------------------- MODULE Extract -------------------------------
(* Extraction (koladata/internal/op_utils/extract): the part of a chain of bags *)
(* that is reachable from a slice of objects under a schema.                    *)
(*                                                                              *)
(* A visit is <<value, type>>; a type is a schema (1000 + its object) or one of *)
(* the dtypes below.  Visits are made level by level; a level deeper than `max` *)
(* is not entered, the data of the objects found at level `max` is not copied   *)
(* (their schemas are), -1 is no limit.                                         *)
(* The bags are well typed: an object has one schema wherever it is met.  An    *)
(* OBJECT without a schema is `lost`: what becomes of it is not specified.      *)
EXTENDS DataBag
Object == 184
Schema == 185
ItemId == 186
KSchema == 10  \* the attributes __schema__, __items__, __keys__, __values__
KItems == 11
KKeys == 12
KValues == 13
PrimType(v) == CASE v >= 100 /\ v < 110 -> 180 [] v >= 110 /\ v < 120 -> 181 [] v >= 120 /\ v < 130 -> 183
                 [] v >= 140 /\ v < 150 -> 182 [] v >= 150 /\ v < 160 -> 187 [] OTHER -> 0
Prims == {180, 181, 182, 183, 187}
Obj(v) == v - 1000
Start == [ent |-> {}, obj |-> {}, sch |-> {}, a |-> {}, k |-> {}, l |-> {}, d |-> {}, leaf |-> {}, bad |-> FALSE, lost |-> FALSE]
TypeOf(ch, c, a) == Cell(Ss(ch), <<c, a>>)
\* what one level of visits F adds, and the visits it leads to
Level(ch, st, F, depth, max) ==
  LET Of(T) == {Obj(f[1]) : f \in {x \in F : x[2] = T /\ x[1] >= 1000}}
      asObject == Of(Object) \ st.obj
      asSchema == Of(Schema) \ st.obj
      typed == {f \in F : f[2] >= 1000}
      ents == {f \in typed : f[1] >= 1000 /\ Obj(f[1]) \notin st.ent}
      free == asObject \ st.ent
      \* objects met for the first time, with their schemas
      P == {<<Obj(f[1]), Obj(f[2])>> : f \in ents}
           \cup {<<o, Obj(Cell(As(ch), <<o, KSchema>>))>> : o \in {x \in free : Cell(As(ch), <<x, KSchema>>) >= 1000}}
      C == {Obj(f[2]) : f \in typed} \cup {p[2] : p \in P} \cup (asSchema \ st.ent)
      fields == UNION {{<<p[1], a, TypeOf(ch, p[2], a)>> : a \in {x \in NamesOf(ch, p[2]) : x < KSchema /\ TypeOf(ch, p[2], x) > 0}} : p \in P}
      lists == {<<p[1], TypeOf(ch, p[2], KItems)>> : p \in {x \in P : TypeOf(ch, x[2], KItems) > 0}}
      dicts == {<<p[1], TypeOf(ch, p[2], KKeys), TypeOf(ch, p[2], KValues)>> : p \in {x \in P : TypeOf(ch, x[2], KKeys) > 0}}
      copies == max = -1 \/ depth < max
  IN [st |-> [st EXCEPT !.ent = @ \cup {p[1] : p \in P} \cup free \cup asSchema, !.obj = @ \cup asObject \cup asSchema, !.sch = @ \cup C,
                        !.k = @ \cup asObject,
                        !.lost = @ \/ \E o \in asObject : Cell(As(ch), <<o, KSchema>>) <= 0,
                        !.a = IF copies THEN @ \cup {<<f[1], f[2]>> : f \in fields} ELSE @,
                        !.l = IF copies THEN @ \cup {f[1] : f \in lists} ELSE @,
                        !.d = IF copies THEN @ \cup {f[1] : f \in dicts} ELSE @,
                        !.leaf = IF depth = max THEN {p[1] : p \in P} \cup free \cup (asSchema \ st.ent) ELSE @],
      next |-> {<<Pos(Cell(As(ch), <<f[1], f[2]>>)), f[3]>> : f \in fields}
               \cup UNION {{<<v, f[2]>> : v \in Range(ListOf(Ls(ch), f[1]))} : f \in lists}
               \cup UNION {{<<k, f[2]>> : k \in KeysOf(ch, f[1])} : f \in dicts}
               \cup UNION {{<<Pos(Cell(Ds(ch), <<f[1], k>>)), f[3]>> : k \in KeysOf(ch, f[1])} : f \in dicts}
               \cup UNION {{<<0, TypeOf(ch, c, a)>> : a \in {x \in NamesOf(ch, c) : TypeOf(ch, c, x) > 0}} : c \in C \ st.sch}]
\* a primitive of another type than the schema says
Wrong(F) == \E f \in F : f[2] \in Prims /\ f[1] > 0 /\ PrimType(f[1]) # f[2]
RECURSIVE Reach(_, _, _, _, _)
Reach(ch, st, F, depth, max) ==
  IF Wrong(F) THEN [st EXCEPT !.bad = TRUE]
  ELSE IF (max >= 0 /\ depth > max) \/ F = {} THEN st
  ELSE LET x == Level(ch, st, F, depth, max)
       IN Reach(ch, x.st, x.next, depth + 1, max)
\* the new bag
Copy(ch, st) ==
  LET K == {k \in st.a \cup {<<o, KSchema>> : o \in st.k} : HasCell(As(ch), k)}
      D == UNION {{<<o, k>> : k \in KeysOf(ch, o)} : o \in st.d}
      C == UNION {{<<c, a>> : a \in {x \in NamesOf(ch, c) : TypeOf(ch, c, x) > 0}} : c \in st.sch}
  IN [A |-> [k \in K |-> Cell(As(ch), k)], L |-> [o \in {x \in st.l : HasCell(Ls(ch), x)} |-> ListOf(Ls(ch), o)],
      D |-> [k \in D |-> Pos(Cell(Ds(ch), k))], S |-> [k \in C |-> TypeOf(ch, k[1], k[2])]]
Reached(ch, os, T, max) == Reach(ch, Start, {<<IF o < 0 THEN 0 ELSE 1000 + o, T>> : o \in Range(os)}, 0, max)
==============================================================================
