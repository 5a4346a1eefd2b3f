-------------------------------- MODULE MetaM --------------------------------
(* A store of metadata objects: reading, converting, changing, merging.
   Objects are values, so nothing done to one can be seen in another. *)
EXTENDS Meta
VARIABLES store, log
mvars == <<store, log>>
(* store: sequence of [kind, m]; log: the operations so far with their results *)
Obj(k, m) == [kind |-> k, m |-> m]
Do(op, res, st) == store' = st /\ log' = Append(log, [op |-> op, res |-> res])
Load(n, k, d) ==      \* n identifies the document
  IF Accepted(k, d, NoText) THEN Do([what |-> "parse", doc |-> n], "ok", Append(store, Obj(k, Parse(k, d))))
  ELSE Do([what |-> "parse", doc |-> n], "ValidationError", store)
ConvertO(i, k) == Do([what |-> "convert", o |-> i, kind |-> k], "ok", Append(store, Obj(k, Common(store[i].m))))
EditO(i, e) == Editable(store[i].m, e) /\ Do([what |-> "edit", o |-> i, e |-> e], "ok", [store EXCEPT ![i].m = Edit(@, e)])
MergeO(i, j) ==
  IF CanMerge(store[i].m, store[j].m)
  THEN Do([what |-> "merge", o |-> i, p |-> j], "ok", [store EXCEPT ![i].m = Merge(@, store[j].m)])
  ELSE Do([what |-> "merge", o |-> i, p |-> j], "ValidationError", store)

(* laws of merging, over all objects that occur *)
Idx == {i \in 1..Len(store) : store[i].kind # "pyproject"}
InvMergeLaws ==
  \A i, j \in Idx : LET a == store[i].m  b == store[j].m IN
    /\ CanMerge(a, b) = CanMerge(b, a)
    /\ CanMerge(a, b) =>
         LET c == Merge(a, b) IN
         /\ CanMerge(c, b) /\ Merge(c, b) = c
         /\ SameMeta(c, Merge(b, a))
         /\ SameMeta(Common(c), Common(a))
         /\ Keys(c.variants) = Keys(a.variants) \cup Keys(b.variants)
    /\ \A k \in Idx : LET d == store[k].m IN
         (CanMerge(a, b) /\ CanMerge(Merge(a, b), d)) =>
           (CanMerge(a, d) /\ CanMerge(Merge(a, d), b) /\ SameMeta(Merge(Merge(a, b), d), Merge(Merge(a, d), b)))
=============================================================================
