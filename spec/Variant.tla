------------------------------ MODULE Variant ------------------------------
(* Variant properties, features and descriptions.
   A property is <<namespace, feature, value>>, a feature <<namespace, feature>>
   and a description a sequence of properties in canonical (sorted) order. *)
EXTENDS Strings

FeatOf(p) == <<p[1], p[2]>>
PropText(p) == p[1] \o " :: " \o p[2] \o " :: " \o p[3]
FeatText(f) == f[1] \o " :: " \o f[2]

Canon(props) == StableSort(props, TupLt)
IsCanon(d) == \A i \in 1..(Len(d) - 1) : TupLt(d[i], d[i + 1])
(* the text that is hashed *)
CanonText(props) ==
  LET c == Canon(props)
      RECURSIVE T(_)
      T(i) == IF i > Len(c) THEN "" ELSE PropText(c[i]) \o "\n" \o T(i + 1)
  IN T(1)

Null == <<>>
IsNull(d) == d = <<>>
FeaturesOf(d) == {FeatOf(d[i]) : i \in 1..Len(d)}
NamespacesOf(d) == {d[i][1] : i \in 1..Len(d)}
ValuesOf(d, f) == {d[i][3] : i \in {j \in 1..Len(d) : FeatOf(d[j]) = f}}
=============================================================================
