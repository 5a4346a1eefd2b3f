-------------------------------- MODULE Config --------------------------------
(* The user's configuration: which of the files at the four locations is in force,
   what it says, and the document that shows it.

   A file is <<"absent">>, <<"dir">> (something that is not a readable file),
   <<"broken">> (text that is not TOML) or <<"doc", tree>> with a tree as in
   module Meta.  files maps every location to its file. *)
EXTENDS Meta, Resolver
Locs == <<"LOCAL", "VIRTUALENV", "USER", "GLOBAL">>
Exists(f) == f[1] # "absent"
TextList(t) == IsL(t) /\ AllItems(t, IsS)
(* the names of features and values are matched literally and not restricted *)
CfgFeat(t) == IsD(t) /\ AllKeys(t, IsName) /\ AllVals(t, TextList)
CfgProp(t) == IsD(t) /\ AllKeys(t, IsName) /\ AllVals(t, LAMBDA u : IsD(u) /\ AllVals(u, TextList))
CfgKeys == {"namespace_priorities", "feature_priorities", "property_priorities"}
ConfigOk(t) == /\ IsD(t) /\ OnlyKeys(t, CfgKeys)
               /\ Opt(t, "namespace_priorities", NameList)
               /\ Opt(t, "feature_priorities", CfgFeat)
               /\ Opt(t, "property_priorities", CfgProp)
CfgRead(t) == [ns |-> Dflt(t, "namespace_priorities", RdList, <<>>),
               feat |-> Dflt(t, "feature_priorities", RdFeat, <<>>),
               prop |-> Dflt(t, "property_priorities", RdProp, <<>>)]
NoConfig == [ns |-> <<>>, feat |-> <<>>, prop |-> <<>>]
SaysSame(a, b) == a.ns = b.ns /\ Fn(a.feat) = Fn(b.feat) /\ Fn2(a.prop) = Fn2(b.prop)

FileOk(f) == f[1] = "doc" /\ ConfigOk(f[2])
Present(files) == Filter(Locs, LAMBDA l : Exists(Get(files, l)))
(* the configuration of one file, and the one in force: [ok, v] *)
OfFile(f) == IF FileOk(f) THEN [ok |-> TRUE, v |-> CfgRead(f[2])] ELSE [ok |-> FALSE, v |-> NoConfig]
InForce(files) == IF Present(files) = <<>> THEN [ok |-> TRUE, v |-> NoConfig] ELSE OfFile(Get(files, Present(files)[1]))
(* what "config show" prints: without a location the configuration in force *)
Shown(files, loc) == IF ~loc.has THEN InForce(files)
                     ELSE IF loc.v \notin Range(Locs) THEN [ok |-> FALSE, v |-> NoConfig]
                     ELSE OfFile(Get(files, loc.v))        \* an absent file is an error
(* the user's priorities come before those of the package *)
AggMap(a, b) == SetToSeqMap(Keys(a) \cup Keys(b), LAMBDA n : AggFeat(<<a, b>>, n))
AggMap2(a, b) == SetToSeqMap(Keys(a) \cup Keys(b), LAMBDA n : AggMap(GetOr(a, n, <<>>), GetOr(b, n, <<>>)))
Priorities(c, m) == [ns |-> AggList(<<c.ns, m.ns>>), feat |-> AggMap(c.feat, m.feat), prop |-> AggMap2(c.prop, m.prop)]
=============================================================================
