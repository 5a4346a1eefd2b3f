-------------------------------- MODULE PyprojM --------------------------------
(* update-pyproject-toml as a transition system: a request is carried out step by
   step on a copy of the file (deletions, then additions), which replaces the
   file at the end; a step that is impossible abandons the request.

   file: [rank, provs, static]; rank a sequence of namespaces, provs maps a
   namespace to [api, req, inst], static a set of namespaces. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Installed         \* namespaces of installed plugins
VARIABLES file, copy, todo, hist
yvars == <<file, copy, todo, hist>>
Range(s) == {s[i] : i \in DOMAIN s}
Idle == [dels |-> <<>>, adds |-> <<>>, on |-> FALSE, all |-> <<>>]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Request(dels, adds) ==
  /\ ~todo.on /\ (dels # <<>> \/ adds # <<>>)
  /\ todo' = [dels |-> dels, adds |-> adds, on |-> TRUE, all |-> <<dels, adds>>]
  /\ copy' = file /\ UNCHANGED <<file, hist>>
DelStep ==
  /\ todo.on /\ todo.dels # <<>>
  /\ LET n == Head(todo.dels) IN
     copy' = [rank |-> Without(copy.rank, n), provs |-> Restrict(copy.provs, DOMAIN copy.provs \ {n}),
              static |-> copy.static \ {n}]
  /\ todo' = [todo EXCEPT !.dels = Tail(@)]
  /\ UNCHANGED <<file, hist>>
End(ok) == /\ hist' = Append(hist, [dels |-> todo.all[1], adds |-> todo.all[2], ok |-> ok, rank |-> file'.rank,
                                    mine |-> {n \in DOMAIN file'.provs : file'.provs[n].req = "mine"},
                                    new |-> {n \in DOMAIN file'.provs : file'.provs[n].api = "new"}])
           /\ todo' = Idle /\ copy' = file'
AddStep ==
  /\ todo.on /\ todo.dels = <<>> /\ todo.adds # <<>>
  /\ LET n == Head(todo.adds) IN
     IF n \notin Installed THEN file' = file /\ End(FALSE)
     ELSE /\ copy' = [copy EXCEPT
               !.rank = IF n \in Range(@) THEN @ ELSE Append(@, n),
               !.provs = Put(@, n, IF n \in DOMAIN @ THEN [@[n] EXCEPT !.api = "new", !.req = IF @ = "" THEN "dflt" ELSE @]
                                   ELSE [api |-> "new", req |-> "dflt", inst |-> TRUE])]
          /\ todo' = [todo EXCEPT !.adds = Tail(@)]
          /\ UNCHANGED <<file, hist>>
Write == /\ todo.on /\ todo.dels = <<>> /\ todo.adds = <<>>
         /\ file' = copy /\ End(TRUE)

(* --- properties ---------------------------------------------------------------- *)
NeedsStatic(p) == ~p.inst /\ p.req = ""
Valid(f) == /\ Range(f.rank) = DOMAIN f.provs
            /\ f.static = {n \in DOMAIN f.provs : NeedsStatic(f.provs[n])}
            /\ \A n \in DOMAIN f.provs : f.provs[n].inst => f.provs[n].req # ""
InstallTimeOnly(f) == \A n \in DOMAIN f.provs : f.provs[n].inst
(* whatever valid file with install-time providers one starts from *)
InvValid == InstallTimeOnly(file) => Valid(file)
Last == hist[Len(hist)]
Asked(h) == Range(h.dels) \cup Range(h.adds)
StepEdit == [][hist' # hist => LET h == hist'[Len(hist')] IN
   /\ ~h.ok => file' = file
   /\ h.ok <=> Range(h.adds) \subseteq Installed
   /\ h.ok => /\ \A n \in Range(h.dels) \ Range(h.adds) :
                   n \notin Range(file'.rank) /\ n \notin DOMAIN file'.provs /\ n \notin file'.static
              /\ \A n \in Range(h.adds) : n \in Range(file'.rank) /\ file'.provs[n].api = "new" /\ file'.provs[n].req # ""
              /\ \A n \in Range(h.adds) \ Range(h.dels) : n \in DOMAIN file.provs /\ file.provs[n].req # "" =>
                   file'.provs[n].req = file.provs[n].req
              (* what is not asked for stays, in the same order *)
              /\ \A n \in (DOMAIN file.provs \cup DOMAIN file'.provs) \ Asked(h) :
                   n \in DOMAIN file.provs /\ n \in DOMAIN file'.provs /\ file'.provs[n] = file.provs[n]
              /\ file'.static \ Asked(h) = file.static \ Asked(h)
              /\ SelectSeq(file'.rank, LAMBDA n : n \notin Asked(h)) = SelectSeq(file.rank, LAMBDA n : n \notin Asked(h))
              (* new ones come last *)
              /\ \A i, j \in 1..Len(file'.rank) :
                   file'.rank[i] \notin Range(file.rank) /\ file'.rank[j] \in Range(file.rank) \ Range(h.dels) => j < i]_yvars
StepWhole == [][file' # file => hist' # hist]_yvars
=============================================================================
