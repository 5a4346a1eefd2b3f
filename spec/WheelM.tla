-------------------------------- MODULE WheelM --------------------------------
(* The commands as a transition system over a disk: making and unmaking variants,
   generating and extending an index.  A command computes its output into a
   temporary file that is renamed into place, and may be killed or fail at any
   point before that.

   disk: path -> content.  A path is <<dir, base, label>>, with label "" for a
   plain wheel, or <<dir, "", "index">>.  Contents: [k |-> "whl", m |-> metadata],
   m = "" in a plain wheel, or [k |-> "idx", m |-> set of metadata].
   Metadata m stands for the variant VarOf[m] filed under LabelOf[m]. *)
EXTENDS Strings, SequencesExt
CONSTANTS Dirs, Bases, Metas
VARIABLES disk, temps, pend, hist
wvars == <<disk, temps, pend, hist>>
LabelOf(m) == IF m = "null" THEN "null" ELSE Chr(m, 1)
VarOf(m) == m
Idle == [busy |-> FALSE]
IdxPath(d) == <<d, "", "index">>
Exists(p) == p \in DOMAIN disk
IsWhl(p) == p[3] # "index"
IsVar(p) == IsWhl(p) /\ p[3] # ""
Put(p, c) == [q \in DOMAIN disk \cup {p} |-> IF q = p THEN c ELSE disk[q]]
Whl(m) == [k |-> "whl", m |-> m]
Idx(S) == [k |-> "idx", m |-> S]

(* --- indexes --------------------------------------------------------------- *)
Fits(S, m) == \A n \in S : LabelOf(n) = LabelOf(m) => n = m
RECURSIVE Fold(_, _)
Fold(S, ms) == IF ms = <<>> THEN S ELSE Fold(IF Fits(S, Head(ms)) THEN S \cup {Head(ms)} ELSE S, Tail(ms))
(* variant wheels of a directory whose metadata matches their name, in file name order *)
FileOrder(p, q) == LET a == p[2] \o "-" \o p[3] \o "."  b == q[2] \o "-" \o q[3] \o "." IN StrLt(a, b)
Listed(d) == SetToSortSeq({p \in DOMAIN disk : p[1] = d /\ IsVar(p) /\ LabelOf(disk[p].m) = p[3]}, FileOrder)
IndexOfDir(d) == LET ps == Listed(d) IN Fold({}, [i \in 1..Len(ps) |-> disk[ps[i]].m])

(* --- commands --------------------------------------------------------------------- *)
(* the output of a command: [does, target, content]; nothing is written unless does *)
NoEffect == [does |-> FALSE, ok |-> TRUE]
Refused == [does |-> FALSE, ok |-> FALSE]
Writes(p, c) == [does |-> TRUE, ok |-> TRUE, target |-> p, content |-> c]
Effect(op) ==
  CASE op.what = "make" -> Writes(<<op.dir, op.src[2], LabelOf(op.meta)>>, Whl(op.meta))
    [] op.what = "unmake" -> IF op.src[3] = "" THEN NoEffect ELSE Writes(<<op.dir, op.src[2], "">>, Whl(""))
    [] op.what = "generate" -> IF Listed(op.dir) = <<>> THEN NoEffect ELSE Writes(IdxPath(op.dir), Idx(IndexOfDir(op.dir)))
    [] op.what = "add" ->
         LET m == disk[op.src].m  old == IF Exists(IdxPath(op.dir)) THEN disk[IdxPath(op.dir)].m ELSE {} IN
         IF op.src[3] = "" \/ ~Fits(old, m) THEN Refused ELSE Writes(IdxPath(op.dir), Idx(old \cup {m}))
Log(op, end, ok) == hist' = Append(hist, [op |-> op, end |-> end, ok |-> ok])
Begin(op) ==
  /\ ~pend.busy
  /\ LET x == Effect(op) IN
     IF x.does THEN /\ pend' = [busy |-> TRUE, op |-> op, target |-> x.target, content |-> x.content, full |-> FALSE]
                    /\ UNCHANGED <<disk, temps, hist>>
     ELSE Log(op, "done", x.ok) /\ UNCHANGED <<disk, temps, pend>>
Finish == pend.busy /\ ~pend.full /\ pend' = [pend EXCEPT !.full = TRUE] /\ UNCHANGED <<disk, temps, hist>>
Commit == /\ pend.busy /\ pend.full
          /\ disk' = Put(pend.target, pend.content)
          /\ pend' = Idle /\ Log(pend.op, "done", TRUE) /\ UNCHANGED temps
Point == IF pend.full THEN "rename" ELSE "write"
Kill == pend.busy /\ temps' = temps + 1 /\ pend' = Idle /\ Log(pend.op, "kill-" \o Point, FALSE) /\ UNCHANGED disk
Fail == pend.busy /\ pend' = Idle /\ Log(pend.op, "fail-" \o Point, FALSE) /\ UNCHANGED <<disk, temps>>

(* --- properties ---------------------------------------------------------------------- *)
(* only complete contents are ever under their names, and names tell what is inside *)
InvNames == \A p \in DOMAIN disk : IsWhl(p) => (disk[p].m = "") = (p[3] = "") /\ (p[3] # "" => LabelOf(disk[p].m) = p[3])
(* an index never gives a label two meanings *)
InvIndex == \A p \in DOMAIN disk : ~IsWhl(p) => \A m, n \in disk[p].m : LabelOf(m) = LabelOf(n) => m = n
(* only a commit changes files, and only its target *)
StepOnlyTarget == [][disk' # disk => pend.busy /\ pend.full
                       /\ disk'[pend.target] = pend.content
                       /\ \A q \in DOMAIN disk \ {pend.target} : q \in DOMAIN disk' /\ disk'[q] = disk[q]]_wvars
(* generating agrees with adding one by one, in any order, when nothing conflicts *)
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o o : o \in Orders(S \ {x})} : x \in S}
InvAddOrder == \A d \in Dirs : LET M == {disk[p].m : p \in Range(Listed(d))} IN
  (\A m, n \in M : LabelOf(m) = LabelOf(n) => m = n) => \A o \in Orders(M) : Fold({}, o) = IndexOfDir(d)
(* temporary files are only left by a kill *)
InvTemps == temps = Cardinality({i \in 1..Len(hist) : hist[i].end \in {"kill-write", "kill-rename"}})
=============================================================================
