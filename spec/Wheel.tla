-------------------------------- MODULE Wheel --------------------------------
(* Wheel files and what the commands do to a file system.

   A file system is a sequence of <<path, id>>; blobs: id -> content.
   Contents: [t |-> "wheel", mem |-> members], [t |-> "json", doc |-> tree], [t |-> "raw"].
   A member is [n, k, mode, ...] with k = "file" (and h, identifying its bytes),
   "record" (and rows: sequence of [p, raw]; h), "meta" (and doc, sha, size: of its bytes),
   or "unread". *)
EXTENDS Provide, Text

(* --- names --------------------------------------------------------------------- *)
Slashes(s) == {i \in 1..Len(s) : Chr(s, i) = "/"}
DistDir(n) == IF Cardinality(Slashes(n)) # 1 THEN ""
              ELSE LET i == CHOOSE i \in Slashes(n) : TRUE  d == SubSeq(n, 1, i - 1)
                   IN IF EndsWith(d, ".dist-info") THEN d ELSE ""
IsMetaName(n) == DistDir(n) # "" /\ n = DistDir(n) \o "/variant.json"
IsRecordName(n) == DistDir(n) # "" /\ n = DistDir(n) \o "/RECORD"
Parsed(name) == TLCEval(WheelName(Cp(name)))
NameVer(name) == LET fs == Fields(Cp(name)) IN StrOf(fs[1]) \o "-" \o StrOf(fs[2])
VariantFile(base, label) == SubSeq(base, 1, Len(base) - 4) \o "-" \o label \o ".whl"
IndexFile(namever) == namever \o "-variants.json"

(* --- wheels ---------------------------------------------------------------------- *)
IsWheel(c) == c.t = "wheel"
PlainMembers(c) == Filter(c.mem, LAMBDA x : ~IsMetaName(x.n))
Metas(c) == Filter(c.mem, LAMBDA x : IsMetaName(x.n))
Readable(c) == IsWheel(c) /\ \A i \in 1..Len(PlainMembers(c)) : PlainMembers(c)[i].k # "unread"
RecordOf(c) == LET R == {i \in 1..Len(c.mem) : IsRecordName(c.mem[i].n)} IN c.mem[CHOOSE i \in R : TRUE]
MetaPath(c) == DistDir(RecordOf(c).n) \o "/variant.json"
Rows(rec, path) == Filter(rec.rows, LAMBDA r : r.p # path)
Raws(rows) == [i \in 1..Len(rows) |-> rows[i].raw]
(* failing aspects of the members of c, compared with those of the wheel w it was made from *)
KeptFailures(w, c) ==
  LET a == PlainMembers(w)  b == PlainMembers(c) IN
  IF ~(Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].n = b[i].n /\ a[i].k = b[i].k) THEN {"members-kept"}
  ELSE {x \in {"members-kept", "modes-kept", "record-rows-kept"} :
          CASE x = "members-kept" -> \E i \in 1..Len(a) : a[i].k = "file" /\ a[i].h # b[i].h
            [] x = "modes-kept" -> \E i \in 1..Len(a) : a[i].mode # b[i].mode
            [] OTHER -> \E i \in 1..Len(a) : a[i].k = "record"
                           /\ Raws(Rows(a[i], MetaPath(w))) # Raws(Rows(b[i], MetaPath(w)))}
SizeTab(n) == ToString(n)
MetaRow(path, x) == path \o ",sha256=" \o x.sha \o "," \o SizeTab(x.size)
(* c is the variant wheel of metadata m made from w *)
MadeFailures(w, c, m) ==
  IF ~IsWheel(c) THEN {"output-is-wheel"}
  ELSE KeptFailures(w, c) \cup
    (LET path == MetaPath(w)  ms == Metas(c) IN
     IF ~(Len(ms) = 1 /\ ms[1].n = path /\ ms[1].k = "meta") THEN {"metadata-once"}
     ELSE LET x == ms[1]
              rows == Filter(RecordOf(c).rows, LAMBDA r : r.p = path) IN
          (IF IsD(x.doc) /\ WellFormed("dist", x.doc) /\ SameMeta(Read(x.doc), m) THEN {} ELSE {"metadata-right"})
          \cup (IF Len(rows) = 1 /\ rows[1].raw = MetaRow(path, x) THEN {} ELSE {"record-lists-metadata"}))
UnmadeFailures(w, c) ==
  IF ~IsWheel(c) THEN {"output-is-wheel"}
  ELSE KeptFailures(w, c)
       \cup (IF Metas(c) = <<>> THEN {} ELSE {"metadata-gone"})
       \cup (IF \E i \in 1..Len(RecordOf(c).rows) : RecordOf(c).rows[i].p = MetaPath(w) THEN {"record-row-gone"} ELSE {})

(* metadata found in a variant wheel filed under label *)
FiledOk(c, label) == /\ IsWheel(c) /\ Metas(c) # <<>> /\ Metas(c)[1].k = "meta"
                     /\ Accepted("dist", Metas(c)[1].doc, [has |-> TRUE, v |-> label])
FiledMeta(c) == Parse("dist", Metas(c)[1].doc)

(* --- indexes --------------------------------------------------------------------------- *)
RECURSIVE FoldIndex(_, _)
FoldIndex(acc, ms) ==
  IF ms = <<>> THEN acc
  ELSE FoldIndex(IF CanMerge(acc, Head(ms)) THEN Merge(acc, Head(ms)) ELSE acc, Tail(ms))
IndexOf(ms) == FoldIndex(Head(ms), Tail(ms))      \* ms: metadata of wheels in file name order
=============================================================================
