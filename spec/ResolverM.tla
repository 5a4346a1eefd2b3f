------------------------------ MODULE ResolverM ------------------------------
EXTENDS Resolver
(* State machine: one action per stage. *)
VARIABLES inp,    \* the request: [ds, sup, pr, abi, fn, ff, fp]
          phase, work, srt
rvars == <<inp, phase, work, srt>>
RInit(Inputs) == /\ inp \in Inputs
                 /\ phase = "null" /\ work = inp.ds /\ srt = <<>>
Sup(x) == x.sup \o x.abi
Pr(x) == [x.pr EXCEPT !.ns = Append(@, AbiNs)]
Stage(from, to, w) == phase = from /\ phase' = to /\ work' = w /\ UNCHANGED <<inp, srt>>
AddNull      == Stage("null", "dedup", WithNull(work))
RemoveDup    == Stage("dedup", "ns", Dedup(work))
DropNs       == Stage("ns", "feat", FilterNs(work, inp.fn))
DropFeat     == Stage("feat", "prop", FilterFeat(work, inp.ff))
DropProp     == Stage("prop", "rank", FilterProp(work, Sup(inp), inp.fp))
RankProps    == /\ phase = "rank" /\ phase' = "order" /\ srt' = SortProps(Sup(inp), Pr(inp))
                /\ UNCHANGED <<inp, work>>
OrderDescs   == Stage("order", "done", SortDescs(work, srt))
RNext == AddNull \/ RemoveDup \/ DropNs \/ DropFeat \/ DropProp \/ RankProps \/ OrderDescs

(* invariants *)
InvAnswer ==
  phase = "done" =>
    /\ Sound(work, inp.ds, Sup(inp), inp.fn, inp.ff, inp.fp)
    /\ Complete(work, inp.ds, Sup(inp), inp.fn, inp.ff, inp.fp)
    /\ NoDup(work)
    /\ NullLast(work)
    /\ Ordered(work, Sup(inp), Pr(inp))
    /\ TiesStable(work, inp.ds, Sup(inp), Pr(inp))
    /\ work = Resolve(inp.ds, inp.sup, inp.pr, inp.abi, inp.fn, inp.ff, inp.fp)
(* filters only remove: every stage before ordering yields a subsequence *)
InvSubseq ==
  phase \in {"ns", "feat", "prop", "rank", "order"} =>
    \A i, j \in 1..Len(work) : i < j => Pos(WithNull(inp.ds), work[i]) < Pos(WithNull(inp.ds), work[j])
InvNullNeverLost == phase # "null" => Null \in Range(work)
(* excluding things never reorders what remains: the ranking of the unrestricted
   answer is that of the restricted one *)
InvExclusionMonotone ==
  phase = "done" =>
    LET free == Resolve(inp.ds, inp.sup, inp.pr, inp.abi, <<>>, <<>>, <<>>)
    IN work = Filter(free, LAMBDA d : OfferOk(d, Sup(inp), inp.fn, inp.ff, inp.fp))
(* sorting properties is a permutation that keeps the values of a feature together *)
InvSortedProps ==
  phase \in {"order", "done"} =>
    /\ Range(srt) = Range(Sup(inp)) /\ Len(srt) = Len(Sup(inp))
    /\ \A i, j, k \in 1..Len(srt) :
         (i < j /\ j < k /\ FeatOf(srt[i]) = FeatOf(srt[k])) => FeatOf(srt[j]) = FeatOf(srt[i])
=============================================================================
