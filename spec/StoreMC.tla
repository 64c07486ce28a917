------------------------------ MODULE StoreMC ------------------------------
(* Exhaustive check of the field store on tiny lattices: every sequence of layout changes, slice extractions and
   exchanges.  Also the source of call sequences for the replay: with Emitting = TRUE a behaviour of length Depth is
   printed as JSON. *)
EXTENDS Store, Json, TLCExt
CONSTANTS MaxLen, Emitting
VARIABLE hist
Geos == {[nx |-> 4, lz |-> z, nr |-> r, ng |-> n, c |-> 1, sh |-> s] : z \in 1..2, r \in 1..3, n \in 1..2, s \in {1, 2, 4}}
Codes(g, w) == [i \in 1..(Sites(g) * g.c) |-> (CASE w = "m" -> 100 [] w = "v" -> 200 [] OTHER -> 300) + i]
Init == /\ \E g \in Geos : geo = g
        /\ buf = [w \in {"m", "v", "m2"} |-> Codes(geo, w)]
        /\ fold = [mv |-> FALSE, m2 |-> FALSE]
        /\ gh = [w \in {"m", "v", "m2"} |-> NoGhost]
        /\ sl = NoSl
        /\ hist = <<>>
Op(o) == hist' = IF Emitting THEN Append(hist, o) ELSE hist
Next == /\ (Emitting => Len(hist) < MaxLen)
        /\ \/ FoldAll /\ Op([op |-> "fold", a |-> 0])
           \/ UnfoldAll /\ Op([op |-> "unfold", a |-> 0])
           \/ FoldM2 /\ Op([op |-> "foldm2", a |-> 0])
           \/ UnfoldM2 /\ Op([op |-> "unfoldm2", a |-> 0])
           \/ \E z \in 0..1 : ExtractZ(z) /\ Op([op |-> "slice", a |-> z])
           \/ \E x \in {0, 2} : ExtractX(x) /\ Op([op |-> "sliceyz", a |-> x])
           \/ \E z \in 0..1 : ExtractM2(z) /\ Op([op |-> "slicem2", a |-> z])
           \/ \E w \in {"m", "m2"}, n \in 1..2 : Exchange(w, n) /\ Op([op |-> "ghosts-" \o w, a |-> n])
Spec == Init /\ [][Next]_<<store, hist>>
\* the logical content never changes, whatever the layout
ContentKept == buf = [w \in {"m", "v", "m2"} |-> Codes(geo, w)]
\* the layout is a permutation within each slice, and its own inverse is FoldPos
LayoutIsPermutation ==
  \A s \in 0..(Surf(geo) - 1) : UnfoldPos(geo, geo.sh, FoldPos(geo, geo.sh, s)) = s /\ FoldPos(geo, geo.sh, UnfoldPos(geo, geo.sh, s)) = s
\* an extracted slice is a slice of the logical content
SlicesRight == sl.m2 # <<>> => \E z \in 0..(geo.lz - 1) : sl.m2 = SliceZ("m2", z)
Emit == Emitting /\ Len(hist) = MaxLen => PrintT("OPS " \o ToJson(hist))
=============================================================================
