----------------------------- MODULE StoreTrace -----------------------------
(* Binds Store to recorded runs of the library: every event is one public call, dumps are compared with the model. *)
EXTENDS Store, TraceBase
vars == <<store, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1
        /\ geo = <<>> /\ buf = <<>> /\ fold = <<>> /\ gh = <<>> /\ sl = <<>>
Flags == /\ Chk("folded-flag", Ev.folded = fold'.mv, <<Ev.folded, fold'.mv>>)
         /\ Chk("m2folded-flag", Ev.m2folded = fold'.m2, <<Ev.m2folded, fold'.m2>>)
TNew == /\ Is("New") /\ Step
        /\ New([nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng, c |-> Ev.fsize \div Ev.prec, sh |-> Ev.shift])
        /\ Flags
        /\ Chk("vector-length", Ev.shift = 32 \div Ev.fsize, Ev.shift)
TCode == /\ Is("Code") /\ Step
         /\ LET st == [i \in 1..(Ev.n * geo.nr) |-> Ev.off + i - 1]    \* as stored
            IN Write(Ev.w, IF IsFolded(Ev.w) THEN Unfolded(geo, geo.sh, geo.c, st) ELSE st)
(* the conversions of the field type change how many components a site has, hence the vector length *)
CompsOf(ft) == IF ft \in {1, 512} THEN 2 ELSE 1
TSetField == /\ Is("SetField") /\ Step
             /\ New([geo EXCEPT !.c = CompsOf(Ev.ftype), !.sh = 32 \div (CompsOf(Ev.ftype) * Ev.prec)])
             /\ Flags
             /\ Chk("vector-length", Ev.shift = geo'.sh /\ Ev.fsize = geo'.c * Ev.prec, <<Ev.shift, Ev.fsize>>)
TFold == /\ Is("Fold") /\ Step
         /\ \/ Ev.op = "fold" /\ FoldAll
            \/ Ev.op = "unfold" /\ UnfoldAll
            \/ Ev.op = "foldm2" /\ FoldM2
            \/ Ev.op = "unfoldm2" /\ UnfoldM2
         /\ Flags
TSlice == /\ Is("Slice") /\ Step
          /\ \/ Ev.op = "slice" /\ ExtractZ(Ev.s)
             \/ Ev.op = "sliceyz" /\ ExtractX(Ev.s)
             \/ Ev.op = "slicem2" /\ ExtractM2(Ev.s)
          /\ Flags
TGhosts == /\ Is("Ghosts") /\ Step
           /\ Exchange(Ev.w, IF Ev.ng = -1 THEN geo.ng ELSE Ev.ng)
           /\ Flags
(* whole allocations with ghosts: interior of every rank and the known layers *)
Whole(w, d) ==
  LET c2 == Surf(geo) * geo.c
      per == (geo.lz + 2 * geo.ng) * c2
      Inn(r) == SubSeq(d, r * per + geo.ng * c2 + 1, r * per + (geo.ng + geo.lz) * c2)
      Fr(r)  == SubSeq(d, r * per + (geo.ng - gh[w].n) * c2 + 1, r * per + geo.ng * c2)
      Bk(r)  == SubSeq(d, r * per + (geo.ng + geo.lz) * c2 + 1, r * per + (geo.ng + geo.lz + gh[w].n) * c2)
  IN /\ Chk("dump-size", Len(d) = per * geo.nr, Len(d))
     /\ Chk("interior-" \o w, Cat(Inn, geo.nr) = Stored(w), "interior changed")
     /\ Chk("front-ghost-" \o w, Cat(Fr, geo.nr) = gh[w].f, "front layers")
     /\ Chk("back-ghost-" \o w, Cat(Bk, geo.nr) = gh[w].b, "back layers")
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED store
         /\ LET d == IFile(Ev.file) IN
            CASE Ev.w = "M" -> Whole("m", d)
              [] Ev.w = "M2" -> Whole("m2", d)
              [] Ev.w = "V" -> Whole("v", d)
              [] Ev.w = "m" -> Chk("content-m", d = Stored("m"), "m")
              [] Ev.w = "v" -> Chk("content-v", d = Stored("v"), "v")
              [] Ev.w = "m2" -> Chk("content-m2", d = Stored("m2"), "m2")
              [] Ev.w = "slm" -> Chk("slice-m", d = sl.m, "m slice")
              [] Ev.w = "slv" -> Chk("slice-v", d = sl.v, "v slice")
              [] Ev.w = "slm2" -> Chk("slice-m2", d = sl.m2, "m2 slice")
TEnd == Accepted /\ Step /\ UNCHANGED store
Next == TNew \/ TSetField \/ TCode \/ TFold \/ TSlice \/ TGhosts \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
