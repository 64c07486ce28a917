------------------------------- MODULE Store -------------------------------
(* The field store: what each buffer logically contains, in which layout it lies in memory, and what its ghost
   layers hold.  The logical content is independent of the layout; folding and unfolding change the layout flag
   only, a ghost exchange changes the ghost layers only.
   A ghost record [n, f, b] says that the n layers nearest to the interior are known: f in front (low z), b behind;
   f and b list them rank after rank. *)
EXTENDS Lattice, FiniteSets
VARIABLES geo,     \* nx, lz, nr, ng, c (components), sh (vector length in sites)
          buf,     \* logical content of "m", "v", "m2"
          fold,    \* layout flag of the pair (m, v) and of m2
          gh,      \* ghost records of "m", "v" and "m2"
          sl       \* the slices extracted last: m, v and m2 parts, or <<>>
store == <<geo, buf, fold, gh, sl>>
NoGhost == [n |-> 0, f |-> <<>>, b |-> <<>>]
NoSl == [m |-> <<>>, v |-> <<>>, m2 |-> <<>>]
IsFolded(w) == IF w = "m2" THEN fold.m2 ELSE fold.mv
Stored(w) == IF IsFolded(w) THEN Folded(geo, geo.sh, geo.c, buf[w]) ELSE buf[w]

New(g) ==
  /\ geo' = g
  /\ buf' = [w \in {"m", "v", "m2"} |-> <<>>]           \* not yet written
  /\ fold' = [mv |-> FALSE, m2 |-> FALSE]
  /\ gh' = [w \in {"m", "v", "m2"} |-> NoGhost]
  /\ sl' = NoSl

Write(w, content) ==                                  \* whole interior overwritten from outside; ghosts are stale now
  /\ buf' = [buf EXCEPT ![w] = content]
  /\ gh' = [gh EXCEPT ![w] = NoGhost]
  /\ UNCHANGED <<geo, fold, sl>>

(* layouts: every conversion uses the ghost zones of m as scratch *)
FoldAll ==
  /\ fold' = [fold EXCEPT !.mv = TRUE]
  /\ gh' = IF fold.mv THEN gh ELSE [gh EXCEPT !["m"] = NoGhost, !["v"] = NoGhost]
  /\ sl' = IF fold.mv THEN sl ELSE [sl EXCEPT !.m = <<>>, !.v = <<>>]
  /\ UNCHANGED <<geo, buf>>
UnfoldAll ==
  /\ fold' = [fold EXCEPT !.mv = FALSE]
  /\ gh' = IF fold.mv THEN [gh EXCEPT !["m"] = NoGhost, !["v"] = NoGhost] ELSE gh
  /\ sl' = IF fold.mv THEN [sl EXCEPT !.m = <<>>, !.v = <<>>] ELSE sl
  /\ UNCHANGED <<geo, buf>>
FoldM2 ==
  /\ fold' = [fold EXCEPT !.m2 = TRUE]
  /\ gh' = IF fold.m2 THEN gh ELSE [gh EXCEPT !["m"] = NoGhost, !["m2"] = NoGhost]
  /\ sl' = IF fold.m2 THEN sl ELSE [sl EXCEPT !.m = <<>>, !.v = <<>>]
  /\ UNCHANGED <<geo, buf>>
UnfoldM2 ==
  /\ fold' = [fold EXCEPT !.m2 = FALSE]
  /\ gh' = IF fold.m2 THEN [gh EXCEPT !["m"] = NoGhost, !["m2"] = NoGhost] ELSE gh
  /\ sl' = IF fold.m2 THEN [sl EXCEPT !.m = <<>>, !.v = <<>>] ELSE sl
  /\ UNCHANGED <<geo, buf>>

(* slices, always in plain row-major order whatever the layout; per rank *)
SliceZ(w, z) == Cat(LAMBDA r : SubSeq(buf[w], (r * geo.lz + z) * Surf(geo) * geo.c + 1, (r * geo.lz + z + 1) * Surf(geo) * geo.c), geo.nr)
SliceX(w, x) == TLCEval([i \in 1..(TotZ(geo) * geo.nx * geo.c) |->    \* (z, y) order
                  LET q == i - 1  zy == q \div geo.c
                  IN buf[w][Site(geo, x, zy % geo.nx, zy \div geo.nx) * geo.c + (q % geo.c) + 1]])
ExtractZ(z) ==
  /\ z \in 0..(geo.lz - 1)
  /\ sl' = [m |-> SliceZ("m", z), v |-> SliceZ("v", z), m2 |-> sl.m2]
  /\ gh' = [gh EXCEPT !["m"] = NoGhost]
  /\ UNCHANGED <<geo, buf, fold>>
ExtractX(x) ==
  /\ x \in 0..(geo.nx - 1)
  /\ sl' = [m |-> SliceX("m", x), v |-> SliceX("v", x), m2 |-> sl.m2]
  /\ gh' = [gh EXCEPT !["m"] = NoGhost]
  /\ UNCHANGED <<geo, buf, fold>>
ExtractM2(z) ==
  /\ z \in 0..(geo.lz - 1)
  /\ sl' = [sl EXCEPT !.m2 = SliceZ("m2", z)]
  /\ gh' = [gh EXCEPT !["m2"] = NoGhost]
  /\ UNCHANGED <<geo, buf, fold>>

(* the exchange: periodic along z, in storage order *)
Exchanged(w, n) ==
  LET st == Stored(w) IN
  [n |-> n,
   f |-> Cat(LAMBDA r : LastSlices(geo, geo.c, st, Prev(geo, r), n), geo.nr),
   b |-> Cat(LAMBDA r : FirstSlices(geo, geo.c, st, Next1(geo, r), n), geo.nr)]
Exchange(w, n) ==
  /\ n \in 1..geo.ng
  /\ n <= geo.lz
  /\ gh' = [gh EXCEPT ![w] = Exchanged(w, n)]
  /\ sl' = IF w = "m" THEN [sl EXCEPT !.m = <<>>, !.v = <<>>] ELSE IF w = "m2" THEN [sl EXCEPT !.m2 = <<>>] ELSE sl
  /\ UNCHANGED <<geo, buf, fold>>

(* The guarantee of an exchange, stated on sites: the layer at distance d in front of rank r holds the slice
   r*lz - d of the periodic lattice, and the one behind it the slice (r+1)*lz + d - 1. *)
GhostsArePeriodic ==
  \A w \in {"m", "v", "m2"} : gh[w].n > 0 =>
    \A r \in 0..(geo.nr - 1) : \A j \in 0..(gh[w].n - 1) :
      LET c2 == Surf(geo) * geo.c
          zf == (r * geo.lz - gh[w].n + j + TotZ(geo)) % TotZ(geo)
          zb == ((r + 1) * geo.lz + j) % TotZ(geo)
          st == Stored(w)
      IN /\ SubSeq(gh[w].f, (r * gh[w].n + j) * c2 + 1, (r * gh[w].n + j + 1) * c2) = SubSeq(st, zf * c2 + 1, (zf + 1) * c2)
         /\ SubSeq(gh[w].b, (r * gh[w].n + j) * c2 + 1, (r * gh[w].n + j + 1) * c2) = SubSeq(st, zb * c2 + 1, (zb + 1) * c2)
=============================================================================
