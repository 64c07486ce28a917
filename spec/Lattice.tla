------------------------------ MODULE Lattice ------------------------------
(* Geometry of the distributed lattice.  A field has nx*nx sites per z-slice, lz slices per rank and nr ranks;
   sites are numbered from 0 in row-major order (x fastest), ranks one after the other, and every site holds c
   real components.  All sequences are 1-based: element e of the storage is at position e+1. *)
EXTENDS Integers, Sequences, TLC
Surf(g)   == g.nx * g.nx
TotZ(g)   == g.lz * g.nr
Sites(g)  == Surf(g) * TotZ(g)
Site(g, x, y, z) == (z * g.nx + y) * g.nx + x
XofS(g, s) == s % g.nx
YofS(g, s) == (s \div g.nx) % g.nx
ZofS(g, s) == s \div (g.nx * g.nx)
(* The vector layout: the rows of a slice are cut into sh interleaved blocks of nx/sh rows.  Storage position p of
   a slice holds the site UnfoldPos(p) of that slice. *)
UnfoldPos(g, sh, p) ==
  LET sy == p % sh
      ix == (p \div sh) % g.nx
      iy == p \div (g.nx * sh)
  IN (iy + sy * (g.nx \div sh)) * g.nx + ix
FoldPos(g, sh, s) ==                           \* its inverse
  LET x == s % g.nx  y == s \div g.nx  b == g.nx \div sh
  IN ((y % b) * g.nx * sh) + x * sh + (y \div b)
(* storage of logical content f (a sequence of c*Sites reals or integers) in the vector layout *)
Folded(g, sh, c, f) ==
  TLCEval([i \in 1..(c * Sites(g)) |->
     LET q == i - 1  s == q \div c
     IN f[((s - (s % Surf(g))) + UnfoldPos(g, sh, s % Surf(g))) * c + (q % c) + 1]])
(* logical content of storage st in the vector layout *)
Unfolded(g, sh, c, st) ==
  TLCEval([i \in 1..(c * Sites(g)) |->
     LET q == i - 1  s == q \div c
     IN st[((s - (s % Surf(g))) + FoldPos(g, sh, s % Surf(g))) * c + (q % c) + 1]])
(* the first/last n slices of a rank's part of storage content f *)
FirstSlices(g, c, f, r, n) == SubSeq(f, r * g.lz * Surf(g) * c + 1, (r * g.lz + n) * Surf(g) * c)
LastSlices(g, c, f, r, n)  == SubSeq(f, ((r + 1) * g.lz - n) * Surf(g) * c + 1, (r + 1) * g.lz * Surf(g) * c)
Prev(g, r) == (r + g.nr - 1) % g.nr
Next1(g, r) == (r + 1) % g.nr
RECURSIVE CatR(_, _, _)
CatR(F(_), r, n) == IF r = n THEN <<>> ELSE F(r) \o CatR(F, r + 1, n)
Cat(F(_), n) == CatR(F, 0, n)                   \* F(0) \o ... \o F(n-1)
=============================================================================
