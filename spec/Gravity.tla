------------------------------- MODULE Gravity -------------------------------
(* The gravitational potential of a density on a periodic cubic lattice: lap phi = rho - <rho>, <phi> = 0, with the exact
   Laplacian (minus the squared wave number); and the normalisation to mean density one. *)
EXTENDS Background, Lattice
GPi == RLit("3.14159265358979323846")
GWave(q, n) == IF 2*q <= n THEN q ELSE q - n
GWave2(g, s) == LET x == GWave(XofS(g, s), g.nx)  y == GWave(YofS(g, s), g.nx)  z == GWave(ZofS(g, s), TotZ(g)) IN x*x + y*y + z*z
GModes(g, f) == RDFT(TLCEval([i \in 1..2*Len(f) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE R0]), g.nx, TotZ(g), -1)
GBack(g, F) == LET b == RDFT(F, g.nx, TotZ(g), 1)  w == R1 (/) RInt(Sites(g)) IN TLCEval([i \in 1..Sites(g) |-> w (.) b[2*i - 1]])
GK0(p) == (R2 (.) GPi) (/) p.L
Poisson(p, g, rho) ==
  LET F == GModes(g, rho)  k2 == Sq(GK0(p))
      a == TLCEval([s \in 1..Sites(g) |-> LET n == GWave2(g, s - 1) IN IF n = 0 THEN R0 ELSE RNeg(R1 (/) (k2 (.) RInt(n)))])
  IN GBack(g, TLCEval([i \in 1..Len(F) |-> a[(i + 1) \div 2] (.) F[i]]))
ExactLap(p, g, f) ==
  LET F == GModes(g, f)  k2 == Sq(GK0(p))
  IN GBack(g, TLCEval([i \in 1..Len(F) |-> RNeg(k2 (.) RInt(GWave2(g, ((i + 1) \div 2) - 1))) (.) F[i]]))
(* density of a pair field, and its mean *)
DensityOf(mm, vv) == TLCEval([i \in 1..Len(mm) |-> Sq(mm[i]) (+) Sq(vv[i])])
MeanOf(f) == RSum(f) (/) RInt(Len(f))
=============================================================================
