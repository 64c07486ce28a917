------------------------------ MODULE Momentum ------------------------------
(* A field that may be kept in Fourier space.  To Evolve's state is added where each of the field and the velocity
   lies now: qm, qv (TRUE in Fourier space).  m and v stay what they are in position space: a transform changes how
   the lattice is stored, never its content. *)
EXTENDS Evolve
VARIABLES qm, qv
Cx(f) == IF ft = 1 THEN f ELSE TLCEval([i \in 1..2*Len(f) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE R0])
Re(f) == IF ft = 1 THEN f ELSE TLCEval([i \in 1..Len(f) \div 2 |-> f[2*i - 1]])
N == Sites(geo)
Fwd(f) == LET F == RDFT(Cx(f), geo.nx, TotZ(geo), -1)  w == R1 (/) RInt(N) IN TLCEval([i \in 1..Len(F) |-> w (.) F[i]])
Bck(F) == Re(RDFT(F, geo.nx, TotZ(geo), 1))
(* how the modes are stored: ky slowest (each rank a slab), then kz, then kx; a real field keeps kx = 0 .. nx/2 *)
Rows == IF ft = 1 THEN geo.nx ELSE (geo.nx \div 2) + 1
ModeAt(q) == Site(geo, q % Rows, q \div (Rows * TotZ(geo)), (q \div Rows) % TotZ(geo))
Stored(f) == LET F == Fwd(f) IN TLCEval([i \in 1..2*Rows*geo.nx*TotZ(geo) |-> F[2*ModeAt((i - 1) \div 2) + 2 - (i % 2)]])
(* wave number squared of a mode *)
Wv(q, n) == IF 2*q <= n THEN q ELSE q - n
Wave2(s) == LET x == Wv(XofS(geo, s), geo.nx)  y == Wv(YofS(geo, s), geo.nx)  z == Wv(ZofS(geo, s), TotZ(geo)) IN x*x + y*y + z*z
K0 == (R2 (.) Pi) (/) p.L
(* ---- steps with the exact Laplacian -------------------------------------------------------------------------- *)
Lap8(f) == LET F == Fwd(f)  a == TLCEval([s \in 1..N |-> RNeg(Sq(K0) (.) RInt(Wave2(s - 1)))])
           IN Bck(TLCEval([i \in 1..Len(F) |-> a[(i + 1) \div 2] (.) F[i]]))
SKickC(b, h, mm, vv) ==
  LET lap == Lap8(mm)  mu == Friction(b, h)
      prs == TLCEval([s \in 1..N |-> LET i == 2*s - 1 IN
                        TLCEval(KickSite(b, h, mu, mm[i], mm[i+1], lap[i], lap[i+1], vv[i], vv[i+1]))])
  IN TLCEval([i \in 1..Len(mm) |-> prs[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]])
ForceA(b, x) == (b.rpp (.) x) (-) (b.ma2 (.) b.R2 (.) b.R (.) RSin(x (/) b.R))
SKickA(b, h, mm, vv) == LET lap == Lap8(mm) IN TLCEval([i \in 1..Len(mm) |-> vv[i] (+) (h (.) (lap[i] (+) ForceA(b, mm[i])))])
(* ---- steps wholly in Fourier space: a kick by the potential, then the free wave during the stage --------------- *)
FKick(b, h, mm, vv) == TLCEval([i \in 1..Len(mm) |-> vv[i] (+) (h (.) ForceA(b, mm[i]))])
FDrift(h, mm, vv) ==
  LET F == Fwd(mm)  G == Fwd(vv)
      w == TLCEval([s \in 1..N |-> K0 (.) RSqrt(RInt(Wave2(s - 1)))])
      c == TLCEval([s \in 1..N |-> RCos(w[s] (.) h)])
      n == TLCEval([s \in 1..N |-> IF w[s] = R0 THEN h ELSE RSin(w[s] (.) h) (/) w[s]])
      H == TLCEval([i \in 1..Len(F) |-> LET s == (i + 1) \div 2 IN (c[s] (.) F[i]) (+) (n[s] (.) G[i])])
      V == TLCEval([i \in 1..Len(F) |-> LET s == (i + 1) \div 2 IN (c[s] (.) G[i]) (-) (Sq(w[s]) (.) n[s] (.) F[i])])
  IN <<Bck(H), Bck(V)>>
RECURSIVE SStages(_, _, _, _, _, _)
SStages(i, kind, t, dz, mm, vv) ==
  IF i = 5 THEN <<mm, vv, t>>
  ELSE LET hc == CK[i] (.) dz  hd == DK[i] (.) dz  b == Bg(t) IN
    CASE kind = "spectral" /\ ft = 1 -> LET v1 == SKickC(b, hc, mm, vv) IN SStages(i + 1, kind, t (+) hd, dz, Axpy(hd, v1, mm), v1)
      [] kind = "spectral" /\ ft = 2 -> LET v1 == SKickA(b, hc, mm, vv) IN SStages(i + 1, kind, t (+) hd, dz, Axpy(hd, v1, mm), v1)
      [] kind = "fourier"  /\ ft = 2 -> LET d == FDrift(hd, mm, FKick(b, hc, mm, vv)) IN SStages(i + 1, kind, t (+) hd, dz, d[1], d[2])
RECURSIVE SStepN(_, _, _, _, _, _)
SStepN(n, kind, t, dz, mm, vv) == IF n = 0 THEN <<mm, vv, t>> ELSE LET s == SStages(1, kind, t, dz, mm, vv) IN SStepN(n - 1, kind, s[3], dz, s[1], s[2])
SEvolve(kind, dz, n) ==
  LET s == SStepN(n, kind, ct, dz, m, v)
  IN m' = s[1] /\ v' = s[2] /\ ct' = s[3] /\ UNCHANGED <<p, geo, nb, pot, ft>>
(* ---- where things lie ---------------------------------------------------------------------------------------- *)
Has1(w, c) == w \in {c, "mv"}
Forward(w) == qm' = (qm \/ Has1(w, "m")) /\ qv' = (qv \/ Has1(w, "v"))
Backward(w) == qm' = (qm /\ ~Has1(w, "m")) /\ qv' = (qv /\ ~Has1(w, "v"))
ToPosition == qm' = FALSE /\ qv' = FALSE              \* whoever reads the lattice brings it back first
Scale8(dz) == LET k2 == Sq(K0) (.) RInt(2*(geo.nx \div 2)*(geo.nx \div 2) + (TotZ(geo) \div 2)*(TotZ(geo) \div 2))
              IN VScale(dz) (+) (RAbs(dz) (.) k2 (.) RMaxAbs(m)) (+) (RSqrt(k2) (.) RMaxAbs(m))
MScale8(dz) == RMaxAbs(m) (+) (RAbs(dz) (.) Scale8(dz))
=============================================================================
