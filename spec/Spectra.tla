------------------------------- MODULE Spectra -------------------------------
(* Power spectra of a field in a cubic box: the energy in its Fourier modes, gathered in shells of equal wave number.
   Wave vectors are counted in units of 2 pi/L.  g geometry, p background, b the background quantities now. *)
EXTENDS Background, Lattice
Pi == RLit("3.141592653589793")
Wave(q, n) == IF 2*q <= n THEN q ELSE q - n
WaveOf(g, s) == << Wave(XofS(g, s), g.nx), Wave(YofS(g, s), g.nx), Wave(ZofS(g, s), TotZ(g)) >>
Wave2(g, s) == LET w == WaveOf(g, s) IN w[1]*w[1] + w[2]*w[2] + w[3]*w[3]
(* the shells: as many as there are integer wave numbers up to the corner of the box of modes, or any other number *)
Natural(g) == RFloor(RSqrt(RInt(2*(g.nx \div 2)*(g.nx \div 2) + (TotZ(g) \div 2)*(TotZ(g) \div 2)))) + 1
Count(g, nb) == IF nb < 0 THEN Natural(g) ELSE nb
Shell(g, nb, k2) == RFloor((RInt(Count(g, nb)) (/) RInt(Natural(g))) (.) RSqrt(RInt(k2)))
Shells(g, nb) == TLCEval([i \in 1..Sites(g) |-> Shell(g, nb, Wave2(g, i - 1))])
Sums(g, nb, val) == RSumBy(Shells(g, nb), val, Count(g, nb))
(* |F|^2 of a real field *)
Power(g, x) ==
  LET N == Sites(g)  F == RDFT(TLCEval([i \in 1..2*N |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] ELSE R0]), g.nx, TotZ(g), -1)
  IN TLCEval([i \in 1..N |-> Sq(F[2*i - 1]) (+) Sq(F[2*i])])
Norm(p, g) == (p.L (.) Sq(p.L)) (/) (R2 (.) Sq(RInt(Sites(g))))
Spectrum(p, g, nb, x) == LET w == Norm(p, g)  s == Sums(g, nb, Power(g, x)) IN TLCEval([i \in 1..Len(s) |-> w (.) s[i]])
(* the same with every mode weighted *)
Weighted(p, g, nb, x, W(_)) ==
  \* W depends on the site of the mode
  LET w == Norm(p, g)  P == Power(g, x)  s == Sums(g, nb, TLCEval([i \in 1..Sites(g) |-> W(i - 1) (.) P[i]]))
  IN TLCEval([i \in 1..Len(s) |-> w (.) s[i]])
K2(p, g, s) == Sq((R2 (.) Pi) (/) p.L) (.) RInt(Wave2(g, s))
Modes(g, nb) == Sums(g, nb, TLCEval([i \in 1..Sites(g) |-> R1]))
Waves2(g, nb) == Sums(g, nb, TLCEval([i \in 1..Sites(g) |-> RInt(Wave2(g, i - 1))]))
Plus(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] (+) b[i]])
(* ---- what is transformed ---------------------------------------------------------------------------------- *)
Now(p, g, ct) == TLCEval([R |-> ScaleFactor(p, ct), H |-> Hubble(p, ct), d |-> Delta(p, g.nx), sh |-> VacuumShift(p, ct) (.) ScaleFactor(p, ct),
                          mA2 |-> AxionM2(p, ct) (.) Sq(ScaleFactor(p, ct)), mS2 |-> SaxionM2(p, ct) (.) Sq(ScaleFactor(p, ct))])
(* masks: 1 none, 2 and 4 weigh with the modulus, 8 leaves out marked sites *)
Weight(b, mask, r, out) == CASE mask = 1 -> R1 [] mask = 2 -> r (/) b.R [] mask = 4 -> Sq(r (/) b.R) [] mask \in {8, 1024} -> IF out THEN R0 ELSE R1
Re(b, m, s) == m[2*s + 1] (-) b.sh
Im(m, s) == m[2*s + 2]
Mod2(b, m, s) == Sq(Re(b, m, s)) (+) Sq(Im(m, s))
Mod(b, m, s) == RSqrt(Mod2(b, m, s))
Phase(b, m, s) == RAtan2(Im(m, s), Re(b, m, s))
Ahead(g, s, a) == LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s) IN
  CASE a = 1 -> Site(g, (x + 1) % g.nx, y, z) [] a = 2 -> Site(g, x, (y + 1) % g.nx, z) [] a = 3 -> Site(g, x, y, (z + 1) % TotZ(g))
Behind(g, s, a) == LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s)  n == g.nx IN
  CASE a = 1 -> Site(g, ((x + n) - 1) % n, y, z) [] a = 2 -> Site(g, x, ((y + n) - 1) % n, z) [] a = 3 -> Site(g, x, y, ((z + TotZ(g)) - 1) % TotZ(g))
(* R times the velocity of the phase, its gradient (from the midpoint of two neighbours), the phase, twice the sine of half of it *)
AxionK(b, m, v, s) == b.R (.) (((Re(b, m, s) (.) v[2*s + 2]) (-) (Im(m, s) (.) v[2*s + 1])) (/) Mod2(b, m, s))
AxionG(g, b, m, s, a) ==
  LET t == Ahead(g, s, a)  dx == m[2*t + 1] (-) m[2*s + 1]  dy == m[2*t + 2] (-) m[2*s + 2]
      x == Re(b, m, t) (+) Re(b, m, s)  y == Im(m, t) (+) Im(m, s)
  IN ((R2 (.) b.R) (/) b.d) (.) (((dy (.) x) (-) (dx (.) y)) (/) (Sq(x) (+) Sq(y)))
(* the same from the two neighbours on either side of the site *)
AxionC(g, b, m, s, a) ==
  LET t == Ahead(g, s, a)  u == Behind(g, s, a)  dx == m[2*t + 1] (-) m[2*u + 1]  dy == m[2*t + 2] (-) m[2*u + 2]
  IN (b.R (/) (R2 (.) b.d)) (.) (((Re(b, m, s) (.) dy) (-) (Im(m, s) (.) dx)) (/) Mod2(b, m, s))
AxionV(b, m, s) == b.R (.) Phase(b, m, s)
AxionS(b, m, s) == R2 (.) b.R (.) RSin(Half (.) Phase(b, m, s))
(* the radial mode: displacement from the vacuum circle and its velocity *)
SaxionV(b, m, s) == Mod(b, m, s) (-) b.R
SaxionK(b, m, v, s) == (((Re(b, m, s) (.) v[2*s + 1]) (+) (Im(m, s) (.) v[2*s + 2])) (/) Mod(b, m, s)) (-) (Mod(b, m, s) (.) b.H)
(* a difference between neighbours underestimates the gradient of a short wave *)
Slope2(n, q) == IF q = 0 THEN R1 ELSE LET w == (R2 (.) Pi (.) RInt(q)) (/) RInt(n) IN (R2 (.) (R1 (-) RCos(w))) (/) Sq(w)
(* ---- filters in Fourier space: 0 Gaussian, 1 ball, 2 sharp cut; of the given length -------------------------- *)
Filter(kind, x) ==          \* x = wave number times length
  CASE kind = 0 -> RExp(RNeg(Half (.) Sq(x)))
    [] kind = 1 -> IF x = R0 THEN R1 ELSE (RInt(3) (.) (RSin(x) (-) (x (.) RCos(x)))) (/) (x (.) Sq(x))
    [] kind = 2 -> IF RLe(x, R1) THEN R1 ELSE R0
Smoothed(p, g, kind, len, x) ==
  LET N == Sites(g)  k0 == ((R2 (.) Pi) (/) p.L) (.) len
      F == RDFT(TLCEval([i \in 1..2*N |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] ELSE R0]), g.nx, TotZ(g), -1)
      H == TLCEval([i \in 1..N |-> Filter(kind, k0 (.) RSqrt(RInt(Wave2(g, i - 1)))) (/) RInt(N)])
      B == RDFT(TLCEval([i \in 1..2*N |-> F[i] (.) H[(i + 1) \div 2]]), g.nx, TotZ(g), 1)
  IN TLCEval([i \in 1..N |-> B[2*i - 1]])
=============================================================================
