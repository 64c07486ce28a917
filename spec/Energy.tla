------------------------------- MODULE Energy -------------------------------
(* The energy of a field configuration, in physical units, component by component.  p background, g geometry, b the
   background quantities at the time of the measurement: R, H = R'/R, lam, ma2 (no axion potential without QCD), d the
   lattice spacing.  A site of a complex field m moving with v carries a radial and an angular energy. *)
EXTENDS Background, Lattice
Epoch(p, g, ct) == TLCEval([R |-> ScaleFactor(p, ct), H |-> Hubble(p, ct), lam |-> LambdaOf(p, ct),
                            ma2 |-> IF QcdOf(p.pot) = 1 THEN R0 ELSE AxionM2(p, ct), d |-> Delta(p, g.nx)])
(* the two neighbours of site s along an axis *)
Ahead(g, s, a)  == LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s) IN
  CASE a = 1 -> Site(g, (x + 1) % g.nx, y, z) [] a = 2 -> Site(g, x, (y + 1) % g.nx, z) [] a = 3 -> Site(g, x, y, (z + 1) % TotZ(g))
Behind(g, s, a) == LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s)  n == g.nx IN
  CASE a = 1 -> Site(g, ((x + n) - 1) % n, y, z) [] a = 2 -> Site(g, x, ((y + n) - 1) % n, z) [] a = 3 -> Site(g, x, y, ((z + TotZ(g)) - 1) % TotZ(g))
(* ---- complex field: <<radial, angular>> ------------------------------------------------------------------ *)
(* q/w as a complex number *)
Over(qx, qy, wx, wy) == LET n == Sq(wx) (+) Sq(wy) IN << ((qx (.) wx) (+) (qy (.) wy)) (/) n, ((qy (.) wx) (-) (qx (.) wy)) (/) n >>
GradC(g, b, m, s, a) ==                 \* mean of the squared one-sided differences
  LET i == 2*s + 1  n == 2*Ahead(g, s, a) + 1  o == 2*Behind(g, s, a) + 1
      f == Over(m[n] (-) m[i], m[n+1] (-) m[i+1], m[i], m[i+1])
      h == Over(m[i] (-) m[o], m[i+1] (-) m[o+1], m[i], m[i+1])
      w == (Sq(m[i]) (+) Sq(m[i+1])) (/) (RInt(4) (.) Sq(b.d) (.) Sq(b.R) (.) Sq(b.R))
  IN << w (.) (Sq(f[1]) (+) Sq(h[1])), w (.) (Sq(f[2]) (+) Sq(h[2])) >>
KinC(b, m, v, s) ==
  LET i == 2*s + 1  u == Over(v[i], v[i+1], m[i], m[i+1])
      w == (Sq(m[i]) (+) Sq(m[i+1])) (/) (R2 (.) Sq(b.R) (.) Sq(b.R))
  IN << w (.) Sq(u[1] (-) b.H), w (.) Sq(u[2]) >>
Modulus(b, m, s, sh) == RSqrt(Sq(m[2*s+1] (-) sh) (+) Sq(m[2*s+2])) (/) b.R
(* the radial potential: two minima, a steeper one, or the first with its outer side replaced by a parabola *)
Hat(pot, r) ==
  IF Bit(pot, PQ1) THEN Sq(Sq(r) (-) R1)
  ELSE IF Bit(pot, PQ2) THEN Sq(Sq(Sq(r)) (-) R1)
  ELSE IF RLe(R1, r) THEN RInt(4) (.) Sq(r (-) R1) ELSE Sq(Sq(r) (-) R1)
(* the axion potential over its squared mass; c = cosine of the phase *)
Tilt(pot, x, y, r) ==
  CASE QcdOf(pot) \in {2, 32} -> R1 (-) (x (/) r)
    [] QcdOf(pot) = 4 -> Half (.) (Sq(R1 (-) x) (+) Sq(y))
    [] QcdOf(pot) = 8 -> Half (.) (R1 (-) Sq(x (/) r))
    [] OTHER -> R0
PotC(p, b, m, s, sh) ==
  LET r == Modulus(b, m, s, sh)
  IN << (b.lam (/) RInt(4)) (.) Hat(p.pot, r), b.ma2 (.) Tilt(p.pot, (m[2*s+1] (-) sh) (/) b.R, m[2*s+2] (/) b.R, r) >>
SiteC(p, g, b, m, v, sh, s) ==         \* gradients along x, y, z, kinetic, potential; each <<radial, angular>>
  <<GradC(g, b, m, s, 1), GradC(g, b, m, s, 2), GradC(g, b, m, s, 3), KinC(b, m, v, s), PotC(p, b, m, s, sh)>>
(* ---- angle field psi = R theta: one value; wrapped when the phase is only known up to 2 pi ------------------------ *)
Pi == RLit("3.14159265358979323846264338327950288")
Wrap(b, x) == x (-) (R2 (.) Pi (.) b.R (.) RInt(RRint(x (/) (R2 (.) Pi (.) b.R))))
SiteA(g, b, m, v, mod, s) ==
  LET i == s + 1  R4 == Sq(Sq(b.R))
      D(x) == IF mod THEN Wrap(b, x) ELSE x
      G(a) == (Sq(D(m[Ahead(g, s, a) + 1] (-) m[i])) (+) Sq(D(m[Behind(g, s, a) + 1] (-) m[i]))) (/) (RInt(4) (.) Sq(b.d) (.) R4)
  IN <<G(1), G(2), G(3), Sq(v[i] (-) (b.H (.) m[i])) (/) (R2 (.) R4), b.ma2 (.) R2 (.) Sq(RSin(m[i] (/) (R2 (.) b.R)))>>
(* ---- non-relativistic field with components m and v: its number density in place of the kinetic energy ------------- *)
SiteP(g, b, m, v, s) ==
  LET i == s + 1  R5 == Sq(Sq(b.R)) (.) b.R
      G(a) == LET n == Ahead(g, s, a) + 1  o == Behind(g, s, a) + 1
              IN (Sq(m[n] (-) m[i]) (+) Sq(v[n] (-) v[i]) (+) Sq(m[o] (-) m[i]) (+) Sq(v[o] (-) v[i]))
                 (/) (RInt(4) (.) Sq(b.d) (.) RSqrt(b.ma2) (.) R5)
      n2 == Sq(m[i]) (+) Sq(v[i])
  IN <<G(1), G(2), G(3), n2, RNeg(Sq(n2)) (/) (RInt(16) (.) R5 (.) b.R)>>
(* sum over the sites where In, of component Of *)
SumOver(n, In(_), Of(_)) == RSum([i \in 1..n |-> IF In(i) THEN Of(i) ELSE R0])
Total5(t) == t[1] (+) t[2] (+) t[3] (+) t[4] (+) t[5]
=============================================================================
