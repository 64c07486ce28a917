------------------------------- MODULE Reduce -------------------------------
(* Making a lattice coarser or finer.  Coarser: every Fourier mode is multiplied by a filter and the field is read off, by
   linear interpolation, at the points of the new lattice.  Finer: linear interpolation between the old points. *)
EXTENDS Real64, Lattice
LOCAL Zero == RInt(0)
LOCAL One == RInt(1)
LOCAL Pi2 == RLit("9.869604401089358")         \* pi squared
(* signed wave numbers of mode i (0-based) of a lattice of nx, nx, tz sites *)
Signed(j, n) == IF j > n \div 2 THEN j - n ELSE j
ModeOf(g, i) == LET T == TotZ(g) IN <<Signed(i % g.nx, g.nx), Signed((i \div g.nx) % g.nx, g.nx), Signed(i \div (g.nx * g.nx), T)>>
(* exp of minus a weighted square of the wave number *)
GaussFilter(g, a) == TLCEval([i \in 1..Sites(g) |-> LET w == ModeOf(g, i - 1)
     IN RExp(RNeg(((a[1] (.) RInt(w[1] * w[1])) (+) (a[2] (.) RInt(w[2] * w[2]))) (+) (a[3] (.) RInt(w[3] * w[3]))))])
Component(f, c, j) == TLCEval([i \in 1..(Len(f) \div c) |-> f[c*(i - 1) + j]])
FilteredReal(g, W, x) ==
  LET N == Sites(g)
      F == RDFT(TLCEval([i \in 1..2*N |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] ELSE Zero]), g.nx, TotZ(g), -1)
      w == One (/) RInt(N)
      B == RDFT(TLCEval([i \in 1..2*N |-> w (.) (F[i] (.) W[(i + 1) \div 2])]), g.nx, TotZ(g), 1)
  IN TLCEval([i \in 1..N |-> B[2*i - 1]])
(* linear interpolation of the c components of f at the fraction (a/an) of the way along each axis: point (X, Y, Z) of a
   lattice of nx2, nx2, tz2 sites *)
At3(g, c, f, nx2, tz2, X, Y, Z, j) ==
  LET N == g.nx  T == TotZ(g)
      x0 == (X * N) \div nx2   y0 == (Y * N) \div nx2   z0 == (Z * T) \div tz2
      rx == RInt((X * N) % nx2) (/) RInt(nx2)  ry == RInt((Y * N) % nx2) (/) RInt(nx2)  rz == RInt((Z * T) % tz2) (/) RInt(tz2)
      x1 == (x0 + 1) % N  y1 == (y0 + 1) % N  z1 == (z0 + 1) % T
      V(x, y, z) == f[c * Site(g, x, y, z) + j]
      Mix(r, a, b) == IF r = Zero THEN a ELSE ((One (-) r) (.) a) (+) (r (.) b)
      Row(y, z) == IF rx = Zero THEN V(x0, y, z) ELSE Mix(rx, V(x0, y, z), V(x1, y, z))
      Face(z) == IF ry = Zero THEN Row(y0, z) ELSE Mix(ry, Row(y0, z), Row(y1, z))
  IN IF rz = Zero THEN Face(z0) ELSE Mix(rz, Face(z0), Face(z1))
Resampled(g, c, f, nx2, tz2) ==
  TLCEval([i \in 1..(nx2 * nx2 * tz2 * c) |-> LET s == (i - 1) \div c
     IN At3(g, c, f, nx2, tz2, s % nx2, (s \div nx2) % nx2, s \div (nx2 * nx2), ((i - 1) % c) + 1)])
Coarser(g, W, c, f, nx2, tz2) ==
  LET h == TLCEval([j \in 1..c |-> FilteredReal(g, W, Component(f, c, j))])
  IN Resampled(g, c, TLCEval([i \in 1..Len(f) |-> h[((i - 1) % c) + 1][((i - 1) \div c) + 1]]), nx2, tz2)
Finer(g, c, f, nx2, tz2) == Resampled(g, c, f, nx2, tz2)
(* what a configuration file is given when it is read onto another lattice: the smoothing that goes with the new spacing *)
ReadFilter(g, nx2, tz2) == LET q == RInt(2) (.) Pi2  a == q (/) RInt(nx2 * nx2) IN GaussFilter(g, <<a, a, q (/) RInt(tz2 * tz2)>>)
(* and a reduced energy map *)
MapFilter(g, n) == LET s == RInt(g.nx) (/) RInt(n)  a == ((RLit("0.5") (.) Pi2) (.) (s (.) s)) (/) RInt(g.nx * g.nx) IN GaussFilter(g, <<a, a, a>>)
=============================================================================
