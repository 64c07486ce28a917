------------------------------ MODULE Convert ------------------------------
(* Changes of field representation and pointwise operations.  m and v are the logical contents (interleaved
   components, lattice order); every operator gives the content afterwards. *)
EXTENDS Background, Lattice
Pi == RLit("3.141592653589793")
TwoPi == R2 (.) Pi
CMap(f, F(_, _)) ==                         \* applies F to every complex number of f
  TLCEval(LET w == TLCEval([s \in 1..(Len(f) \div 2) |-> TLCEval(F(f[2*s-1], f[2*s]))])
          IN [i \in 1..Len(f) |-> w[(i+1) \div 2][((i+1) % 2) + 1]])
SMap(n, F(_)) == TLCEval([s \in 1..n |-> F(s)])
(* complex to angle: m = R theta, v = (R theta)', theta the phase seen from the point sh of the real axis *)
ThetaM(p, ct, m, sh) == LET R == ScaleFactor(p, ct) IN SMap(Len(m) \div 2, LAMBDA s : R (.) RAtan2(m[2*s], m[2*s-1] (-) sh))
ThetaV(p, ct, m, v, sh) ==
  LET R == ScaleFactor(p, ct)  H == Hubble(p, ct)
  IN SMap(Len(m) \div 2, LAMBDA s :
       LET x == m[2*s-1] (-) sh  y == m[2*s] IN
       (R (.) (((x (.) v[2*s]) (-) (y (.) v[2*s-1])) (/) (Sq(x) (+) Sq(y)))) (+) (R (.) H (.) RAtan2(y, x)))
(* angle to complex with the radius in its vacuum: phi = R exp(i theta), phi' = (R'/R + i theta') phi *)
FromThetaM(p, ct, th) == LET R == ScaleFactor(p, ct) IN
  TLCEval([i \in 1..(2*Len(th)) |-> LET t == th[(i+1) \div 2] IN IF i % 2 = 1 THEN R (.) RCos(t) ELSE R (.) RSin(t)])
FromThetaV(p, ct, th, dth) == LET R == ScaleFactor(p, ct)  H == Hubble(p, ct) IN
  TLCEval([i \in 1..(2*Len(th)) |-> LET t == th[(i+1) \div 2]  d == dth[(i+1) \div 2] IN
           IF i % 2 = 1 THEN R (.) ((H (.) RCos(t)) (-) (d (.) RSin(t))) ELSE R (.) ((H (.) RSin(t)) (+) (d (.) RCos(t)))])
Angles(p, ct, m) == LET R == ScaleFactor(p, ct) IN SMap(Len(m), LAMBDA s : m[s] (/) R)
Rates(p, ct, m, v) == LET R == ScaleFactor(p, ct)  H == Hubble(p, ct) IN SMap(Len(m), LAMBDA s : (v[s] (/) R) (-) (H (.) (m[s] (/) R)))
Evens(f) == SMap(Len(f) \div 2, LAMBDA s : f[2*s-1])
(* conformal axion mass and the non-relativistic amplitudes *)
Mass(p, ct) == RSqrt(AxionM2(p, ct)) (.) ScaleFactor(p, ct)
NaxionM(p, ct, m, v) == LET q == RSqrt(Mass(p, ct)) IN
  TLCEval([i \in 1..(2*Len(m)) |-> IF i % 2 = 1 THEN m[(i+1) \div 2] (.) q ELSE RNeg(v[i \div 2] (/) q)])
(* m = Re(psi exp(-i int M)) sqrt(2/M): the velocity component carries the adiabatic correction M'/2M^2 *)
Adiabatic(p, ct) ==
  LET M == Mass(p, ct)  R == ScaleFactor(p, ct)
      dM2 == (DAxionM2(p, ct) (.) Sq(R)) (+) (R2 (.) Hubble(p, ct) (.) Sq(M))       \* (M^2)'
  IN dM2 (/) (RInt(4) (.) Sq(M) (.) M)
PaxionM(p, ct, m) == LET q == RSqrt(Half (.) Mass(p, ct)) IN SMap(Len(m), LAMBDA s : m[s] (.) q)
PaxionV(p, ct, m, v) ==
  LET q == RSqrt(Half (.) Mass(p, ct))  r == RSqrt(R2 (.) Mass(p, ct))  a == Adiabatic(p, ct)
  IN SMap(Len(m), LAMBDA s : (v[s] (/) r) (+) (a (.) (m[s] (.) q)))
Scaled(f, x) == SMap(Len(f), LAMBDA i : f[i] (.) x)
Unit(f) == CMap(f, LAMBDA x, y : LET r == RSqrt(Sq(x) (+) Sq(y)) IN <<x (/) r, y (/) r>>)
(* radius set to the profile of a string core at the distance the phase gradient suggests *)
Steps6(g, s) ==
  LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s)  N == g.nx  T == TotZ(g)
  IN << Site(g, (x + 1) % N, y, z), Site(g, (x + N - 1) % N, y, z), Site(g, x, (y + 1) % N, z),
        Site(g, x, (y + N - 1) % N, z), Site(g, x, y, (z + 1) % T), Site(g, x, y, (z + T - 1) % T) >>
CoreProfile(s) == LET s2 == Sq(s)  s4 == Sq(s2) IN
  ((RLit("0.43") (.) s) (+) (RLit("0.164") (.) s2) (+) (RLit("0.036") (.) s4)) (/)
  (R1 (+) (RLit("0.39") (.) s) (+) (RLit("0.2") (.) s2) (+) (RLit("0.036") (.) s4))
Core(p, ct, g, m) ==
  LET c == R2 (.) RSqrt(LambdaOf(p, ct)) (.) ScaleFactor(p, ct) (.) Delta(p, g.nx)
      rho(s) ==
        LET x == m[2*s+1]  y == m[2*s+2]  r2 == Sq(x) (+) Sq(y)  nb == Steps6(g, s)
            G == RSum([d \in 1..6 |-> LET a == m[2*nb[d]+1] (-) x  b == m[2*nb[d]+2] (-) y IN Sq(((b (.) x) (-) (a (.) y)) (/) r2)])
        IN (IF RLt(RLit("0.0000001"), G) THEN CoreProfile(c (/) RSqrt(G)) ELSE R1) (/) RSqrt(r2)
      k == TLCEval([s \in 1..Sites(g) |-> rho(s - 1)])
  IN TLCEval([i \in 1..Len(m) |-> m[i] (.) k[(i+1) \div 2]])
(* ---- unwrapping an angle field ---------------------------------------------------------------------------
   A phase has an unwrapping in which neighbours differ by less than pi when it winds neither around any
   elementary square nor around the box. *)
WrapBy(d, t) == d (-) (t (.) RInt(RRint(d (/) t)))
Fwd(g, s) == LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s) IN
  <<Site(g, (x + 1) % g.nx, y, z), Site(g, x, (y + 1) % g.nx, z), Site(g, x, y, (z + 1) % TotZ(g))>>
Unwrappable(g, a, turn) ==
  \A n \in {[s \in 1..Sites(g) |-> Fwd(g, s - 1)]} :        \* (bound by quantifiers: evaluated once)
  \A d \in {[s \in 1..Sites(g) |-> [j \in 1..3 |-> WrapBy(a[n[s][j]+1] (-) a[s], turn)]]} :
  \A tiny \in {turn (.) RLit("0.01")} : \A half \in {turn (.) RLit("0.4995")} :
     /\ \A s \in 1..Sites(g) : \A j \in 1..3 : RLt(RAbs(d[s][j]), half)
     /\ \A s \in 1..Sites(g) : \A ij \in {<<1,2>>, <<1,3>>, <<2,3>>} :
          RLt(RAbs((d[s][ij[1]] (+) d[n[s][ij[1]]+1][ij[2]]) (-) (d[n[s][ij[2]]+1][ij[1]] (+) d[s][ij[2]])), tiny)
     /\ RLt(RAbs(RSum([x \in 1..g.nx |-> d[x][1]])), tiny)
     /\ RLt(RAbs(RSum([y \in 1..g.nx |-> d[(y-1)*g.nx+1][2]])), tiny)
     /\ RLt(RAbs(RSum([z \in 1..TotZ(g) |-> d[(z-1)*Surf(g)+1][3]])), tiny)
Smooth(g, a, turn) == \A half \in {turn (.) RLit("0.5001")} : \A s \in 1..Sites(g) : \A t \in {Fwd(g, s - 1)} : \A j \in 1..3 : RLt(RAbs(a[t[j]+1] (-) a[s]), half)
=============================================================================
