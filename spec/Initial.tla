------------------------------ MODULE Initial ------------------------------
(* How a run's first field is made.  Position-space kinds: a field phi of the kind asked for is drawn, smoothed n times
   by its neighbours, put on its vacuum circle, given the profile of string cores if asked, and then made conformal:
   m = R phi, m' = (R' phi + R phi')(1 + kick).  Momentum-space kinds: independent modes with random phases (and random
   moduli) under an envelope that depends only on the length of the wave vector.  q holds the numbers the user gave:
   kmax, kcr, mode0, wave = <<kx, ky, kz>>. *)
EXTENDS Convert
Cis(a) == <<RCos(a), RSin(a)>>
Draws(g, F(_)) ==                            \* a complex field with the value F(s) at site s
  TLCEval(LET w == TLCEval([s \in 1..Sites(g) |-> TLCEval(F(s - 1))])
          IN [i \in 1..2*Sites(g) |-> w[(i + 1) \div 2][((i + 1) % 2) + 1]])
Back1(x, n) == IF 2*x > n THEN x - n ELSE x         \* the nearest copy to the origin
D2(x, y, z) == RInt(x*x + y*y + z*z)
Tight(g, p, q) == Sq(p.L) (/) (R2 (.) Sq(RInt(g.nx)) (.) Sq(q.kcr))
(* the angle around a circular loop of radius a, at distance rho from its axis and h above its plane *)
LoopAngle(a, rho, h) ==
  LET d1 == Sq(rho (+) a) (+) Sq(h)  d2 == Sq(rho (-) a) (+) Sq(h)
  IN Pi (.) (Half (+) ((((RInt(4) (.) Sq(a)) (-) d1) (-) d2) (/) (RInt(4) (.) RSqrt(d1 (.) d2))))
LoopR(g, q) == RInt(g.nx) (.) (IF RLt(R0, q.mode0) THEN q.mode0 ELSE RLit("0.2501"))
Wave(g, q, s) == (TwoPi (/) RInt(g.nx)) (.) ((RInt(XofS(g, s)) (.) q.wave[1]) (+) (RInt(YofS(g, s)) (.) q.wave[2]) (+) (RInt(ZofS(g, s)) (.) q.wave[3]))
Angle(kind, g, p, q, s) ==
  LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s)  n == g.nx  h == g.nx \div 2  T == TotZ(g) IN
  CASE kind = 7 -> q.mode0 (.) RCos((TwoPi (.) RInt(x*q.kmax + y)) (/) RInt(n))
    [] kind = 4 -> q.mode0 (.) RExp(RNeg(Tight(g, p, q) (.) D2(x - h, y - h, Back1(z, T))))
    [] kind = 3 -> q.mode0 (.) RExp(RNeg(Tight(g, p, q) (.) D2(Back1(x, n), Back1(y, n), Back1(z, T))))
    [] kind = 9 -> q.mode0 (/) (R1 (+) (Tight(g, p, q) (.) D2(Back1(x, n), Back1(y, n), Back1(z, T))))
    [] kind = 8 -> q.mode0 (.) RCos(Wave(g, q, s))
    [] kind = 1 -> LET d == RInt(z) (-) q.kcr  t == RInt(T) (/) R2
                       e == IF RLt(t, d) THEN d (-) RInt(T) ELSE IF RLt(t, RNeg(d)) THEN d (+) RInt(T) ELSE d
                   IN LoopAngle(LoopR(g, q), RSqrt(D2(x - h, y - h, 0)), e) (.) (IF RLt(RLit("0.01"), e) THEN R1 ELSE RNeg(R1))
    [] kind = 2 -> LoopAngle(LoopR(g, q), RSqrt(D2(0, y - h, Back1(z, T))), RInt(x - h)) (.) (IF x > h THEN RNeg(R1) ELSE R1)
(* straight strings along z, alternating in sense *)
Strings2(g, q, s) == LET r == RInt(g.nx) (/) RInt(q.kmax)  w == 2*q.kmax + 2
                         at(i) == RInt(i) (+) Half
                     IN RSum([j \in 1..w*w |-> LET a == ((j - 1) % w) - q.kmax  b == ((j - 1) \div w) - q.kmax
                                                   t == RAtan2(RInt(YofS(g, s)) (-) (r (.) at(b)), RInt(XofS(g, s)) (-) (r (.) at(a)))
                                               IN IF (a + b) % 2 = 0 THEN t ELSE RNeg(t)])
Fixed == {1, 2, 3, 4, 7, 8, 9, 10}                           \* kinds that leave nothing to chance
Drawn(kind, g, p, q) ==
  IF kind = 10 THEN Draws(g, LAMBDA s : Cis(Strings2(g, q, s)))
  ELSE LET r == IF kind = 8 THEN q.kcr ELSE R1 IN Draws(g, LAMBDA s : LET c == Cis(Angle(kind, g, p, q, s)) IN <<r (.) c[1], r (.) c[2]>>)
Turning(g, q, f) ==                        \* phi' = i theta' phi with a wave theta' = mode0 sin(k x)
  TLCEval(LET w == TLCEval([s \in 1..Sites(g) |-> q.mode0 (.) RSin(Wave(g, q, s - 1))])
          IN [i \in 1..Len(f) |-> IF i % 2 = 1 THEN RNeg(w[(i + 1) \div 2] (.) f[i + 1]) ELSE w[i \div 2] (.) f[i - 1]])
(* one smoothing step *)
Smoothed(g, a, f) ==
  LET b == (R1 (-) a) (/) RInt(6)
      nb == TLCEval([s \in 1..Sites(g) |-> Steps6(g, s - 1)])
  IN TLCEval([i \in 1..Len(f) |-> LET n == nb[(i + 1) \div 2]  o == 1 + ((i + 1) % 2)
                                  IN (a (.) f[i]) (+) (b (.) RSum([j \in 1..6 |-> f[2*n[j] + o]]))])
RECURSIVE SmoothN(_, _, _, _)
SmoothN(g, a, n, f) == IF n = 0 THEN f ELSE SmoothN(g, a, n - 1, Smoothed(g, a, f))
Comoving(p, ct, f, df, kick) ==           \* conformal field and velocity of phi, phi'
  LET R == ScaleFactor(p, ct)  H == R (.) Hubble(p, ct)
  IN <<Scaled(f, R), TLCEval([i \in 1..Len(f) |-> (R1 (+) kick) (.) ((H (.) f[i]) (+) (R (.) df[i]))])>>
Zero(f) == TLCEval([i \in 1..Len(f) |-> R0])
Made(kind, n, alpha, kick, cored, g, p, ct, q) ==
  LET d == Drawn(kind, g, p, q)
      u == IF kind = 10 THEN Turning(g, q, d) ELSE Zero(d)
      s == SmoothN(g, alpha, n, d)
      w == IF kind = 8 THEN s ELSE Unit(s)
      c == IF cored THEN Core(p, ct, g, w) ELSE w
  IN Comoving(p, ct, c, u, kick)
(* ---- momentum space -------------------------------------------------------------------------------------------- *)
WaveNo(i, n) == IF 2*i <= n THEN i ELSE i - n
Sinc(x) == IF x = R0 THEN R1 ELSE RSin(x) (/) x
Cut(n, kmax) == LET k == IF kmax > (n \div 2) - 1 THEN (n \div 2) - 1 ELSE kmax IN 3*k*k         \* no power beyond this k^2
Table(tb, k2) == LET r == RSqrt(RInt(k2))  b == RFloor(r) IN tb[b + 1] (+) ((tb[b + 2] (-) tb[b + 1]) (.) (r (-) RInt(b)))
Envelope(moco, n, kc, tb, k2) ==
  LET x == RSqrt(RInt(k2)) (/) kc  x2 == RInt(k2) (/) Sq(kc) IN
  CASE moco = 0 -> R1
    [] moco \in {1, 2} -> Sinc(x)
    [] moco = 4 -> RExp(RNeg(x))
    [] moco \in {8, 1040} -> RExp(RNeg(x2))
    [] moco = 16 -> RExp((RInt(-4) (.) RInt(k2)) (/) RInt(n*n)) (/) RPow(x2 (+) R1, RLit("1.5"))
    [] moco = 2048 -> Table(tb, k2)
Rate(moco, kc, k2) == LET x == RSqrt(RInt(k2)) (/) kc IN IF k2 = 0 THEN R0 ELSE RCos(x) (-) Sinc(x)     \* envelope of the velocity, for moco = 2
=============================================================================
