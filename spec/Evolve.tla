------------------------------- MODULE Evolve -------------------------------
(* One time step of the fields.  State: the logical content m (field) and v (velocity) of the whole lattice,
   interleaved real components, the conformal time ct; constants of a run: the background p, the geometry geo, the
   neighbour table nb and the potential pot. *)
EXTENDS Background, Lattice
Gr == INSTANCE Gravity
VARIABLES m, v, ct, p, geo, nb, pot, ft
state == <<m, v, ct, p, geo, nb, pot, ft>>
(* coefficients of the fourth-order Runge-Kutta-Nystrom integrator *)
CK == <<RLit("0.1344961992774310892"), RLit("-0.2248198030794208058"), RLit("0.7563200005156682911"), RLit("0.3340036032863214255")>>
DK == <<RLit("0.5153528374311229364"), RLit("-0.085782019412973646"), RLit("0.4415830236164665242"), RLit("0.1288461583653841854")>>
(* weights of the symmetric second-derivative stencil with n neighbours on each side *)
Q(a, b) == RInt(a) (/) RInt(b)
Stencil(n) == CASE n = 1 -> <<R1>>
                [] n = 2 -> <<Q(4,3), Q(-1,12)>>
                [] n = 3 -> <<Q(3,2), Q(-3,20), Q(1,90)>>
                [] n = 4 -> <<Q(8,5), Q(-1,5), Q(8,315), Q(-1,560)>>
                [] n = 5 -> <<Q(5,3), Q(-5,21), Q(5,126), Q(-5,1008), Q(1,3150)>>
(* the six sites at distance d of site s (0-based), periodic in every direction *)
NeighboursAt(g, s, d) ==
  LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s)  N == g.nx  T == TotZ(g)
  IN << Site(g, (x + d) % N, y, z), Site(g, (x + N - (d % N)) % N, y, z),
        Site(g, x, (y + d) % N, z), Site(g, x, (y + N - (d % N)) % N, z),
        Site(g, x, y, (z + d) % T), Site(g, x, y, (z + T - (d % T)) % T) >>
Neighbours(g) == TLCEval([s \in 1..Sites(g) |-> TLCEval([d \in 1..g.ng |-> NeighboursAt(g, s - 1, d)])])
(* lattice Laplacian of f (c components per site); Dif(a, b) is the difference of two values *)
LapWith(Dif(_, _), c, f) ==
  LET w == TLCEval(Stencil(geo.ng))  o == R1 (/) Sq(Delta(p, geo.nx))
      ws == TLCEval([d \in 1..geo.ng |-> w[d] (.) o])
  IN TLCEval([i \in 1..Len(f) |->
       LET s == ((i - 1) \div c) + 1  j == ((i - 1) % c) + 1 IN
       RSum([d \in 1..geo.ng |-> ws[d] (.) RSum([n \in 1..6 |-> Dif(f[nb[s][d][n] * c + j], f[i])])])])
Plain(a, b) == RSub(a, b)
Lap(c, f) == LapWith(Plain, c, f)
Axpy(a, x, y) == TLCEval([i \in 1..Len(x) |-> y[i] (+) (a (.) x[i])])       \* y + a x
(* ---- complex field ------------------------------------------------------------------------------------- *)
(* with the phase frozen the lattice kernel drops the axion force; the spectral one keeps its radial part *)
KeepRadial == Bit(pot, 1048576)
EvolTheta == Bit(pot, 4096)   EvolRho == Bit(pot, 8192)   DampRho == Bit(pot, 16384)   DampAll == Bit(pot, 32768)
(* background quantities one stage needs *)
Bg(t) == LET R == ScaleFactor(p, t) IN
         TLCEval([R |-> R, R2 |-> Sq(R), lam |-> LambdaOf(p, t), ma2 |-> AxionM2(p, t), rpp |-> RppOf(p, t), rp |-> Hubble(p, t)])
QcdForce(b, x, y, r2) ==                   \* minus the gradient of the axion potential
  CASE QcdOf(pot) = 2  -> <<b.ma2 (.) b.R2 (.) b.R, R0>>                             \* tilted Mexican hat
    [] QcdOf(pot) = 8  -> LET k == (b.ma2 (.) b.R2) (/) R2 IN <<k (.) x, RNeg(k (.) y)>>     \* two minima on the real axis
    [] QcdOf(pot) = 32 -> LET k == (b.ma2 (.) b.R2 (.) b.R2) (/) (r2 (.) RSqrt(r2)) IN <<k (.) y (.) y, RNeg(k (.) x (.) y)>>   \* cosine of the phase
    [] OTHER -> <<R0, R0>>
Accel(b, x, y, lx, ly) ==
  LET r2 == Sq(x) (+) Sq(y)
      h  == IF EvolTheta THEN R0 ELSE (b.lam (.) (r2 (-) b.R2)) (-) b.rpp
      q  == IF EvolRho /\ ~KeepRadial THEN <<R0, R0>> ELSE QcdForce(b, x, y, r2)
  IN << (lx (-) (x (.) h)) (+) q[1], (ly (-) (y (.) h)) (+) q[2] >>
(* friction of strength gamma during a time h *)
Friction(b, h) == LET g0 == p.gamma (/) b.R
                      g == IF RLt(R0, p.dectime) THEN (g0 (.) b.R2) (/) p.dectime ELSE g0
                  IN (g (.) h) (/) R2
KickSite(b, h, mu, x, y, lx, ly, vx, vy) ==
  LET a0 == Accel(b, x, y, lx, ly)
      r2 == Sq(x) (+) Sq(y)
      ta == ((y (.) a0[1]) (-) (x (.) a0[2])) (/) r2        \* only the motion along the phase is kept
      tv == ((y (.) vx) (-) (x (.) vy)) (/) r2
      a == IF EvolTheta THEN <<(ta (.) y) (+) (b.rpp (.) x), (b.rpp (.) y) (-) (ta (.) x)>> ELSE a0
      u == IF EvolTheta THEN <<(tv (.) y) (+) (b.rp (.) x), (b.rp (.) y) (-) (tv (.) x)>> ELSE <<vx, vy>>
      d1 == R1 (/) (R1 (+) mu)
      e == mu (/) (R1 (+) mu)
      w == IF DampAll THEN <<(u[1] (.) (R1 (-) mu) (.) d1) (+) (a[1] (.) d1 (.) h), (u[2] (.) (R1 (-) mu) (.) d1) (+) (a[2] (.) d1 (.) h)>>
           ELSE IF DampRho THEN
             LET mv == (x (.) u[1]) (+) (y (.) u[2])  ma == (x (.) a[1]) (+) (y (.) a[2])
                 f == (e (/) r2) (.) ((R2 (.) (mv (-) (r2 (.) b.rp))) (+) (ma (.) h))
             IN <<(u[1] (+) (a[1] (.) h)) (-) (f (.) x), (u[2] (+) (a[2] (.) h)) (-) (f (.) y)>>
           ELSE <<u[1] (+) (a[1] (.) h), u[2] (+) (a[2] (.) h)>>
      mw == ((x (.) w[1]) (+) (y (.) w[2])) (/) r2
  IN IF EvolRho THEN <<mw (.) x, mw (.) y>> ELSE w
(* ---- one stage: kick then drift -------------------------------------------------------------------------- *)
KickC(b, h, mm, vv) ==
  LET lap == Lap(2, mm)  mu == Friction(b, h)
      prs == TLCEval([s \in 1..Sites(geo) |-> LET i == 2*s - 1 IN
                        TLCEval(KickSite(b, h, mu, mm[i], mm[i+1], lap[i], lap[i+1], vv[i], vv[i+1]))])
  IN TLCEval([i \in 1..Len(mm) |-> prs[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]])
(* ---- angle field: psi = R theta --------------------------------------------------------------------------- *)
Pi == RLit("3.14159265358979323846264338327950288")
Wrap(x, w) == IF RLt(x, RNeg(w (/) R2)) THEN x (+) w ELSE IF RLt(w (/) R2, x) THEN x (-) w ELSE x
KickA(b, h, mm, vv) ==
  LET tp == R2 (.) Pi (.) b.R
      lap == IF ft = 130 THEN LET Dif(x, y) == Wrap(RSub(x, y), tp) IN LapWith(Dif, 1, mm) ELSE Lap(1, mm)
      z3 == b.ma2 (.) b.R2 (.) b.R
      q(x) == CASE QcdOf(pot) \in {0, 1} -> R0
                [] QcdOf(pot) \in {2, 4, 32} -> z3 (.) RSin(x (/) b.R)
                [] QcdOf(pot) = 16 -> (z3 (.) x) (/) b.R
  IN TLCEval([i \in 1..Len(mm) |-> vv[i] (+) (h (.) ((lap[i] (-) q(mm[i])) (+) (b.rpp (.) mm[i])))])
DriftA(b, h, mm, vv) ==
  LET tp == R2 (.) Pi (.) b.R  x == Axpy(h, vv, mm)
  IN IF ft = 130 THEN TLCEval([i \in 1..Len(x) |-> Wrap(x[i], tp)]) ELSE x
(* ---- non-relativistic complex field: i P' = -lap P / (2 mA R) - beta |P|^2 P / 4 R^2 ----------------------- *)
Rot(k, x, y) == LET c == RCos(k)  s == RSin(k) IN <<(x (.) c) (-) (y (.) s), (y (.) c) (+) (x (.) s)>>
Interaction(t, h, den) ==                  \* integral of the self-interaction strength over a time h from t
  LET u == (R2 (.) p.frw) (-) R1  R == ScaleFactor(p, t)
  IN IF u = R0 THEN (t (.) p.beta (.) RLog(R1 (+) (h (/) t))) (/) (RInt(den) (.) Sq(R))
     ELSE ((t (.) p.beta) (.) (RPow(t (+) h, u) (-) RPow(t, u))) (/) (RInt(den) (.) (Sq(R) (.) (u (.) RPow(t (+) h, u))))
StageN(t, h, mm) ==                        \* the Laplacian acts during h, then the interaction
  LET b == Bg(t)  lap == Lap(2, mm)
      k == h (/) (R2 (.) RSqrt(b.ma2) (.) b.R)
      kk == Interaction(t, h, 4)
      prs == TLCEval([s \in 1..Sites(geo) |-> LET i == 2*s - 1
                  x == mm[i] (-) (k (.) lap[i+1])  y == mm[i+1] (+) (k (.) lap[i])
                IN TLCEval(Rot(kk (.) (Sq(x) (+) Sq(y)), x, y))])
  IN TLCEval([i \in 1..Len(mm) |-> prs[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]])
(* ---- non-relativistic pair (m, v), field (m + i v) ---------------------------------------------------------- *)
(* under its own gravity (a run that asked for it) the phase also turns by -mA G phi during h *)
Heavy == "heavy" \in DOMAIN p
PotP(t, h, mm, vv) ==
  LET kk == Interaction(t, h, 8)
      phi == IF Heavy THEN Gr!Poisson(p, geo, Gr!DensityOf(mm, vv)) ELSE <<>>
      pull == IF Heavy THEN RNeg((RSqrt(AxionM2(p, t)) (.) p.grav) (.) h) ELSE R0
      prs == TLCEval([s \in 1..Len(mm) |->
               TLCEval(Rot((kk (.) (Sq(mm[s]) (+) Sq(vv[s]))) (+) (IF Heavy THEN pull (.) phi[s] ELSE R0), mm[s], vv[s]))])
  IN << TLCEval([s \in 1..Len(mm) |-> prs[s][1]]), TLCEval([s \in 1..Len(mm) |-> prs[s][2]]) >>
KinP(t, h) ==                              \* integral of 1 / (2 mA R) over a time h from t
  LET n == DlogMAR(p, t)  al == n (-) R1
      hp == IF RLt(RAbs(al), RLit("0.01")) THEN t (.) RLog(R1 (+) (h (/) t))
            ELSE (t (/) al) (.) (R1 (-) RPow(R1 (+) (h (/) t), RNeg(al)))
  IN hp (/) (R2 (.) RSqrt(AxionM2(p, t)) (.) ScaleFactor(p, t))
(* ---- a whole step of size dz ---------------------------------------------------------------------------------- *)
RECURSIVE Stages(_, _, _, _, _)
Stages(i, t, dz, mm, vv) ==
  IF i = 5 THEN <<mm, vv, t>>
  ELSE LET hc == CK[i] (.) dz  hd == DK[i] (.) dz  b == Bg(t) IN
    CASE ft = 1 ->
           LET v1 == KickC(b, hc, mm, vv)  m1 == Axpy(hd, v1, mm) IN Stages(i + 1, t (+) hd, dz, m1, v1)
      [] ft \in {2, 130} ->
           LET v1 == KickA(b, hc, mm, vv)  m1 == DriftA(b, hd, mm, v1) IN Stages(i + 1, t (+) hd, dz, m1, v1)
      [] ft = 512 ->
           Stages(i + 1, t (+) hd, dz, StageN(t, hd, mm), vv)
      [] ft = 1024 ->
           LET v1 == Axpy(KinP(t, hc), Lap(1, mm), vv)
               m1 == Axpy(RNeg(KinP(t, hd)), Lap(1, v1), mm)
           IN Stages(i + 1, t (+) hd, dz, m1, v1)
StepFrom(t, dz, mm, vv) ==
  IF ft # 1024 THEN Stages(1, t, dz, mm, vv)
  ELSE LET h == dz (/) R2  a == PotP(t, h, mm, vv)
           s == Stages(1, t, dz, a[1], a[2])
           z == PotP(s[3], h, s[1], s[2])
       IN <<z[1], z[2], s[3]>>
RECURSIVE StepN(_, _, _, _, _)
StepN(n, t, dz, mm, vv) == IF n = 0 THEN <<mm, vv, t>>
                           ELSE LET s == StepFrom(t, dz, mm, vv) IN StepN(n - 1, s[3], dz, s[1], s[2])
Evolve(dz, n) == LET s == StepN(n, ct, dz, m, v) IN m' = s[1] /\ v' = s[2] /\ ct' = s[3] /\ UNCHANGED <<p, geo, nb, pot, ft>>
(* size of the largest terms that a step adds up, for comparisons *)
VScale(dz) ==
  LET M == RMaxAbs(m)  V == RMaxAbs(v)  b == Bg(ct)
      A == ((RInt(16) (.) M) (/) Sq(Delta(p, geo.nx))) (+) (b.lam (.) M (.) (Sq(M) (+) b.R2)) (+) (b.ma2 (.) b.R2 (.) (b.R (+) M)) (+) (RAbs(b.rpp) (.) M)
  IN IF ft \in {512, 1024} THEN RMax(M, V) ELSE V (+) (RAbs(dz) (.) A) (+) (IF EvolTheta THEN b.rp (.) M ELSE R0)
MScale(dz) == IF ft \in {512, 1024} THEN VScale(dz) ELSE RMaxAbs(m) (+) (RAbs(dz) (.) VScale(dz))
=============================================================================
