------------------------------ MODULE Strings ------------------------------
(* Cosmic strings and domain walls of a complex field, from the phase alone.
   Lattice sites are numbered as in Lattice; a plaquette is <<s, d>>: the square at site s spanned by the directions
   d = 1 (x,y), 2 (y,z), 3 (z,x).  A string pierces a plaquette when the phase winds once around it; a wall touches a
   site when the phase passes through pi along one of the three forward links. *)
EXTENDS Lattice, Real64, FiniteSets
R0c == RInt(0)
Pi    == RAtan2(RInt(0), RInt(-1))
RRoundOf(a) == RInt(RRint(a (/) (RInt(2) (.) Pi)))
Wrap(a) == a (-) ((RInt(2) (.) Pi) (.) RRoundOf(a))      \* the representative of an angle nearest to zero
Up(g, s, d) == LET x == XofS(g, s)  y == YofS(g, s)  z == ZofS(g, s) IN        \* the neighbour one step forward
  CASE d = 1 -> Site(g, (x + 1) % g.nx, y, z) [] d = 2 -> Site(g, x, (y + 1) % g.nx, z) [] d = 3 -> Site(g, x, y, (z + 1) % TotZ(g))
First(d) == d                                            \* the two directions spanning plaquette d
Second(d) == (d % 3) + 1
Third(d) == ((d + 1) % 3) + 1
(* the phase of every site, and the change of phase along every forward link, taken as the shorter way round *)
Phases(g, m) == TLCEval([i \in 1..Sites(g) |-> RAtan2(m[2*i], m[2*i-1])])
Links(g, ph) == TLCEval([d \in 1..3 |-> TLCEval([i \in 1..Sites(g) |-> Wrap(ph[Up(g, i-1, d) + 1] (-) ph[i])])])
(* winding number of the phase around plaquette d of site s, walked first, second, back, back *)
Winding(g, lk, s, d) ==
  LET a == First(d)  b == Second(d)
  IN RRint(((lk[a][s+1] (+) lk[b][Up(g, s, a) + 1]) (-) (lk[a][Up(g, s, b) + 1] (+) lk[b][s+1])) (/) (RInt(2) (.) Pi))
(* positive strings wind clockwise seen along the third direction *)
Sign(g, lk, s, d) == -Winding(g, lk, s, d)
Windings(g, lk) == TLCEval([d \in 1..3 |-> TLCEval([i \in 1..Sites(g) |-> Sign(g, lk, i-1, d)])])
WallAt(g, ph, lk, s) == \E d \in 1..3 : RLt(Pi, RAbs(ph[s+1] (+) lk[d][s+1]))
(* the map: one byte per site *)
Byte(w, i, wall) ==
  (IF w[1][i] = 1 THEN 1 ELSE IF w[1][i] = -1 THEN 8 ELSE 0) + (IF w[2][i] = 1 THEN 2 ELSE IF w[2][i] = -1 THEN 16 ELSE 0)
   + (IF w[3][i] = 1 THEN 4 ELSE IF w[3][i] = -1 THEN 32 ELSE 0) + (IF wall THEN 64 ELSE 0)
DefectMap(g, m) ==
  LET ph == Phases(g, m)  lk == Links(g, ph)  w == Windings(g, lk)
  IN TLCEval([i \in 1..Sites(g) |-> Byte(w, i, WallAt(g, ph, lk, i-1))])
(* reading a map *)
HasBit(b, n) == (b \div n) % 2 = 1
SignIn(b, d) == LET q == CASE d = 1 -> 1 [] d = 2 -> 2 [] d = 3 -> 4
                IN IF HasBit(b, q) THEN 1 ELSE IF HasBit(b, 8*q) THEN -1 ELSE 0
Pierced(b) == (IF SignIn(b, 1) # 0 THEN 1 ELSE 0) + (IF SignIn(b, 2) # 0 THEN 1 ELSE 0) + (IF SignIn(b, 3) # 0 THEN 1 ELSE 0)
RECURSIVE SumI(_, _, _)
SumI(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumI(F, a + 1, b)          \* short ranges only
Total(F(_), a, b) == LET S[n \in 0..(b - a + 1)] == IF n = 0 THEN 0 ELSE S[n-1] + F(a + n - 1) IN S[b - a + 1]
CountIn(mp, a, b) == LET F(i) == Pierced(mp[i]) IN Total(F, a, b)
ChiralIn(mp, a, b) == LET F(i) == SignIn(mp[i], 1) + SignIn(mp[i], 2) + SignIn(mp[i], 3) IN Total(F, a, b)
WallsIn(mp, a, b) == LET F(i) == IF HasBit(mp[i], 64) THEN 1 ELSE 0 IN Total(F, a, b)
(* strings have no ends: what enters a cell leaves it *)
CellFlux(g, mp, s) == LET F(d) == SignIn(mp[Up(g, s, Third(d)) + 1], d) - SignIn(mp[s+1], d) IN F(1) + F(2) + F(3)
NoEnds(g, mp) == \A s \in 0..(Sites(g) - 1) : CellFlux(g, mp, s) = 0
(* and none leaves the box *)
PlaneFlux(g, mp, z) == LET F(i) == SignIn(mp[i], 1) IN Total(F, z * Surf(g) + 1, (z + 1) * Surf(g))
Periodic(g, mp) == \A z \in 0..(TotZ(g) - 1) : PlaneFlux(g, mp, z) = 0
(* the phase is nowhere undecided: no link changes it by half a turn and no site of a wall link sits on the cut *)
Decided(g, ph, lk, t) == \A i \in 1..Sites(g) : \A d \in 1..3 :
    /\ RLt(RAbs(lk[d][i]), Pi (-) t)
    /\ ~RNear(RAbs(ph[i]), Pi, t) /\ ~RNear(RAbs(ph[i]), R0c, t)
(* positions of the pierced plaquettes in units of half a lattice spacing *)
Half3(g, s, d) == LET x == 2*XofS(g, s)  y == 2*YofS(g, s)  z == 2*ZofS(g, s)
                  IN CASE d = 1 -> <<x+1, y+1, z>> [] d = 2 -> <<x, y+1, z+1>> [] d = 3 -> <<x+1, y, z+1>>
Positions(g, mp, a, b) == {Half3(g, q[1], q[2]) : q \in {q \in (a-1..b-1) \X (1..3) : SignIn(mp[q[1]+1], q[2]) # 0}}

(* ---- length: inside each cell, the pierced faces are joined; the point of a face is where the lines Re = 0 and
   Im = 0, interpolated along the face's edges, cross ---- *)
R1c == RInt(1)
HalfR == RLit("0.5")
Nodes(c, cu, cuv, cv) ==                                 \* zeros of one component on the four edges, as points
  LET e1 == IF RLe(c (.) cu, R0c) THEN <<<<c (/) (c (-) cu), R0c>>>> ELSE <<>>
      e2 == IF RLe(cu (.) cuv, R0c) THEN <<<<R1c, cu (/) (cu (-) cuv)>>>> ELSE <<>>
      e3 == IF RLe(cuv (.) cv, R0c) THEN <<<<cv (/) (cv (-) cuv), R1c>>>> ELSE <<>>
      e4 == IF RLe(cv (.) c, R0c) THEN <<<<R0c, c (/) (c (-) cv)>>>> ELSE <<>>
  IN e1 \o e2 \o e3 \o e4
Meet(p, q) ==                                            \* crossing of the lines through p[1],p[2] and q[1],q[2]
  LET dx1 == p[2][1] (-) p[1][1]  dy1 == p[2][2] (-) p[1][2]
      dx2 == q[2][1] (-) q[1][1]  dy2 == q[2][2] (-) q[1][2]
      t == (((q[1][1] (-) p[1][1]) (.) dy2) (-) ((q[1][2] (-) p[1][2]) (.) dx2)) (/) ((dx1 (.) dy2) (-) (dy1 (.) dx2))
  IN <<p[1][1] (+) (t (.) dx1), p[1][2] (+) (t (.) dy1)>>
FacePoint(g, m, s, d) ==
  LET a == Up(g, s, First(d))  b == Up(g, s, Second(d))  ab == Up(g, a, Second(d))
      re == Nodes(m[2*s+1], m[2*a+1], m[2*ab+1], m[2*b+1])
      im == Nodes(m[2*s+2], m[2*a+2], m[2*ab+2], m[2*b+2])
  IN IF Len(re) = 2 /\ Len(im) = 2 THEN Meet(re, im) ELSE <<HalfR, HalfR>>
(* the six faces of cell s: three at s, three one step forward; coordinates relative to s *)
FaceEnd(g, m, s, d, up) ==
  LET q == FacePoint(g, m, IF up THEN Up(g, s, Third(d)) ELSE s, d)
      h == IF up THEN R1c ELSE R0c
  IN CASE d = 1 -> <<q[1], q[2], h>> [] d = 2 -> <<h, q[1], q[2]>> [] d = 3 -> <<q[2], h, q[1]>>
Ends(g, m, mp, s) == [f \in {f \in (1..3) \X BOOLEAN : SignIn(mp[(IF f[2] THEN Up(g, s, Third(f[1])) ELSE s) + 1], f[1]) # 0} |->
                         FaceEnd(g, m, s, f[1], f[2])]
Dist(p, q) == RSqrt(((p[1] (-) q[1]) (.) (p[1] (-) q[1])) (+) ((p[2] (-) q[2]) (.) (p[2] (-) q[2])) (+) ((p[3] (-) q[3]) (.) (p[3] (-) q[3])))
RECURSIVE SumR(_, _)
SumR(F(_), S) == IF S = {} THEN R0c ELSE LET x == CHOOSE x \in S : TRUE IN F(x) (+) SumR(F, S \ {x})
(* with several strings in a cell, the mean over all ways of joining the ends two by two: every pair of ends occurs in
   a fraction 1/(n-1) of them *)
CellLength(g, m, mp, s) ==
  LET e == TLCEval(Ends(g, m, mp, s))  D == DOMAIN e  n == Cardinality(D)
      F(pq) == Dist(e[pq[1]], e[pq[2]])
  IN IF n < 2 THEN R0c ELSE SumR(F, D \X D) (/) RInt(2 * (n - 1))
TouchedCell(g, mp, s) == mp[s+1] % 64 # 0 \/ \E d \in 1..3 : mp[Up(g, s, d) + 1] % 64 # 0
Length(g, m, mp) == RSum([i \in 1..Sites(g) |-> IF TouchedCell(g, mp, i-1) THEN CellLength(g, m, mp, i-1) ELSE R0c])

(* ---- velocity and Lorentz factor of the strings, from the field around each pierced plaquette ---- *)
Corner(P, s) ==                                          \* (gamma v)^2 estimated at one corner
  LET a == P.m[2*s+1]  b == P.m[2*s+2]
      va == (P.v[2*s+1] (-) (P.H (.) a)) (/) P.R  vb == (P.v[2*s+2] (-) (P.H (.) b)) (/) P.R
      fa == a (/) P.R  fb == b (/) P.R  ga == va (/) P.R  gb == vb (/) P.R
      f2 == (fa (.) fa) (+) (fb (.) fb)  d2 == (ga (.) ga) (+) (gb (.) gb)
      x == RInt(2) (.) ((fa (.) ga) (+) (fb (.) gb))
      c2 == RLit("0.41238") (.) RLit("0.41238")
  IN ((d2 (.) (R1c (+) (f2 (/) (RInt(8) (.) c2)))) (/) (P.msa2 (.) c2)) (+) ((x (.) x) (/) (RInt(16) (.) P.msa2 (.) c2 (.) c2))
Boost(g, P, s, d) ==
  LET a == Up(g, s, First(d))  b == Up(g, s, Second(d))  ab == Up(g, a, Second(d))
  IN (Corner(P, s) (+) Corner(P, a) (+) Corner(P, b) (+) Corner(P, ab)) (/) RInt(4)
Motion(g, P, mp) ==                                      \* sum of gamma, gamma^2, gamma v, gamma v^2
  LET q == TLCEval(SelectSeq([i \in 1..(3*Sites(g)) |-> <<(i-1) \div 3, ((i-1) % 3) + 1>>], LAMBDA t : SignIn(mp[t[1]+1], t[2]) # 0))
      u == TLCEval([i \in 1..Len(q) |-> Boost(g, P, q[i][1], q[i][2])])
      gam(x) == RSqrt(R1c (+) x)
  IN [g |-> RSum([i \in 1..Len(u) |-> gam(u[i])]), g2 |-> RSum([i \in 1..Len(u) |-> R1c (+) u[i]]),
      gv |-> RSum([i \in 1..Len(u) |-> RSqrt(u[i])]), gv2 |-> RSum([i \in 1..Len(u) |-> u[i] (/) gam(u[i])])]
=============================================================================
