-------------------------------- MODULE WKB --------------------------------
(* Continuation of a small angle field from one time to a later one, mode by mode, for a conformal frequency
   w(t)^2 = k^2 + (mA R)^2 that changes slowly: first-order WKB.  Radiation expansion (R = t). *)
EXTENDS Background, Lattice
WPi == RLit("3.14159265358979323846")
WNum(q, n) == IF 2*q <= n THEN q ELSE q - n
WMode(g, s) == LET x == WNum(XofS(g, s), g.nx)  y == WNum(YofS(g, s), g.nx)  z == WNum(ZofS(g, s), TotZ(g)) IN x*x + y*y + z*z
WK2(p, n) == Sq((R2 (.) WPi) (/) p.L) (.) RInt(n)
Mc2(p, t) == AxionM2(p, t) (.) Sq(ScaleFactor(p, t))                 \* conformal mass squared
(* its logarithmic slope, just after (start) and just before (end) a time *)
SlopeAfter(p, t)  == IF RLt(ScaleFactor(p, t), p.zthres) THEN p.nqcd (+) R2 ELSE R2
SlopeBefore(p, t) == IF RLe(ScaleFactor(p, t), p.zthres) THEN p.nqcd (+) R2 ELSE R2
Freq(p, n, t) == RSqrt(WK2(p, n) (+) Mc2(p, t))
(* w'/(2 w^2) with the given slope *)
Zeta(p, n, t, slope) == LET w == Freq(p, n, t) IN ((slope (.) Mc2(p, t)) (/) (RInt(4) (.) t)) (/) (w (.) w (.) w)
(* the integral of w: five-point Gauss-Legendre on panels growing with t, split where the mass stops growing *)
GX == <<R0, RLit("0.5384693101056830910363"), RLit("-0.5384693101056830910363"), RLit("0.9061798459386639927976"), RLit("-0.9061798459386639927976")>>
GW == <<RLit("0.5688888888888888888889"), RLit("0.4786286704993664680413"), RLit("0.4786286704993664680413"), RLit("0.2369268850561890875143"), RLit("0.2369268850561890875143")>>
Panels == 24
Piece(p, t1, t2) ==                                    \* <<node, weight, mass^2>> in order
  LET h == (t2 (-) t1) (/) RInt(Panels) IN
  TLCEval([i \in 1..5*Panels |->
     LET a == t1 (+) (h (.) (RInt((i - 1) \div 5) (+) Half))  j == ((i - 1) % 5) + 1
         t == a (+) ((Half (.) h) (.) GX[j])
     IN <<t, (Half (.) h) (.) GW[j], Mc2(p, t)>>])
Nodes(p, t1, t2) == IF RLt(t1, p.zthres) /\ RLt(p.zthres, t2) THEN Piece(p, t1, p.zthres) \o Piece(p, p.zthres, t2) ELSE Piece(p, t1, t2)
Only(S) == CHOOSE x \in S : TRUE                       \* (binds a value once: TLC would evaluate a LET again at each use)
PhaseOn(p, n, nodes) == Only({RSum(TLCEval([i \in 1..Len(d) |-> d[i][2] (.) RSqrt(k2 (+) d[i][3])])) : d \in {nodes}, k2 \in {WK2(p, n)}})
Largest(g) == 2*(g.nx \div 2)*(g.nx \div 2) + (TotZ(g) \div 2)*(TotZ(g) \div 2)
(* what a mode needs: frequencies, slopes and phase, for each squared mode number that occurs *)
Entry(p, n, t1, t2, nodes) ==
  Only({[w1 |-> Freq(p, n, t1), w2 |-> Freq(p, n, t2), z1 |-> Zeta(p, n, t1, SlopeAfter(p, t1)), z2 |-> Zeta(p, n, t2, SlopeBefore(p, t2)),
         c |-> RCos(ph), s |-> RSin(ph), ph |-> ph] : ph \in {PhaseOn(p, n, nodes)}})
Law(p, g, t1, t2) ==
  Only({TLCEval([n \in {WMode(g, s) : s \in 0..Sites(g)-1} |-> Entry(p, n, t1, t2, d)]) : d \in {Nodes(p, t1, t2)}})
(* a mode (M, D = M') as a real linear map: with a = sqrt(w1/w2),
     X = (D + w1 z1 M)/w1;   M' = a (cos M + sin X);   X' = a (cos X - sin M);   D' = w2 X' - w2 z2 M'
   a mode with no frequency at all keeps its velocity and its field grows with it; the map leaves it alone in time only
   if it has none *)
MapM(e, M, D) == LET X == (D (/) e.w1) (+) (e.z1 (.) M) IN RSqrt(e.w1 (/) e.w2) (.) ((e.c (.) M) (+) (e.s (.) X))
MapD(e, M, D) == LET X == (D (/) e.w1) (+) (e.z1 (.) M)  a == RSqrt(e.w1 (/) e.w2)
                     Y == a (.) ((e.c (.) X) (-) (e.s (.) M))  M2 == a (.) ((e.c (.) M) (+) (e.s (.) X))
                 IN (e.w2 (.) Y) (-) ((e.w2 (.) e.z2) (.) M2)
WModes(g, f) == RDFT(TLCEval([i \in 1..2*Len(f) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE R0]), g.nx, TotZ(g), -1)
WField(g, F) == LET b == RDFT(F, g.nx, TotZ(g), 1)  w == R1 (/) RInt(Sites(g)) IN TLCEval([i \in 1..Sites(g) |-> w (.) b[2*i - 1]])
ContinueModes(p, g, t1, t2, mm, vv) ==
  Only({<< TLCEval([i \in 1..Len(F) |-> MapM(L[at[(i + 1) \div 2]], F[i], H[i])]),
           TLCEval([i \in 1..Len(F) |-> MapD(L[at[(i + 1) \div 2]], F[i], H[i])]) >> :
        L \in {Law(p, g, t1, t2)}, F \in {WModes(g, mm)}, H \in {WModes(g, vv)}, at \in {TLCEval([s \in 1..Sites(g) |-> WMode(g, s - 1)])}})
Continue(p, g, t1, t2, mm, vv) == Only({<<WField(g, X[1]), WField(g, X[2])>> : X \in {ContinueModes(p, g, t1, t2, mm, vv)}})
=============================================================================
