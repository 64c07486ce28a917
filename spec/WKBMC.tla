------------------------------- MODULE WKBMC -------------------------------
(* The continuation: composes over time, keeps the Wronskian of every mode, is the free wave without mass, and follows the
   equation of motion M'' + w(t)^2 M = 0 as closely as the slowness of w allows. *)
EXTENDS WKB
VARIABLES law, mode, span
G == [nx |-> 4, lz |-> 4, nr |-> 1, ng |-> 1]
P(q) == [frw |-> R1, L |-> RLit("5"), indi3 |-> RLit(q[1]), nqcd |-> RLit(q[2]), nqcdr |-> R0, zthres |-> RLit(q[3]), zrestore |-> RLit("1000000"), grav |-> R0]
Laws == {<<"3", "0", "100">>, <<"0.7", "7", "100">>, <<"0.7", "7", "1.6">>, <<"2", "2", "1.1">>, <<"0", "7", "100">>, <<"0.8", "3.3", "2">>}
Spans == {<<"1.2", "1.5", "2">>, <<"1.3", "1.35", "1.7">>, <<"2", "3", "4">>}
Init == law = <<>> /\ mode = -1 /\ span = <<>>
Next == mode = -1 /\ law' \in Laws /\ span' \in Spans /\ mode' \in {0, 1, 2, 3, 5, 12}
Spec == Init /\ [][Next]_<<law, mode, span>>
T(i) == RLit(span[i])
Given(p, n, t1, t2) == Entry(p, n, t1, t2, Nodes(p, t1, t2))
Moving == mode >= 0 /\ ~(mode = 0 /\ law[1] = "0")
Eq(a, b, e) == RNear(a, b, e)
Composes == Moving => \E p \in {P(law)} : \E a \in {Given(p, mode, T(1), T(2))}, b \in {Given(p, mode, T(2), T(3))}, c \in {Given(p, mode, T(1), T(3))} :
  \A x \in {<<R1, R0>>, <<R0, R1>>, <<RLit("0.3"), RLit("-2")>>} :
    \E y \in {<<MapM(a, x[1], x[2]), MapD(a, x[1], x[2])>>} :
      /\ Eq(MapM(b, y[1], y[2]), MapM(c, x[1], x[2]), RLit("1e-8"))
      /\ Eq(MapD(b, y[1], y[2]), MapD(c, x[1], x[2]), RLit("1e-7"))
Wronskian == Moving => \E p \in {P(law)} : \E c \in {Given(p, mode, T(1), T(3))} :
  Eq((MapM(c, R1, R0) (.) MapD(c, R0, R1)) (-) (MapM(c, R0, R1) (.) MapD(c, R1, R0)), R1, RLit("1e-10"))
FreeWave == (Moving /\ law[1] = "0") => \E p \in {P(law)} : \E c \in {Given(p, mode, T(1), T(3))} :
  LET w == RSqrt(WK2(p, mode))  h == T(3) (-) T(1) IN
  Eq(MapM(c, R1, R1), RCos(w (.) h) (+) (RSin(w (.) h) (/) w), RLit("1e-10")) /\ Eq(MapD(c, R1, R1), RCos(w (.) h) (-) (w (.) RSin(w (.) h)), RLit("1e-10"))
(* the equation of motion, by a fourth-order scheme *)
Steps == 200
OneStep(p, n, t, h, y) ==
  LET W2(u) == RNeg(WK2(p, n) (+) Mc2(p, u))  hh == Half (.) h  x == y[1]  u == y[2] IN
  Only({<< x (+) (h (.) u) (+) (((h (.) h) (/) RInt(6)) (.) (k1 (+) (R2 (.) k2))),
           u (+) ((h (/) RInt(6)) (.) (k1 (+) (RInt(4) (.) k2) (+) (w3 (.) (x (+) (h (.) u) (+) (Half (.) h (.) h (.) k2)))))>> :
        k1 \in {W2(t) (.) x}, k2 \in {W2(t (+) hh) (.) (x (+) (hh (.) u) (+) ((h (.) h (.) (W2(t) (.) x)) (/) RInt(8)))}, w3 \in {W2(t (+) h)}})
RECURSIVE March(_, _, _, _, _, _)
March(p, n, t1, h, i, y) == IF i = Steps THEN y ELSE Only({March(p, n, t1, h, i + 1, z) : z \in {OneStep(p, n, t1 (+) (RInt(i) (.) h), h, y)}})
Solved(p, n, t1, t2, x0, u0) == Only({March(p, n, t1, h, 0, y) : h \in {(t2 (-) t1) (/) RInt(Steps)}, y \in {<<x0, u0>>}})
Kink(p) == RLt(T(1), p.zthres) /\ RLt(p.zthres, T(3))
(* next order of the phase: the integral of 3 w'^2/(8 w^3) - w''/(4 w^2) *)
Bend(p, n, t1, t2) == LET q == SlopeAfter(p, t1)  d == Nodes(p, t1, t2) IN
  RSum(TLCEval([i \in 1..Len(d) |->
     LET t == d[i][1]  M == d[i][3]  w == RSqrt(WK2(p, n) (+) M)  M1 == (q (.) M) (/) t  M2 == (M1 (.) (q (-) R1)) (/) t
         w1 == M1 (/) (R2 (.) w)  w2 == (M2 (/) (R2 (.) w)) (-) (Sq(M1) (/) (RInt(4) (.) Sq(w) (.) w))
     IN d[i][2] (.) (((RLit("0.375") (.) Sq(w1)) (/) (w (.) w (.) w)) (-) (w2 (/) (RInt(4) (.) Sq(w))))]))
Bent(c, b) == [c EXCEPT !.c = RCos(c.ph (+) b), !.s = RSin(c.ph (+) b)]
Fast == <<RLit("0.12"), RLit("0.2")>>
Follows == (Moving /\ ~Kink(P(law))) => \E p \in {P(law)} : \E a \in {Given(p, mode, T(1), T(3))} : \E c \in {Bent(a, Bend(p, mode, T(1), T(3)))} :
  RLt(Fast[1], RMax(RAbs(c.z1), RAbs(c.z2))) \/ RLt(RLit("0.12"), (c.w2 (.) (T(3) (-) T(1))) (/) RInt(Steps)) \/   \* too quick for WKB, or for the scheme
  \E y \in {Solved(p, mode, T(1), T(3), R1, c.w1)} :
    LET q == R1 (/) (c.w1 (.) T(1))
        t == (Fast[2] (.) RSqrt(c.w1 (/) c.w2) (.) Sq(SlopeAfter(p, T(1)) (.) q)) (+) RLit("1e-6")
    IN Eq(MapM(c, R1, c.w1), y[1], t) /\ Eq(MapD(c, R1, c.w1) (/) c.w2, y[2] (/) c.w2, t)
=============================================================================
