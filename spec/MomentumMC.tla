----------------------------- MODULE MomentumMC -----------------------------
(* The transform loses nothing (there and back, energy of the modes), the exact Laplacian of a plane wave is minus its wave
   number squared, and the free wave keeps the energy of every mode, runs backwards and obeys the wave equation. *)
EXTENDS Momentum
VARIABLE i
Val(s, a) == RSin(RInt(7*s*s + 3*a*s + 11*i + a))
P == [frw |-> R1, grav |-> RInt(-1), pot |-> 1026, lambda |-> R1, lz2e |-> R0, L |-> RLit("3.7"), indi3 |-> R0, nqcd |-> R0,
      nqcdr |-> R0, zthres |-> RInt(100), zrestore |-> RInt(1000), gamma |-> R0, dectime |-> RInt(-1), beta |-> R0]
Init == /\ i \in 0..3 /\ pot = 1026 /\ ct = R1 /\ p = P /\ ft \in {1, 2} /\ qm = FALSE /\ qv = FALSE /\ nb = <<>>
        /\ geo \in {[nx |-> 4, lz |-> 2, nr |-> 1, ng |-> 1], [nx |-> 4, lz |-> 3, nr |-> 1, ng |-> 1], [nx |-> 6, lz |-> 4, nr |-> 1, ng |-> 1]}
        /\ m = [s \in 1..(IF ft = 1 THEN 2 ELSE 1)*Sites(geo) |-> Val(s, 1)]
        /\ v = [s \in 1..(IF ft = 1 THEN 2 ELSE 1)*Sites(geo) |-> Val(s, 2)]
Next == \E w \in {"m", "v", "mv"} : (Forward(w) \/ Backward(w) \/ ToPosition) /\ UNCHANGED <<state, i>>
Spec == Init /\ [][Next]_<<state, qm, qv, i>>
Tiny == RLit("1e-11")
AllNear(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RNear(a[j], b[j], Tiny)
SumSq(f) == RSum(TLCEval([j \in 1..Len(f) |-> Sq(f[j])]))
First == ~qm /\ ~qv
ThereAndBack == First => AllNear(m, Bck(Fwd(m)))
Parseval == First => RNear(SumSq(m), RInt(N) (.) SumSq(Fwd(m)), Tiny (.) RInt(N))
Wave(s, j, q) == LET a == (R2 (.) Pi) (.) (((RInt(XofS(geo, s)*q[1] + YofS(geo, s)*q[2])) (/) RInt(geo.nx)) (+) (RInt(ZofS(geo, s)*q[3]) (/) RInt(TotZ(geo))))
                 IN IF j = 1 THEN RCos(a) ELSE RSin(a)
Plane == First /\ ft = 1 => \A q \in (0..2) \X (-1..1) \X (0..1) :
  LET f == TLCEval([j \in 1..2*N |-> Wave((j - 1) \div 2, 2 - (j % 2), q)])
      w == LET z == Wv(q[3], TotZ(geo)) IN q[1]*q[1] + q[2]*q[2] + z*z
      k2 == Sq(K0) (.) RInt(w)
      g == Lap8(f)
  IN \A j \in 1..2*N : RNear(g[j], RNeg(k2 (.) f[j]), RLit("1e-9"))
ModeE(a, b) == LET F == Fwd(a)  G == Fwd(b) IN TLCEval([j \in 1..N |-> (Sq(G[2*j-1]) (+) Sq(G[2*j])) (+) ((Sq(K0) (.) RInt(Wave2(j - 1))) (.) (Sq(F[2*j-1]) (+) Sq(F[2*j])))])
H == RLit("0.3")
FreeWave == First => \E d \in {FDrift(H, m, v)} :
  /\ AllNear(ModeE(m, v), ModeE(d[1], d[2]))
  /\ \E e \in {FDrift(RNeg(H), d[1], d[2])} : AllNear(e[1], m) /\ AllNear(e[2], v)
Slow == RLit("1e-4")
Equation == First => \E d \in {FDrift(Slow, m, v)} : \E a \in {Lap8(m)} :
  \A j \in 1..Len(m) : RNear(((d[2][j] (-) v[j]) (/) Slow), a[j], RLit("0.02")) /\ RNear(((d[1][j] (-) m[j]) (/) Slow), v[j], RLit("0.02"))
=============================================================================
