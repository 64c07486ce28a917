----------------------------- MODULE EnergyMC -----------------------------
(* The energies belong to the dynamics: minus the derivative of the potential energy of Energy is the force that Evolve
   applies, radially and (on the vacuum circle) along the phase, for every potential; the angle field as well. *)
EXTENDS Evolve
E == INSTANCE Energy
VARIABLE i
Pots == {1025, 1026, 1028, 1032, 1056, 2049, 513}
Rs == {"0.7", "1", "2.3"}
N == 24
P(q) == [frw |-> R1, grav |-> RInt(-1), pot |-> q, lambda |-> RLit("0.8"), lz2e |-> RInt(2), L |-> R1, indi3 |-> RLit("0.9"), nqcd |-> RInt(2),
         nqcdr |-> RInt(2), zthres |-> RInt(100), zrestore |-> RInt(1000), gamma |-> R0, dectime |-> RInt(-1), beta |-> R0]
Init == /\ i \in 0..(N-1) /\ pot \in Pots /\ ct \in {RLit(s) : s \in Rs} /\ p = P(pot) /\ ft = 1
        /\ m = <<>> /\ v = <<>> /\ geo = [nx |-> 4, lz |-> 4, nr |-> 1, ng |-> 1] /\ nb = <<>>
Next == UNCHANGED <<state, i>>
Spec == Init /\ [][Next]_<<state, i>>
H == RLit("1e-5")
Slope(f(_), x) == (f(x (+) H) (-) f(x (-) H)) (/) (R2 (.) H)
Ep == E!Epoch(p, geo, ct)
R4 == Sq(Sq(Ep.R))
Angle == (RInt(2*i + 1) (.) Pi) (/) RInt(N)
Close(a, b) == RNear(a, b, RLit("1e-6") (.) (R1 (+) RAbs(a)))
(* conformal potential energy R^4 V of a complex field *)
Radial(x, y) == R4 (.) E!PotC(p, Ep, <<x, y>>, 0, R0)[1]
Angular(x, y) == R4 (.) E!PotC(p, Ep, <<x, y>>, 0, R0)[2]
ForceAt(x, y) == Accel([R |-> Ep.R, R2 |-> Sq(Ep.R), lam |-> Ep.lam, ma2 |-> Ep.ma2, rpp |-> R0, rp |-> Ep.H], x, y, R0, R0)
RadialForce == Bit(pot, 1024) =>
  \A s \in {"0.4", "0.9", "1.3"} : \E r \in {RLit(s) (.) Ep.R} : \E x \in {r (.) RCos(Angle)}, y \in {r (.) RSin(Angle)} :
    LET q == QcdForce([R |-> Ep.R, R2 |-> Sq(Ep.R), ma2 |-> Ep.ma2], x, y, Sq(r))
        f == ForceAt(x, y)
        V(rr) == Radial(rr (.) RCos(Angle), rr (.) RSin(Angle))
    IN Close((((f[1] (-) q[1]) (.) x) (+) ((f[2] (-) q[2]) (.) y)) (/) r, RNeg(Slope(V, r)))
(* the steeper and the softened hat agree with the standard one at the vacuum: no energy, no slope *)
Vacuum == \E x \in {Ep.R (.) RCos(Angle)}, y \in {Ep.R (.) RSin(Angle)} :
  LET V(rr) == Radial(rr (.) RCos(Angle), rr (.) RSin(Angle))
  IN Close(Radial(x, y), R0) /\ RNear(Slope(V, Ep.R), R0, RLit("1e-3")) /\ RLe(R0, Radial(RLit("1.2") (.) x, y))
Torque == QcdOf(pot) # 4 =>
  \E x \in {Ep.R (.) RCos(Angle)}, y \in {Ep.R (.) RSin(Angle)} :
    LET f == QcdForce([R |-> Ep.R, R2 |-> Sq(Ep.R), ma2 |-> Ep.ma2], x, y, Sq(Ep.R))
        V(t) == Angular(Ep.R (.) RCos(t), Ep.R (.) RSin(t))
    IN Close((x (.) f[2]) (-) (y (.) f[1]), RNeg(Slope(V, Angle)))
Never == \E x \in {Ep.R (.) RCos(Angle)}, y \in {Ep.R (.) RSin(Angle)} : RLe(RLit("-1e-12"), Angular(x, y))
=============================================================================
