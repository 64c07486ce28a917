------------------------------ MODULE GravityMC ------------------------------
(* The potential solves Poisson's equation, has no mean, is linear, moves with its sources, attracts (it is lowest at a single
   mass), does not see a uniform density, and acts on itself with no net force. *)
EXTENDS Gravity
VARIABLES g, kind
P == [L |-> RLit("2.7")]
Src(s) == CASE kind = 0 -> RSin(RInt(7*s*s + 3*s + 1)) (+) R1
            [] kind = 1 -> IF s = 0 THEN R1 ELSE R0
            [] kind = 2 -> RCos((R2 (.) GPi (.) RInt(XofS(g, s) + (2 * ZofS(g, s)))) (/) RInt(g.nx))
            [] kind = 3 -> IF s % 5 = 1 THEN RLit("2.5") ELSE RLit("0.5")
            [] kind = 4 -> R2
Rho == TLCEval([s \in 1..Sites(g) |-> Src(s - 1)])
Init == kind = -1 /\ g \in {[nx |-> n, lz |-> n, nr |-> 1, ng |-> 1] : n \in {2, 3, 4, 6}} \cup {[nx |-> 4, lz |-> 2, nr |-> 2, ng |-> 1]}
Next == kind = -1 /\ kind' \in 0..4 /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, kind>>
Tiny == RLit("1e-10")
Same(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RNear(a[j], b[j], Tiny)
Ready == kind >= 0
Solves == Ready => \E r \in {Rho} : \E phi \in {Poisson(P, g, r)} : \E u \in {MeanOf(r)} :
            /\ Same(ExactLap(P, g, phi), [i \in 1..Len(r) |-> r[i] (-) u])
            /\ RNear(MeanOf(phi), R0, Tiny)
            /\ (kind = 4 => \A i \in 1..Len(phi) : RNear(phi[i], R0, Tiny))
            /\ (kind = 1 => \A i \in 2..Len(phi) : RLt(phi[1], phi[i]))
            /\ (kind = 2 /\ g.nx > 4 => Same(phi, [i \in 1..Len(r) |-> RNeg(r[i] (/) (Sq(GK0(P)) (.) RInt(5)))]))
Moves == Ready => \E r \in {Rho} : \E phi \in {Poisson(P, g, r)} :
           LET T(f) == TLCEval([i \in 1..Len(f) |-> LET s == i - 1 IN f[Site(g, (XofS(g, s) + 1) % g.nx, YofS(g, s), (ZofS(g, s) + 1) % TotZ(g)) + 1]])
           IN Same(Poisson(P, g, T(r)), T(phi)) /\ Same(Poisson(P, g, [i \in 1..Len(r) |-> R2 (.) r[i]]), [i \in 1..Len(r) |-> R2 (.) phi[i]])
(* no net pull of the density on itself: the mean of rho times the difference of phi along an axis vanishes *)
NoSelfForce == Ready => \E r \in {Rho} : \E phi \in {Poisson(P, g, r)} :
   RNear(RSum(TLCEval([i \in 1..Len(r) |-> LET s == i - 1
       a == Site(g, (XofS(g, s) + 1) % g.nx, YofS(g, s), ZofS(g, s))  b == Site(g, (XofS(g, s) + g.nx - 1) % g.nx, YofS(g, s), ZofS(g, s))
       IN r[i] (.) (phi[a + 1] (-) phi[b + 1])])), R0, Tiny (.) RInt(Sites(g)))
=============================================================================
