----------------------------- MODULE StringsMC -----------------------------
(* Every assignment of a few phases to a small periodic lattice: strings are closed, none leaves the box, opposite
   orientations balance, and turning all phases by the same angle moves walls but never strings. *)
EXTENDS Strings
CONSTANTS Lz, K
G == [nx |-> 2, lz |-> Lz, nr |-> 1, ng |-> 1]
VARIABLE f
Angle(q) == ((RInt(2) (.) Pi) (.) (RInt(2*q + 1) (/) RInt(2*K))) (-) Pi
Fld(h, sft) == LET a == [i \in 1..Sites(G) |-> Angle(h[i]) (+) RLit(sft)]
          IN TLCEval([j \in 1..(2*Sites(G)) |-> IF j % 2 = 1 THEN RCos(a[(j+1) \div 2]) ELSE RSin(a[j \div 2])])
Init == f \in [1..Sites(G) -> 0..(K-1)]
Next == UNCHANGED f
Map0 == DefectMap(G, Fld(f, "0"))
Closed == \E mp \in {Map0} : NoEnds(G, mp) /\ Periodic(G, mp) /\ ChiralIn(mp, 1, Len(mp)) = 0
Turned == \E a \in {Map0} : \E b \in {DefectMap(G, Fld(f, "0.7"))} : \A i \in 1..Len(a) : a[i] % 64 = b[i] % 64
Spec == Init /\ [][Next]_f
=============================================================================
