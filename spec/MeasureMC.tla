----------------------------- MODULE MeasureMC -----------------------------
(* Every request of a family of them, carried out step by step on a field that may be folded or not: no step finds the
   auxiliary field in a state it cannot use, nothing is written twice, everything asked for is there. *)
EXTENDS Measure, TLC
VARIABLES q, ft, pc, m2, written, folded
vars == <<q, ft, pc, m2, written, folded>>
Sum(S) == LET F[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN x + F[T \ {x}] IN F[S]
Whats == {Sum(S) : S \in SUBSET {8, 64, 128, 512, 16384, 65536}} \cup {w + x : w \in {1024, 524288}, x \in {0, 8, 64, 512, 65536}} \cup {1 + 2 + 4 + 262144, 131072 + 7}
MapSets == {0, 5, 48, 65536, 1024, 2048, 3072, 5 + 3072, 65536 + 48 + 1024}
Lab(i) == "00" \o ToString(i)
P == Plan(q, ft, TRUE, 2, Lab)
Init == /\ \E w \in Whats, mp \in MapSets, ix \in {0, 3} : (ix = 0 => On(w, 65536)) /\ q = [what |-> w, maps |-> mp, mask |-> 1, nrt |-> 23, redmap |-> 4, slice |-> 0, index |-> ix]
        /\ ft \in {Saxion, Axion} /\ pc = 1 /\ m2 = "dirty" /\ written = {} /\ folded \in BOOLEAN
Do == /\ pc <= Len(P) /\ P[pc].needs \cap {m2} # {}
      /\ m2' = (IF P[pc].leaves = "same" THEN m2 ELSE P[pc].leaves)
      /\ written' = written \cup P[pc].out /\ pc' = pc + 1
      /\ folded' \in (IF P[pc].name \in {"energy", "strings", "spectra"} THEN {FALSE} ELSE {folded})
      /\ UNCHANGED <<q, ft>>
Next == Do
Spec == Init /\ [][Next]_vars
NeverStuck == pc <= Len(P) => m2 \in P[pc].needs
NothingTwice == \A i, j \in 1..Len(P) : i # j => P[i].out \cap P[j].out = {}
Complete == pc > Len(P) => written = Datasets(P)
(* by name: every analysis asked for is represented, whatever else was asked *)
Answers == pc > Len(P) =>
  /\ (On(q.what, 8) => "/bins/contB/data" \in written) /\ (On(q.what, 512) => "/energy/density/theta" \in written)
  /\ (On(q.what, 16384) => "/pSpectrum/sP/data" \in written) /\ (On(q.what, 1024) => "/energy/rdensity/theta" \in written)
  /\ (On(q.what, 64) /\ ft = Saxion => "/string/data" \in written) /\ (On(q.what, 128) /\ ft = Saxion => "/string/codata" \in written)
  /\ (On(q.what, 65536) => "/eSpectrum/sK_0/data" \in written) /\ (On(q.what, 262144) => "/nSpectrum/nmodes/data" \in written)
  /\ (SliceXY(q) => {"/map/m", "/map/v"} \subseteq written) /\ (On(q.maps, 65536) => "/map/E" \in written)
  /\ (Projected(q) => "/map/P" \in written) /\ (On(q.maps, 1024) /\ On(q.maps, 2048) => "/map/P2" \in written)
=============================================================================
