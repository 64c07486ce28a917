------------------------------- MODULE PreMC -------------------------------
(* Every pre-evolution of a small lattice, from its start to its end. *)
EXTENDS Pre
VARIABLE done
Run0 == [frw |-> R1, grav |-> R0, indi3 |-> RLit("0.7"), nqcd |-> R2, nqcdr |-> R0, zthres |-> RInt(100), zrestore |-> RInt(1000), lambda |-> RLit("1.3"), lz2e |-> R2,
         L |-> RInt(4), pot |-> 1026, gamma |-> RLit("0.25"), dectime |-> RInt(-1)]
G0 == [nx |-> 4, lz |-> 2, nr |-> 1, ng |-> 1]
Us == [kind : {3, 7}, n : {0, 1}, alpha : {Half}, cored : BOOLEAN, coe : {RLit("1.1"), RLit("1.5")}, e : {R0, R2, RInt(4)}, gam : {R0, RInt(2)}, pot : {1026, 1026 + 8192, 1026 + 32768},
       zi : {RLit("1.25")}, given : {[kmax |-> 1, kcr |-> Half, mode0 |-> R1, wave |-> <<R1, R0, R0>>]}]
Init == /\ m = <<>> /\ v = <<>> /\ ct = RLit("1.25") /\ p = Run0 /\ geo = G0 /\ nb = Neighbours(G0) /\ pot = 1026 /\ ft = 1 /\ plan = <<>> /\ done = FALSE
Next == \/ m = <<>> /\ (\E u \in Us : Begin(u)) /\ UNCHANGED done
        \/ Relax(RLit("0.8")) /\ UNCHANGED done
        \/ Done /\ done' = TRUE
Spec == Init /\ [][Next]_<<state, plan, done>> /\ WF_<<state, plan, done>>(Next)
Near(a, b) == RLe(RAbs(a (-) b), RLit("1e-12"))
Restored == plan = <<>> => p = Run0 /\ pot = 1026 /\ Near(ct, RLit("1.25"))
Meanwhile == plan # <<>> => RLe(ct, plan.zi (+) RLit("1e-12")) /\ Near(LambdaOf(p, plan.zi), LambdaOf(plan.was, plan.zi))
Sound == \A i \in 1..Len(m) : RFinite(m[i]) /\ RFinite(v[i])
Forward == [][plan # <<>> /\ plan' # <<>> => RLt(ct, ct')]_<<state, plan, done>>
Ends == <>done
=============================================================================
