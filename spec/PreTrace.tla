------------------------------ MODULE PreTrace ------------------------------
(* Binds Pre to recorded runs: one recorded GenConf is a Begin, as many Relax as it takes, and a Done. *)
EXTENDS Pre, TraceBase
VARIABLE moved                                \* largest scales met on the way, and how many steps
vars == <<state, plan, moved, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ plan = <<>> /\ moved = <<R0, R0, 0>>
        /\ m = <<>> /\ v = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ nb = <<>> /\ pot = 0 /\ ft = 0
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ nb' = Neighbours(geo') /\ ft' = 1 /\ ct' = Ev.z /\ pot' = Ev.cosmos.pot /\ m' = <<>> /\ v' = <<>> /\ UNCHANGED <<plan, moved>>
TFold == Is("Fold") /\ Step /\ UNCHANGED <<state, plan, moved>>
Wave3 == <<RInt(Ev.kmax), R0, R0>>
Asked == [kind |-> Ev.smvar, n |-> Ev.siter, alpha |-> Ev.alpha, cored |-> Ev.normcore, coe |-> Ev.prepcoe, e |-> Ev.prelz2e, gam |-> Ev.pregam,
          pot |-> Ev.prevtype, zi |-> Ev.zi, given |-> [kmax |-> Ev.kmax, kcr |-> Ev.kcr, mode0 |-> Ev.mode0, wave |-> Wave3]]
Same(a, b) == ChkRel("restored-lambda", a.lambda, b.lambda, RLit("1e-14")) /\ ChkNear("restored-exponent", a.lz2e, b.lz2e, R0) /\ ChkNear("restored-friction", a.gamma, b.gamma, R0)
              /\ Chk("rest-of-the-background", \A q \in {"L", "indi3", "nqcd", "nqcdr", "zthres", "zrestore", "frw", "dectime", "pot"} : a[q] = b[q], 0)
TBegin == /\ Is("GenConf") /\ plan = <<>> /\ m = <<>> /\ UNCHANGED <<k, l>> /\ moved' = <<R0, R0, 0>>
          /\ IF Ev.ctype = 1 THEN Begin(Asked)
             ELSE plan' = [was |-> p, pot |-> pot, zi |-> Ev.zi] /\ m' = <<R0>> /\ ct' = Ev.zi /\ UNCHANGED <<v, p, geo, nb, pot, ft>>     \* random: only where it ends
TRelax == Is("GenConf") /\ Ev.ctype = 1 /\ Relax(Ev.wdz) /\ UNCHANGED <<k, l>> /\ \E h \in {RMin(StepOf(p, ft, geo.nx, ct, Ev.wdz), Left)} : moved' = <<RMax(moved[1], MScale(h)), RMax(moved[2], VScale(h)), moved[3] + 1>>
TDone == /\ Is("GenConf") /\ Done /\ Step /\ UNCHANGED moved
         /\ ChkRel("stops-at-zi", plan.zi, Ev.z, RLit("1e-12")) /\ ChkRel("scale-factor", ScaleFactor(plan.was, Ev.z), Ev.R, RLit("1e-12"))
         /\ Same(plan.was, Ev.cosmos)
Tol(i) == Eps (.) RInt(moved[3] + 1) (.) moved[i]
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<state, plan, moved>>
         /\ \E d \in {RFile(Ev.file)} :
              /\ Chk("finite", \A i \in 1..Len(d) : RFinite(d[i]), 0)
              /\ Len(m) > 1 => IF Ev.w = "m" THEN ChkAll("field", m, d, Tol(1)) ELSE ChkAll("velocity", v, d, Tol(2))
TEnd == Accepted /\ Step /\ UNCHANGED <<state, plan, moved>>
Next == TNew \/ TFold \/ TBegin \/ TRelax \/ TDone \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
