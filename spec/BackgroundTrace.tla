--------------------------- MODULE BackgroundTrace ---------------------------
(* Binds Background to recorded runs: every background function at given times, the step the library chooses, the
   advance of the time by such steps, and the start of a run derived from the command line. *)
EXTENDS Background, TraceBase
VARIABLES p, nx, ft, ct
vars == <<p, nx, ft, ct, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ p = <<>> /\ nx = 0 /\ ft = 0 /\ ct = R0
Tol == RLit("1e-12")
Rel(lab, want, got) == ChkRel(lab, want, got, Tol)
Abs(lab, want, got, t) == ChkNear(lab, want, got, RLit(t))
Plain == RLe(p.grav, R0)                            \* otherwise the expansion includes matter and is no power law
Sask(t) == VacuumShift(p, t)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ nx' = Ev.Lx /\ ft' = Ev.ftype /\ ct' = Ev.z
        /\ Rel("scale-factor", ScaleFactor(p', Ev.z), Ev.R)
TSetField == /\ Is("SetField") /\ Step /\ ft' = Ev.ftype /\ UNCHANGED <<p, nx, ct>>
TSetZ == /\ Is("SetZ") /\ Step /\ ct' = Ev.z /\ UNCHANGED <<p, nx, ft>> /\ Rel("scale-factor", ScaleFactor(p, Ev.z), Ev.R)
TBg == LET t == Ev.z IN
       /\ Is("Background") /\ Step /\ UNCHANGED <<p, nx, ft>> /\ ct' = Ev.z
       /\ Rel("scale-factor", ScaleFactor(p, t), Ev.R) /\ Rel("scale-factor-at", ScaleFactor(p, t), Ev.cR) /\ Rel("scale-factor-from", ScaleFactor(p, t), Ev.fRct)
       /\ Rel("axion-mass2", AxionM2(p, t), Ev.am2) /\ Rel("axion-mass2-now", AxionM2(p, t), Ev.fam2) /\ Rel("axion-mass2-at", AxionM2(p, t), Ev.fam2z)
       /\ Rel("axion-mass-now", RSqrt(AxionM2(p, t)), Ev.fam) /\ Rel("axion-mass-at", RSqrt(AxionM2(p, t)), Ev.famz)
       /\ Rel("saxion-mass2", SaxionM2(p, t), Ev.sm2) /\ Rel("saxion-mass2-now", SaxionM2(p, t), Ev.fsm2) /\ Rel("saxion-mass2-at", SaxionM2(p, t), Ev.fsm2z)
       /\ Rel("lambda", LambdaOf(p, t), Ev.lp) /\ Rel("lambda-now", LambdaOf(p, t), Ev.flp)
       /\ (Plain => /\ Rel("expansion", Hubble(p, t), Ev.cRp) /\ Rel("acceleration", RppOf(p, t), Ev.cRpp) /\ Rel("acceleration-now", RppOf(p, t), Ev.fRpp)
                    /\ Rel("mass-growth", DAxionM2(p, t), Ev.dam2) /\ Rel("frequency-exponent", DlogMAR(p, t), Ev.dlog))
       /\ Rel("spacing", Delta(p, nx), Ev.delta) /\ Rel("core", MsaOf(p, t, nx), Ev.fmsa)
       /\ LET a == AxionM2(p, t) (/) LambdaOf(p, t)
              e == IF Bit(p.pot, PQ2) THEN RLit("1e-4") ELSE RLit("1e-12") (.) (R1 (+) Sq(a)) IN
          RLt(a, IF Bit(p.pot, PQ2) THEN R1 ELSE RInt(1000)) => ChkNear("vacuum-shift", Sask(t), Ev.fsask, e) /\ ChkNear("vacuum-shift-at", Sask(t), Ev.fsaskz, e)
       \* the shift of the radial vacuum for mass ratios that occur
       /\ LET a == AxionM2(p, t) (/) LambdaOf(p, t)  e == RLit("1e-12") (.) (R1 (+) Sq(a)) IN
          RLt(a, RInt(1000)) => ChkNear("root", ShiftOf(p, t), Ev.fshift, e) /\ ChkNear("root-at", ShiftOf(p, t), Ev.fshiftz, e)
       /\ Rel("step", StepOf(p, ft, nx, t, Ev.wdz), Ev.fdz) /\ Rel("step-at", StepOf(p, ft, nx, t, Ev.wdz), Ev.fdzz)
TSteps == /\ Is("Steps") /\ Step /\ UNCHANGED <<p, nx, ft>> /\ ct' = Ev.z       \* n steps of the chosen size, listed
          /\ LET T[n \in 0..Len(Ev.zs)] == IF n = 0 THEN ct ELSE Ev.zs[n] IN
             \A n \in 1..Len(Ev.zs) :
               /\ Rel("advance", T[n-1] (+) StepOf(p, ft, nx, T[n-1], Ev.wdz), Ev.zs[n])
               /\ Rel("scale-follows", ScaleFactor(p, Ev.zs[n]), Ev.rs[n])
(* ---- the command line ---------------------------------------------------------------------------------- *)
O == Case.opt                                       \* the options given, as strings; absent ones are ""
Given(o) == O[o] # ""
V(o) == RLit(O[o])
TParsed == /\ Is("Parsed") /\ Step /\ UNCHANGED <<p, nx, ft, ct>>
           /\ LET q == Ev  d == V("lsize") (/) V("size")
                  e == RInt(2) (+) (q.frw (.) (RInt(2) (-) q.lz2e))
                  M(t) == RSqrt(R2 (.) LambdaOf(q, t)) (.) ScaleFactor(q, t) (.) d IN
              /\ Rel("size", V("lsize"), q.L) /\ Chk("grid", RInt(q.sizeN) = V("size") /\ RInt(q.zgrid * q.sizeZ) = V("depthtot"), <<q.sizeN, q.sizeZ, q.zgrid>>)
              /\ (Given("ind3") => Rel("mass-amplitude", V("ind3"), q.indi3)) /\ Rel("mass-exponent", V("qcd"), q.nqcd)
              /\ Rel("final-time", V("zf"), q.zFinl) /\ Rel("step-factor", V("wDz"), q.wdz)
              /\ Rel("expansion-exponent", V("frw"), q.frw) /\ Rel("damping", V("gam"), q.gamma)
              /\ Chk("initial-time", q.zi = q.zInit, <<RStr(q.zi), RStr(q.zInit)>>)
              /\ (~Given("logi") => Rel("initial-time-given", V("zi"), q.zi))
              /\ (Given("llcf") /\ ~Given("msa") => Rel("lambda-given", V("llcf"), q.lambda))
              /\ (Given("msa") => Rel("core-size", V("msa"), IF RLe(q.lz2e, R2) THEN M(q.zFinl) ELSE M(q.zi)))
              \* the start: log of the saxion mass over the inverse horizon
              /\ Rel("log-start", R2 (.) q.lambda (.) RPow(q.zi, e), RExp(R2 (.) (IF Given("logi") THEN V("logi") ELSE IF Given("msa") THEN q.logi ELSE RLog(R2 (.) q.lambda (.) RPow(q.zi, e)) (/) R2)))
TEnd == Accepted /\ Step /\ UNCHANGED <<p, nx, ft, ct>>
Next == TNew \/ TSetField \/ TSetZ \/ TBg \/ TSteps \/ TParsed \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
