----------------------------- MODULE GravityTrace -----------------------------
(* Binds Gravity to recorded runs: the potential of a loaded field, and a field stepped under its own gravity. *)
EXTENDS EvolveTrace
En == INSTANCE Energy
(* the density the potential belongs to: |psi|^2, or the energy of an angle field over its mean *)
Density ==
  IF ft = 1024 THEN Gr!DensityOf(m, v)
  ELSE LET b == En!Epoch(p, geo, ct)
           e == TLCEval([i \in 1..Len(m) |-> RSum(En!SiteA(geo, b, m, v, FALSE, i - 1))])
           u == Gr!MeanOf(e)
       IN TLCEval([i \in 1..Len(e) |-> e[i] (/) u])
Times(f, w) == TLCEval([i \in 1..Len(f) |-> w (.) f[i]])
TGravity ==
  /\ Is("Gravity") /\ Step /\ UNCHANGED <<ct, geo, nb, pot, ft>>
  /\ IF Ev.op = "start"                     \* normalised to mean density one; the coupling scales along
       THEN \E u \in {Gr!MeanOf(Gr!DensityOf(m, v))} :
              /\ ChkRel("coupling", p.beta (.) u, Ev.beta, Eps (.) RInt(4))
              /\ p' = [beta |-> Ev.beta, heavy |-> TRUE] @@ p
              /\ m' = Times(m, R1 (/) RSqrt(u)) /\ v' = Times(v, R1 (/) RSqrt(u))
              /\ tol' = <<(Eps (.) RInt(8)) (.) RMaxAbs(m'), (Eps (.) RInt(8)) (.) RMaxAbs(v')>>
       ELSE /\ ChkRel("coupling", p.beta, Ev.beta, R0)
            /\ UNCHANGED <<m, v, p, tol>>
TPotential ==
  /\ Is("Potential") /\ Step /\ UNCHANGED <<state, tol>>
  /\ Chk("time-after-potential", Ev.z = ct, RStr(Ev.z))
  /\ \E r \in {Density} : \E phi \in {Gr!Poisson(p, geo, r)} :
       ChkAll("potential", phi, RFile(Ev.file), ((Eps (.) RInt(4)) (.) (R1 (+) RMaxAbs(r))) (/) Sq(Gr!GK0(p)))
(* a step under gravity; rounding of the potential counts by the phase it makes *)
Turn(dz) == IF Heavy THEN R1 (+) ((RSqrt(AxionM2(p, ct)) (.) RAbs(p.grav (.) dz)) (.) RMaxAbs(Gr!Poisson(p, geo, Gr!DensityOf(m, v)))) ELSE R1
TPull ==
  /\ Is("Propagate") /\ Step /\ Evolve(Ev.dz, Ev.n)
  /\ \E w \in {(Eps (.) RInt(Ev.n)) (.) Turn(Ev.dz)} : tol' = <<w (.) MScale(Ev.dz), w (.) VScale(Ev.dz)>>
  /\ ChkRel("time", ct (+) (Ev.dz (.) RInt(Ev.n)), Ev.z, RLit("1e-13"))
  /\ ChkRel("scale-factor", ScaleFactor(p, Ev.z), Ev.R, RLit("1e-13"))
GNext == TNew \/ TSetZ \/ TSetField \/ TLoad \/ TInit \/ TFold \/ TTune \/ TPull \/ TDump \/ TEnd \/ TGravity \/ TPotential
GSpec == Init /\ [][GNext]_vars
=============================================================================
