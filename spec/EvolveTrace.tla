----------------------------- MODULE EvolveTrace -----------------------------
(* Binds Evolve to recorded runs: the field is loaded, stepped any number of times and dumped in lattice order. *)
EXTENDS Evolve, TraceBase
VARIABLE tol                                 \* how far the next dumps may be from the prediction: <<m, v>>
vars == <<state, tol, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1
        /\ m = <<>> /\ v = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ nb = <<>> /\ pot = 0 /\ ft = 0 /\ tol = <<R0, R0>>
Comps(t) == IF t \in {1, 512} THEN 2 ELSE 1
TNew == /\ Is("New") /\ Step
        /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ nb' = Neighbours(geo') /\ ft' = Ev.ftype /\ ct' = Ev.z /\ pot' = Ev.cosmos.pot
        /\ m' = <<>> /\ v' = <<>> /\ tol' = <<R0, R0>>
TSetZ == /\ Is("SetZ") /\ Step /\ ct' = Ev.z /\ UNCHANGED <<m, v, p, geo, nb, pot, ft, tol>>
         /\ ChkRel("scale-factor", ScaleFactor(p, Ev.z), Ev.R, RLit("1e-13"))
TSetField == /\ Is("SetField") /\ Step /\ ft' = Ev.ftype /\ m' = <<>> /\ v' = <<>> /\ UNCHANGED <<ct, p, geo, nb, pot, tol>>
TLoad == /\ Is("Load") /\ Ev.w \in {"m", "v"} /\ Step /\ UNCHANGED <<ct, p, geo, nb, pot, ft, tol>>
         /\ LET f == RFile(Ev.file) IN CASE Ev.w = "m" -> m' = f /\ UNCHANGED v
                                         [] Ev.w = "v" -> v' = f /\ UNCHANGED m
TInit == Is("InitProp") /\ Step /\ pot' = Ev.pot /\ UNCHANGED <<m, v, ct, p, geo, nb, ft, tol>>
TFold == Is("Fold") /\ Step /\ UNCHANGED <<state, tol>>
TTune == /\ Is("Tune") /\ Step /\ UNCHANGED <<state, tol>>      \* tuning moves nothing
         /\ Chk("time-after-tune", Ev.z = ct, RStr(Ev.z))
Eps == IF "eps" \in DOMAIN Case THEN RLit(Case.eps) ELSE RLit("1e-12")
TProp == /\ Is("Propagate") /\ Step /\ Evolve(Ev.dz, Ev.n)
         /\ tol' = <<Eps (.) RInt(Ev.n) (.) MScale(Ev.dz), Eps (.) RInt(Ev.n) (.) VScale(Ev.dz)>>
         /\ ChkRel("time", ct (+) (Ev.dz (.) RInt(Ev.n)), Ev.z, RLit("1e-13"))
         /\ ChkRel("scale-factor", ScaleFactor(p, Ev.z), Ev.R, RLit("1e-13"))
(* an angle may come back a whole turn away, in the wrapped evolution only *)
AngleNear(want, got, t) ==
  LET tp == R2 (.) Pi (.) ScaleFactor(p, ct)
  IN /\ Chk("wrapped", RLe(RMaxAbs(got), (tp (/) R2) (.) RLit("1.000001")), RStr(RMaxAbs(got)))
     /\ ChkAll("angle", want, [i \in 1..Len(got) |-> IF RLt(tp (/) R2, RAbs(RSub(got[i], want[i]))) THEN got[i] (+) (tp (.) RInt(RRint((want[i] (-) got[i]) (/) tp))) ELSE got[i]], t)
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<ct, p, geo, nb, pot, ft>>
         /\ LET d == RFile(Ev.file) IN
            CASE Ev.w = "m" -> /\ (IF ft = 130 THEN AngleNear(m, d, tol[1]) ELSE ChkAll("field", m, d, tol[1]))
                               /\ m' = d /\ tol' = <<R0, tol[2]>> /\ UNCHANGED v
              [] Ev.w = "v" -> /\ ChkAll("velocity", v, d, tol[2])
                               /\ v' = d /\ tol' = <<tol[1], R0>> /\ UNCHANGED m
TEnd == Accepted /\ Step /\ UNCHANGED <<state, tol>>
Next == TNew \/ TSetZ \/ TSetField \/ TLoad \/ TInit \/ TFold \/ TTune \/ TProp \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
