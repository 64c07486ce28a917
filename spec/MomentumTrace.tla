---------------------------- MODULE MomentumTrace ----------------------------
(* Binds Momentum to recorded runs: transforms there and back in any order, steps of the spectral integrators, analyses
   and files in between. *)
EXTENDS Momentum, TraceBase
VARIABLE tol                                 \* how far field and velocity may be from the prediction
vars == <<state, qm, qv, tol, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ qm = FALSE /\ qv = FALSE
        /\ m = <<>> /\ v = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ nb = <<>> /\ pot = 0 /\ ft = 0 /\ tol = <<R0, R0>>
Where == Chk("field-lies", Ev.mmom = qm', Ev.mmom) /\ Chk("velocity-lies", Ev.vmom = qv', Ev.vmom)
TNew == /\ Is("New") /\ Step
        /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ nb' = <<>> /\ ft' = Ev.ftype /\ ct' = Ev.z /\ pot' = Ev.cosmos.pot
        /\ m' = <<>> /\ v' = <<>> /\ tol' = <<R0, R0>> /\ qm' = FALSE /\ qv' = FALSE
TLoad == /\ Is("Load") /\ Step /\ UNCHANGED <<ct, p, geo, nb, pot, ft, tol, qm, qv>>
         /\ LET f == RFile(Ev.file) IN IF Ev.w = "m" THEN m' = f /\ UNCHANGED v ELSE v' = f /\ UNCHANGED m
TInit == Is("InitProp") /\ Step /\ pot' = Ev.pot + 1048576 /\ UNCHANGED <<m, v, ct, p, geo, nb, ft, tol, qm, qv>>
TFold == Is("Fold") /\ Step /\ UNCHANGED <<state, tol, qm, qv>>
Eps == RLit(Case.eps)
(* every transform may add rounding; modes of a flat field are as large as the field *)
Loss(f) == Eps (.) RMaxAbs(f)
Content(f, q) == IF q THEN Stored(f) ELSE f
TTransform ==
  /\ Is("Transform") /\ Step /\ UNCHANGED state
  /\ (IF Ev.dir = "fwd" THEN Forward(Ev.w) ELSE Backward(Ev.w)) /\ Where
  /\ tol' = <<tol[1] (+) Loss(m), tol[2] (+) Loss(v)>>
  /\ ~Ev.folded => /\ ChkAll("field", Content(m, qm'), RFile(Ev.m), tol'[1])
                        /\ ChkAll("velocity", Content(v, qv'), RFile(Ev.v), tol'[2])
Kind == CASE Case.kind = "spectral" -> "spectral" [] OTHER -> "fourier"
TProp == /\ Is("Propagate") /\ Step
         /\ SEvolve(Kind, Ev.dz, Ev.n)
         /\ IF Kind = "fourier" THEN qm' = TRUE /\ qv' = TRUE ELSE UNCHANGED <<qm, qv>>
         /\ Where
         /\ \E e \in {Eps (.) RInt(Ev.n)} : tol' = <<tol[1] (+) (RAbs(Ev.dz) (.) tol[2]) (+) (e (.) MScale8(Ev.dz)), tol[2] (+) (e (.) Scale8(Ev.dz))>>
         /\ ChkRel("time", ct (+) (Ev.dz (.) RInt(Ev.n)), Ev.z, RLit("1e-13"))
         /\ ChkRel("scale-factor", ScaleFactor(p, Ev.z), Ev.R, RLit("1e-13"))
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<ct, p, geo, nb, pot, ft, qm, qv>>
         /\ Chk("in-position-space", ~qm /\ ~qv, <<qm, qv>>)
         /\ LET d == RFile(Ev.file) IN
            CASE Ev.w = "m" -> ChkAll("field", m, d, tol[1]) /\ m' = d /\ tol' = <<R0, tol[2]>> /\ UNCHANGED v
              [] Ev.w = "v" -> ChkAll("velocity", v, d, tol[2]) /\ v' = d /\ tol' = <<tol[1], R0>> /\ UNCHANGED m
(* whoever reads the lattice finds it in position space *)
TStrings == /\ Is("Strings") /\ Step /\ ToPosition /\ Where /\ UNCHANGED state /\ tol' = <<tol[1] (+) Loss(m), tol[2] (+) Loss(v)>>
            /\ ("strings" \in DOMAIN Case => Chk("strings", Ev.den = Case.strings /\ Ev.wall = Case.walls, <<Ev.den, Ev.wall>>))
TWrite == /\ Is("WriteConf") /\ Step /\ ToPosition /\ Where /\ UNCHANGED state /\ tol' = <<tol[1] (+) Loss(m), tol[2] (+) Loss(v)>>
TData == /\ Is("H5Data") /\ Step /\ UNCHANGED <<state, tol, qm, qv>> /\ Chk("file", Ev.ok, Ev.name)
         /\ IF Ev.w = "/m" THEN ChkAll("written field", m, RFile(Ev.file), tol[1]) ELSE ChkAll("written velocity", v, RFile(Ev.file), tol[2])
TEnd == Accepted /\ Step /\ UNCHANGED <<state, tol, qm, qv>>
Next == TNew \/ TLoad \/ TInit \/ TFold \/ TTransform \/ TProp \/ TDump \/ TStrings \/ TWrite \/ TData \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
