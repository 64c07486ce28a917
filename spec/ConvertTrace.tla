---------------------------- MODULE ConvertTrace ----------------------------
(* Binds Convert to recorded runs: fields are loaded, converted any number of times and dumped in lattice order.
   m, v and m2 are what the buffers must hold; angle tells that the field may come back with whole turns added,
   turns holds how many were added at each site once m has been seen. *)
EXTENDS Convert, TraceBase
VARIABLES m, v, m2, ct, p, geo, ft, angle, turns, tol, mends
vars == <<m, v, m2, ct, p, geo, ft, angle, turns, tol, mends, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ m = <<>> /\ v = <<>> /\ m2 = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ ft = 0
        /\ angle = FALSE /\ turns = <<>> /\ tol = R0 /\ mends = 0
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ ft' = Ev.ftype /\ ct' = Ev.z /\ m' = <<>> /\ v' = <<>> /\ m2' = <<>> /\ angle' = FALSE /\ turns' = <<>> /\ tol' = R0 /\ mends' = 0
TSetZ == /\ Is("SetZ") /\ Step /\ ct' = Ev.z /\ UNCHANGED <<m, v, m2, p, geo, ft, angle, turns, tol, mends>>
TSetField == /\ Is("SetField") /\ Step /\ ft' = Ev.ftype /\ UNCHANGED <<m, v, m2, ct, p, geo, angle, turns, tol, mends>>
TLoad == /\ Is("Load") /\ Step /\ LET f == RFile(Ev.file) IN
            CASE Ev.w \in {"m", "mr"} -> m' = f /\ UNCHANGED <<v, m2>>
              [] Ev.w \in {"v", "vr"} -> v' = f /\ UNCHANGED <<m, m2>>
              [] Ev.w = "m2"          -> m2' = f /\ UNCHANGED <<m, v>>
         /\ UNCHANGED <<ct, p, geo, ft, angle, turns, tol, mends>>
TFold == Is("Fold") /\ Step /\ UNCHANGED <<m, v, m2, ct, p, geo, ft, angle, turns, tol, mends>>
Turn == TwoPi (.) ScaleFactor(p, ct)
(* what each operation makes of the field; want is <<type, m, v, may add turns>> *)
Want(op) ==
  CASE op = "cmplx2theta" -> <<IF Ev.mod THEN 130 ELSE 2, ThetaM(p, ct, m, Ev.x), ThetaV(p, ct, m, v, Ev.x), TRUE>>
    [] op = "mend"        -> <<ft, m, v, TRUE>>
    [] op = "theta2cmplx" -> LET th == Evens(m) IN <<1, FromThetaM(p, ct, th), FromThetaV(p, ct, th, Evens(v)), FALSE>>
    [] op = "ctheta2cmplx"-> LET th == Angles(p, ct, m) IN <<1, FromThetaM(p, ct, th), FromThetaV(p, ct, th, Rates(p, ct, m, v)), FALSE>>
    [] op = "naxion"      -> <<512, NaxionM(p, ct, m, v), <<>>, FALSE>>
    [] op = "paxion"      -> <<1024, PaxionM(p, ct, m), PaxionV(p, ct, m, v), FALSE>>
    [] op = "norm"        -> <<ft, Unit(m), v, FALSE>>
    [] op = "core"        -> <<ft, Core(p, ct, geo, m), v, FALSE>>
    [] op = "scale"       -> <<ft, IF Ev.w = "m" THEN Scaled(m, Ev.x) ELSE m, IF Ev.w = "v" THEN Scaled(v, Ev.x) ELSE v, FALSE>>
TConv == /\ Is("Conv") /\ Step
         /\ LET w == Want(Ev.op) IN
            /\ ft' = w[1] /\ m' = w[2] /\ v' = w[3] /\ angle' = w[4]
            /\ Chk("type-afterwards", Ev.ftype = w[1], Ev.ftype)
         /\ m2' = IF Ev.op = "scale" /\ Ev.w = "m2" THEN Scaled(m2, Ev.x) ELSE IF Ev.op = "scale" THEN m2 ELSE <<>>
         /\ tol' = Eps /\ turns' = <<>> /\ mends' = Ev.ret
         /\ Chk("time", Ev.z = ct, RStr(Ev.z))
         /\ (Ev.op \in {"cmplx2theta"} => Chk("memory-layout-as-the-angle-needs", ~Ev.lowmem, 0))
         /\ UNCHANGED <<ct, p, geo>>
Top(f) == RMax(RMaxAbs(f), RLit("1e-30"))
(* the angle and its velocity come back with the same whole number of turns added at a site *)
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<ct, p, geo, ft, mends>>
         /\ \E d \in {RFile(Ev.file)} : \E T \in {Turn} :
            CASE Ev.w = "m" /\ angle ->
                   \E n \in {[i \in 1..Len(m) |-> RRint((d[i] (-) m[i]) (/) T)]} :
                   /\ Chk("angle-size", Len(d) = Len(m), Len(d))
                   /\ ChkAll("angle", TLCEval([i \in 1..Len(m) |-> m[i] (+) (T (.) RInt(n[i]))]), d, tol (.) RMax(Top(d), T))
                   /\ (ft = 130 => Chk("no-turns-in-the-modulo-variant", \A i \in 1..Len(n) : n[i] \in {0} \/ RLt(T (.) RLit("0.4999"), RAbs(m[i])), 0))
                   /\ (ft = 2 /\ Unwrappable(geo, m, T) => Chk("unwrapped", Smooth(geo, d, T), 0))
                   /\ Chk("mend-count", (mends = 0) = (\A i \in 1..Len(n) : n[i] = 0) \/ mends < 0, mends)
                   /\ m' = d /\ turns' = n /\ angle' = TRUE /\ UNCHANGED <<v, m2, tol>>
              [] Ev.w = "m" /\ ~angle -> /\ ChkAll("field", m, d, tol (.) Top(m)) /\ m' = d /\ UNCHANGED <<v, m2, angle, turns, tol>>
              [] Ev.w = "v" /\ angle ->
                   /\ ChkAll("velocity", LET h == TLCEval(T (.) Hubble(p, ct)) IN [i \in 1..Len(v) |-> v[i] (+) (h (.) RInt(turns[i]))], d, tol (.) RMax(Top(d), T))
                   /\ v' = d /\ UNCHANGED <<m, m2, angle, turns, tol>>
              [] Ev.w = "v" /\ ~angle -> /\ ChkAll("velocity", v, d, tol (.) Top(v)) /\ v' = d /\ UNCHANGED <<m, m2, angle, turns, tol>>
              [] Ev.w = "m2" -> /\ ChkAll("auxiliary", m2, d, tol (.) Top(m2)) /\ m2' = d /\ UNCHANGED <<m, v, angle, turns, tol>>
TEnd == Accepted /\ Step /\ UNCHANGED <<m, v, m2, ct, p, geo, ft, angle, turns, tol, mends>>
Next == TNew \/ TSetField \/ TSetZ \/ TLoad \/ TFold \/ TConv \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
