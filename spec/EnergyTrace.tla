---------------------------- MODULE EnergyTrace ----------------------------
(* Binds Energy to recorded runs: a field is loaded and its energy asked for, in total or only inside a mask, with or
   without the map of the energy density. *)
EXTENDS Energy, TraceBase
VARIABLES m, v, ms, ct, p, geo, ft
vars == <<m, v, ms, ct, p, geo, ft, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ m = <<>> /\ v = <<>> /\ ms = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ ft = 0
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ ft' = Ev.ftype /\ ct' = Ev.z /\ m' = <<>> /\ v' = <<>> /\ ms' = <<>>
TLoad == /\ (Is("Load") \/ Is("LoadStr")) /\ Step /\ UNCHANGED <<ct, p, geo, ft>>
         /\ CASE Is("LoadStr") -> ms' = IFile(Ev.file) /\ UNCHANGED <<m, v>>
              [] Ev.w = "m" -> m' = RFile(Ev.file) /\ UNCHANGED <<v, ms>>
              [] Ev.w = "v" -> v' = RFile(Ev.file) /\ UNCHANGED <<m, ms>>
TFold == (Is("Fold") \/ Is("Set")) /\ Step /\ UNCHANGED <<m, v, ms, ct, p, geo, ft>>
(* what is asked for: bits total 1, map 2, mask 4 *)
Asked(b) == (Ev.mask \div b) % 2 = 1
Whole == Asked(1)   Mapped == Asked(2)   Masked == Asked(4)
N == Sites(geo)
Inside(i) == ms[i] >= 128
Names == <<"gradient-x", "gradient-y", "gradient-z", "kinetic", "potential">>
(* the potential may be a sum of small differences: allow for the rounding of its largest terms *)
Slack(want, top) == (Eps (.) RAbs(want)) (+) (RLit(Case.abs) (.) top)
Complex(b, sh) ==
  \E E \in {TLCEval([s \in 1..N |-> TLCEval(SiteC(p, geo, b, m, v, sh, s - 1))])} :
  \E M \in {TLCEval([s \in 1..N |-> Modulus(b, m, s - 1, sh)])} :
    LET All(i) == TRUE
        Part(In(_), n, off, w) == \A c \in 1..5, q \in 1..2 :            \* q = 1 radial, 2 angular
           LET Of(i) == E[i][c][q]  want == SumOver(N, In, Of) (/) RInt(n)
               at == off + (IF q = 1 THEN 5 ELSE 0) + c
           IN ChkNear(<<w, IF q = 1 THEN "radial" ELSE "angular", Names[c]>>, want, Ev.res[at], Slack(want, b.top[q]))
        Mean(In(_), n) == LET Of(i) == M[i] IN SumOver(N, In, Of) (/) RInt(n)
        n == IF Masked THEN LET F[i \in 0..N] == IF i = 0 THEN 0 ELSE F[i-1] + (IF Inside(i) THEN 1 ELSE 0) IN F[N] ELSE 0
    IN /\ (Whole => Part(All, N, 0, "all") /\ ChkRel("modulus", Mean(All, N), Ev.res[11], Eps))
       /\ (Masked => /\ ChkNear("sites-in-the-mask", RInt(n), Ev.res[23], R0)
                     /\ Part(Inside, n, 11, "masked") /\ ChkRel("modulus-in-the-mask", Mean(Inside, n), Ev.res[22], Eps))
       /\ (Mapped => \A q \in 1..2 :
             LET Want(i) == E[i][1][q] (+) E[i][2][q] (+) E[i][3][q] (+) E[i][4][q] (+) E[i][5][q]
                 want == TLCEval([i \in 1..N |-> IF Ev.mask = 6 /\ ~Inside(i) THEN R0 ELSE Want(i)])
             IN ChkAll(<<"map", IF q = 1 THEN "radial" ELSE "angular">>, want, RFile(IF q = 1 THEN Ev.map2 ELSE Ev.map1), Slack(RMaxAbs(want), b.top[q])))
Plain5(b, At(_)) ==
  \E E \in {TLCEval([s \in 1..N |-> TLCEval(At(s - 1))])} :
    LET All(i) == TRUE IN
    /\ \A c \in 1..5 : LET Of(i) == E[i][c]  want == SumOver(N, All, Of) (/) RInt(N)
                       IN ChkNear(Names[c], want, Ev.res[c], Slack(want, b.top[2]))
    /\ (Mapped => IF ft = 1024
          THEN /\ LET want == TLCEval([i \in 1..N |-> E[i][4]]) IN ChkAll("number-map", want, RFile(Ev.map1), Eps (.) RMaxAbs(want))
               /\ LET want == TLCEval([i \in 1..N |-> E[i][1] (+) E[i][2] (+) E[i][3] (+) E[i][5]]) IN ChkAll("energy-map", want, RFile(Ev.map2), Eps (.) RMaxAbs(want))
          ELSE LET want == TLCEval([i \in 1..N |-> Total5(E[i])]) IN ChkAll("map", want, RFile(Ev.map1), Slack(RMaxAbs(want), b.top[2])))
TEnergy ==
  /\ Is("Energy") /\ Step /\ UNCHANGED <<m, v, ms, ct, p, geo, ft>>
  /\ Chk("same-on-every-rank", Ev.same, 0)
  /\ Chk("auxiliary-field-kept-without-a-map", Mapped \/ Ev.kept, 0)
  /\ Chk("status-of-the-auxiliary-field", Mapped => Ev.m2st = 0, Ev.m2st)
  /\ \E b \in {Epoch(p, geo, ct) @@ [top |-> <<LambdaOf(p, ct) (/) RInt(4), AxionM2(p, ct)>>]} :
       LET A(s) == SiteA(geo, b, m, v, ft = 130, s)  P(s) == SiteP(geo, b, m, v, s) IN
       CASE ft = 1 -> Complex(b, Ev.vac)
         [] ft \in {2, 130} -> Plain5(b, A)
         [] ft = 1024 -> Plain5(b, P)
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<m, v, ms, ct, p, geo, ft>>
         /\ \E d \in {RFile(Ev.file)} : IF Ev.w = "m" THEN ChkAll("field-kept", m, d, R0) ELSE ChkAll("velocity-kept", v, d, R0)
TEnd == Accepted /\ Step /\ UNCHANGED <<m, v, ms, ct, p, geo, ft>>
Next == TNew \/ TLoad \/ TFold \/ TEnergy \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
