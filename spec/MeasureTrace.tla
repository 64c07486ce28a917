---------------------------- MODULE MeasureTrace ----------------------------
(* Binds Measure to recorded runs: measurements of a loaded field, each leaving a file whose every dataset and number is
   compared with what the configuration gives. *)
EXTENDS Measure, TraceBase, Lattice
B == INSTANCE Background
En == INSTANCE Energy
Sp == INSTANCE Spectra
Str == INSTANCE Strings
Ck == INSTANCE Checkpoint
Rd == INSTANCE Reduce
VARIABLES m, v, ct, p, geo, ft, q
vars == <<m, v, ct, p, geo, ft, q, k, l>>
R0 == RInt(0)  R1 == RInt(1)  R2 == RInt(2)  Half == RLit("0.5")
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ m = <<>> /\ v = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ ft = 0 /\ q = <<>>
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ ft' = Ev.ftype /\ ct' = Ev.z /\ m' = <<>> /\ v' = <<>> /\ q' = <<>>
TLoad == /\ Is("Load") /\ Step /\ UNCHANGED <<ct, p, geo, ft, q>>
         /\ IF Ev.w = "m" THEN m' = RFile(Ev.file) /\ UNCHANGED v ELSE v' = RFile(Ev.file) /\ UNCHANGED m
TFold == (Is("Fold") \/ Is("Set")) /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, q>>
TSetField == Is("SetField") /\ Step /\ ft' = Ev.ftype /\ UNCHANGED <<m, v, ct, p, geo, q>>
N == Sites(geo)
C == IF ft \in {Saxion, Naxion} THEN 2 ELSE 1
Massive == RLt(R0, B!AxionM2(p, ct))
Scales == LET y == (RInt(4) (.) RLog(RInt(geo.nx))) (/) RLog(R2) IN RFloor(y (+) RLit("1e-9"))
Lab3(i) == IF i < 10 THEN "00" \o ToString(i) ELSE IF i < 100 THEN "0" \o ToString(i) ELSE ToString(i)
Todo == Plan(q, ft, Massive, Scales, Lab3)
FileName(i) == "axion.m." \o (IF i < 10 THEN "0000" ELSE IF i < 100 THEN "000" ELSE "00") \o ToString(i)
(* ---- a measurement reports and leaves the field as it was ---------------------------------------------------- *)
TMeasure ==
  /\ Is("Measure") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft>> /\ q' = Ev
  /\ Chk("time-kept", Ev.z = ct, 0) /\ Chk("field-kept", Ev.ftype = ft /\ Ev.Lx = geo.nx /\ Ev.Lz = geo.lz, Ev.ftype)
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, q>>
         /\ \E d \in {RFile(Ev.file)} : IF Ev.w = "m" THEN ChkAll("field-kept", m, d, R0) ELSE ChkAll("velocity-kept", v, d, R0)
(* ---- the header ------------------------------------------------------------------------------------------- *)
At(x) == Ev.attrs[x]
Num(x, want) == Chk("number-missing", x \in DOMAIN Ev.attrs, x) /\ ChkRel(x, want, At(x), RLit("1e-12"))
Word(x, want) == Chk("word-missing", x \in DOMAIN Ev.attrs, x) /\ Chk(x, At(x) = want, <<At(x), want>>)
Header ==
  LET s == [ftype |-> ft, z |-> ct, Lx |-> geo.nx, Tz |-> TotZ(geo), prec |-> q.prec, ltype |-> q.ltype, c |-> p, g |-> q.glob]
      PN == Ck!PotNumbers(s)  W == Ck!Words(s)  K == Ck!Counts(s, q.index)
  IN /\ \A x \in DOMAIN PN : Num(x, PN[x])
     /\ \A x \in DOMAIN W : Word(x, W[x])
     /\ \A x \in DOMAIN K : Word(x, K[x])
     /\ Num("/z", ct) /\ Num("/R", B!ScaleFactor(p, ct)) /\ Num("/Physical size", p.L) /\ Num("/zInitial", q.glob.zInit) /\ Num("/zFinal", q.glob.zFinl)
     /\ Num("/Axion mass", RSqrt(B!AxionM2(p, ct))) /\ Num("/Saxion mass", RSqrt(B!SaxionM2(p, ct))) /\ Num("/msa", B!MsaOf(p, ct, geo.nx))
     /\ Num("/potential/LambdaP", B!LambdaOf(p, ct))
     /\ ChkNear("shift", B!VacuumShift(p, ct), At("/potential/Shift"), RLit("1e-9"))
(* ---- slices, maps, projections ------------------------------------------------------------------------------- *)
Get(d) == RFile(Ev.files[d])
SliceXYOf(f) == SubSeq(f, q.slice * Surf(geo) * C + 1, (q.slice + 1) * Surf(geo) * C)
SliceYZOf(f) == TLCEval([i \in 1..(TotZ(geo) * geo.nx * C) |-> LET e == i - 1  zy == e \div C
                           IN f[Site(geo, q.slice, zy % geo.nx, zy \div geo.nx) * C + (e % C) + 1]])
ProjectOf(e, F(_)) == TLCEval([i \in 1..Surf(geo) |-> RSum([z \in 1..TotZ(geo) |-> F(e[(z - 1) * Surf(geo) + i])]) (/) RInt(TotZ(geo))])
Same(x) == x
Slack(want, top) == (Eps (.) RAbs(want)) (+) (RLit(Case.abs) (.) top)
(* ---- histograms ------------------------------------------------------------------------------------------------ *)
NB == 3000
Clamp(i) == IF i < 0 THEN 0 ELSE IF i > NB - 1 THEN NB - 1 ELSE i
(* every site's value is known to lie between lo and hi *)
Hist(name, lo, hi) ==
  LET pre == "/bins/" \o name \o "/"  mx == At(pre \o "Maximum")  mn == At(pre \o "Minimum")  n == Len(lo)
      t == RLit("1e-12")
  IN /\ Chk("histogram-numbers-missing", {pre \o "Maximum", pre \o "Minimum", pre \o "Size"} \subseteq DOMAIN Ev.attrs, name)
     /\ Chk("number-of-bins", At(pre \o "Size") = NB, At(pre \o "Size"))
     /\ Chk(<<name, "largest">>, RLe(RMaxOf(lo) (-) t, mx) /\ RLe(mx, RMaxOf(hi) (+) t), <<RStr(RMaxOf(lo)), RStr(mx), RStr(RMaxOf(hi))>>)
     /\ Chk(<<name, "smallest">>, RLe(RMinOf(lo) (-) t, mn) /\ RLe(mn, RMinOf(hi) (+) t), <<RStr(RMinOf(lo)), RStr(mn), RStr(RMinOf(hi))>>)
     /\ \E got \in {Get(pre \o "data")} :
          /\ Chk("bins-written", Len(got) = NB, Len(got))
          /\ IF RLt(mx (-) mn, RLit("1e-10")) THEN Chk(<<name, "degenerate">>, \A i \in 1..NB : got[i] = mx, 0)
             ELSE \E step \in {(mx (-) mn) (/) RInt(NB - 1)} : \E base \in {mn (-) (Half (.) step)} :
                  \E one \in {TLCEval([i \in 1..n |-> R1])} :
                  \E few \in {RCumSum(RSumBy(TLCEval([i \in 1..n |-> Clamp(RFloor((hi[i] (-) base) (/) step))]), one, NB))} :
                  \E many \in {RCumSum(RSumBy(TLCEval([i \in 1..n |-> Clamp(RFloor((lo[i] (-) base) (/) step))]), one, NB))} :
                  \E cum \in {RCumSum(got)} :
                    LET w == RInt(n) (.) step  e == RLit("1e-6")
                        Bad == {i \in 1..NB : ~(RLe(few[i] (-) e, cum[i] (.) w) /\ RLe(cum[i] (.) w, many[i] (+) e))}
                    IN Chk(<<name, "counts">>, Bad = {}, IF Bad = {} THEN 0 ELSE LET i == CHOOSE i \in Bad : \A j \in Bad : i <= j
                                                                              IN <<i, RStr(few[i]), RStr(cum[i] (.) w), RStr(many[i])>>)
Around(x, t) == <<TLCEval([i \in 1..Len(x) |-> x[i] (-) t[i]]), TLCEval([i \in 1..Len(x) |-> x[i] (+) t[i]])>>
HistOf(name, x, t) == LET a == Around(x, t) IN Hist(name, a[1], a[2])
Log10(x) == RLog(x) (/) RLog(RInt(10))
(* the logarithm of a positive quantity known up to t; below the smallest that can be told from nothing anything goes,
   and a quantity that is negative somewhere (an average over a sharp ball can be) has no such histogram *)
HistLog(name, x, t, s, off) ==
  RLt(RInt(0), off (+) (RMinOf(x) (+) t)) => Hist(name, TLCEval([i \in 1..Len(x) |-> Log10(off (+) RMax(x[i] (-) t, RLit("1e-30"))) (-) s]), TLCEval([i \in 1..Len(x) |-> Log10(off (+) (x[i] (+) t)) (+) s]))
Theta == IF ft = Saxion THEN TLCEval([i \in 1..N |-> RAtan2(m[2*i], m[2*i - 1])])
         ELSE LET R == B!ScaleFactor(p, ct) IN TLCEval([i \in 1..N |-> m[i] (/) R])
AbsOf(f) == TLCEval([i \in 1..N |-> RSqrt((f[2*i] (.) f[2*i]) (+) (f[2*i - 1] (.) f[2*i - 1]))])
(* ---- spectra of the flat mask ----------------------------------------------------------------------------------- *)
Map(F(_)) == TLCEval([i \in 1..N |-> F(i - 1)])
Bins(d, want) == \E g \in {Get(d)} : ChkAll(d, want, g, Eps (.) RMaxAbs(want))
SpectrumOf(d, b) ==
  LET nb == q.nb  AK(s) == Sp!AxionK(b, m, v, s)  AV(s) == Sp!AxionV(b, m, s)  AS(s) == Sp!AxionS(b, m, s)
      G(a) == LET FG(s) == Sp!AxionG(geo, b, m, s, a)
                  W(s) == LET w == Sp!WaveOf(geo, s)[a] IN R1 (/) Sp!Slope2(geo.nx, IF w < 0 THEN -w ELSE w)
              IN Sp!Weighted(p, geo, nb, Map(FG), W)
      M(s) == b.mA2   M2(s) == b.mS2   Q2(s) == Sp!K2(p, geo, s)
      FM(s) == m[s + 1]  FS(s) == R2 (.) b.R (.) RSin(m[s + 1] (/) (R2 (.) b.R))
      SK(s) == Sp!SaxionK(b, m, v, s)  SV(s) == Sp!SaxionV(b, m, s)
  IN IF ft = Saxion THEN
       CASE d \in {"/eSpectrum/sK_0/data", "/eSpectrum/sCK_0/data"} -> Bins(d, Sp!Spectrum(p, geo, nb, Map(AK)))
         [] d = "/eSpectrum/sCG_0/data" -> Bins(d, Sp!Plus(Sp!Plus(G(1), G(2)), G(3)))
         [] d \in {"/eSpectrum/sV_0/data", "/eSpectrum/sCV_0/data"} -> Bins(d, Sp!Weighted(p, geo, nb, Map(AV), M))
         [] d = "/eSpectrum/sKS_0/data" -> Bins(d, Sp!Spectrum(p, geo, nb, Map(SK)))
         [] d = "/eSpectrum/sGS_0/data" -> Bins(d, Sp!Weighted(p, geo, nb, Map(SV), Q2))
         [] d = "/eSpectrum/sVS_0/data" -> Bins(d, Sp!Weighted(p, geo, nb, Map(SV), M2))
         [] OTHER -> Bins(d, Get(d))
     ELSE
       CASE d \in {"/eSpectrum/sK_0/data", "/eSpectrum/sCK_0/data"} -> Bins(d, Sp!Spectrum(p, geo, nb, v))
         [] d \in {"/eSpectrum/sG_0/data", "/eSpectrum/sCG_0/data"} -> Bins(d, Sp!Weighted(p, geo, nb, Map(FM), Q2))
         [] d \in {"/eSpectrum/sV_0/data", "/eSpectrum/sCV_0/data"} -> Bins(d, Sp!Weighted(p, geo, nb, Map(FM), M))
         [] d \in {"/eSpectrum/sS_0/data", "/eSpectrum/sCS_0/data"} -> Bins(d, Sp!Weighted(p, geo, nb, Map(FS), M))
(* ---- everything in the file -------------------------------------------------------------------------------------- *)
Fields(d, E, top) ==
  LET sl == Slack(RMaxAbs(E), top)
      R == B!ScaleFactor(p, ct)
      F32(x) == RToF32(x)
  IN CASE d = "/map/m" -> ChkAll(d, SliceXYOf(m), Get(d), R0)
       [] d = "/map/v" -> ChkAll(d, SliceXYOf(v), Get(d), R0)
       [] d = "/mapp/m" -> ChkAll(d, SliceYZOf(m), Get(d), R0)
       [] d = "/mapp/v" -> ChkAll(d, SliceYZOf(v), Get(d), R0)
       [] d = "/energy/density/theta" -> ChkAll(d, E, Get(d), sl)
       [] d = "/energy/rdensity/theta" -> ChkAll(d, Rd!Coarser(geo, Rd!MapFilter(geo, q.redmap), 1, E, q.redmap, ((geo.lz * q.redmap) \div geo.nx) * geo.nr), Get(d), sl)
       [] d = "/map/E" -> ChkAll(d, SubSeq(E, q.slice * Surf(geo) + 1, (q.slice + 1) * Surf(geo)), Get(d), sl)
       [] d = "/map/P" /\ On(q.maps, 1024) -> ChkAll(d, ProjectOf(E, Same), Get(d), sl)
       [] d \in {"/map/P", "/map/P2"} -> ChkAll(d, ProjectOf(E, B!Sq), Get(d), RInt(4) (.) sl (.) RMaxAbs(E))
       [] d = "/pSpectrum/sP/data" -> Bins(d, Sp!Spectrum(p, geo, q.nb, E))
       [] d = "/bins/contB/data" ->
            \E mean \in {RToF32(RSum(E) (/) RInt(N))} : HistLog("contB", TLCEval([i \in 1..N |-> E[i] (/) mean]), sl (/) mean, RLit("1e-5") , R0)
       [] d = "/bins/thetaB/data" -> \E th \in {Theta} : HistOf("thetaB", th, TLCEval([i \in 1..N |-> Eps (.) R1]))
       [] d = "/bins/thetaP2/data" -> \E a \in {AbsOf(m)} : HistOf("thetaP2", a, TLCEval([i \in 1..N |-> Eps (.) a[i]]))
       [] d = "/bins/rhoB/data" -> \E a \in {AbsOf(m)} : HistOf("rhoB", TLCEval([i \in 1..N |-> a[i] (/) R]), TLCEval([i \in 1..N |-> (Eps (.) a[i]) (/) R]))
       [] d = "/bins/logtheta2B/data" ->
            \E th \in {Theta} : HistLog("logtheta2B", TLCEval([i \in 1..N |-> B!Sq(th[i])]), RLit("1e-30"), RLit("2e-6") (+) Eps, RLit("1e-10"))
       [] d = "/string/data" -> \E w \in {Str!DefectMap(geo, m)} : \E g \in {Get(d)} :
            Chk("string-map", Len(g) = N /\ \A i \in 1..N : g[i] = RInt(w[i]), 0)
       [] d = "/string/codata" -> \E w \in {Str!DefectMap(geo, m)} : \E c \in {Get(d)} :
            /\ Chk("coordinates-size", Len(c) = 3 * Str!CountIn(w, 1, N), Len(c))
            /\ Chk("coordinates", {<<RFloor(c[3*i-2]), RFloor(c[3*i-1]), RFloor(c[3*i])>> : i \in 1..(Len(c) \div 3)} = Str!Positions(geo, w, 1, N), 0)
       [] d = "/nSpectrum/nmodes/data" -> Bins(d, Sp!Modes(geo, q.nb))
       [] d = "/nSpectrum/averagek/data" -> Bins(d, Sp!Waves2(geo, q.nb))
       [] d \in {"/eSpectrum/sK_0/data", "/eSpectrum/sG_0/data", "/eSpectrum/sV_0/data", "/eSpectrum/sS_0/data", "/eSpectrum/sCK_0/data", "/eSpectrum/sCG_0/data",
                 "/eSpectrum/sCV_0/data", "/eSpectrum/sCS_0/data", "/eSpectrum/sKS_0/data", "/eSpectrum/sGS_0/data", "/eSpectrum/sVS_0/data"} ->
            \E b \in {Sp!Now(p, geo, ct)} : SpectrumOf(d, b)
       [] OTHER -> TRUE
(* the contrast at a sequence of scales: the energy averaged over balls of growing size *)
Smooth(E, top) ==
  \A i \in 0..Scales :
    LET len == (RLit("0.25") (.) RExp((RLog(RInt(4 * geo.nx)) (.) RInt(i)) (/) RInt(Scales))) (.) B!Delta(p, geo.nx)
        d == "/bins/cont" \o Lab3(i) \o "B"
    IN \E S \in {Sp!Smoothed(p, geo, 1, len, E)} : \E mean \in {RToF32(RSum(E) (/) RInt(N))} :
         LET sl == Slack(RMaxAbs(E), top) IN
         /\ ChkRel(<<"length", i>>, len, At(d \o "/Smoothing Length"), RLit("1e-9"))
         /\ Chk(<<"filter", i>>, At(d \o "/Filter Type") = "Top Hat", At(d \o "/Filter Type"))
         /\ HistLog("cont" \o Lab3(i) \o "B", TLCEval([j \in 1..N |-> S[j] (/) mean]), sl (/) mean, RLit("1e-5"), R0)
         /\ ChkAll(<<"smoothed-projection", i>>, ProjectOf(S, Same), Get("/map/P" \o Lab3(i)), sl)
(* the energies, component by component *)
Kinds == <<"Gr X", "Gr Y", "Gr Z", "Kinetic", "Potential">>
Means(E5, part, who, top) ==
  \A c \in 1..5 : LET want == RSum([i \in 1..N |-> part[i][c]]) (/) RInt(N)  x == "/energy/" \o who \o " " \o Kinds[c]
                  IN Chk("energy-missing", x \in DOMAIN Ev.attrs, x) /\ ChkNear(x, want, At(x), Slack(want, top))
StringNumbers ==
  \E w \in {Str!DefectMap(geo, m)} :
    /\ Word("/string/String number", Str!CountIn(w, 1, N)) /\ Word("/string/String chirality", Str!ChiralIn(w, 1, N)) /\ Word("/string/Wall number", Str!WallsIn(w, 1, N))
    /\ Chk("strings-reported", q.den = Str!CountIn(w, 1, N) /\ q.chr = Str!ChiralIn(w, 1, N) /\ q.wall = Str!WallsIn(w, 1, N), <<q.den, q.chr, q.wall>>)
    /\ (q.strmeas % 2 = 1 => Num("/string/String length", Str!Length(geo, m, w)))
TH5All ==
  /\ Is("H5All") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, q>>
  /\ Chk("file", Ev.ok /\ Ev.name = FileName(q.index), Ev.name)
  /\ Header
  /\ Chk("datasets", DOMAIN Ev.dsets = Datasets(Todo), <<"missing", Datasets(Todo) \ DOMAIN Ev.dsets, "unasked", DOMAIN Ev.dsets \ Datasets(Todo)>>)
  /\ \E b \in {En!Epoch(p, geo, ct) @@ [top |-> <<B!LambdaOf(p, ct) (/) RInt(4), B!AxionM2(p, ct)>>]} :
     \E P5 \in {IF ~EnergyAny(q) THEN <<>> ELSE IF ft = Saxion
                THEN LET sh == B!VacuumShift(p, ct) (.) B!ScaleFactor(p, ct) IN TLCEval([s \in 1..N |-> TLCEval(En!SiteC(p, geo, b, m, v, sh, s - 1))])
                ELSE TLCEval([s \in 1..N |-> TLCEval(En!SiteA(geo, b, m, v, ft = AxionMod, s - 1))])} :
     \E Ax \in {IF P5 = <<>> THEN <<>> ELSE IF ft = Saxion THEN TLCEval([i \in 1..N |-> <<P5[i][1][2], P5[i][2][2], P5[i][3][2], P5[i][4][2], P5[i][5][2]>>]) ELSE P5} :
     \E Ra \in {IF P5 = <<>> \/ ft # Saxion THEN <<>> ELSE TLCEval([i \in 1..N |-> <<P5[i][1][1], P5[i][2][1], P5[i][3][1], P5[i][4][1], P5[i][5][1]>>])} :
     \E E \in {IF P5 = <<>> THEN <<>> ELSE TLCEval([i \in 1..N |-> En!Total5(Ax[i])])} :
       /\ (EnergyAny(q) => /\ Means(P5, Ax, "Axion", b.top[2])
                           /\ (ft = Saxion => Means(P5, Ra, "Saxion", b.top[1])
                                              /\ LET vev == RSum([i \in 1..N |-> En!Modulus(b, m, i - 1, B!VacuumShift(p, ct) (.) b.R)]) (/) RInt(N)
                                                 IN ChkRel("modulus", vev, At("/energy/Saxion vev"), RInt(10) (.) Eps)))
       /\ (EnergyMap(q) => LET want == RSum(E) (/) RInt(N) IN ChkNear("energy-reported", want, q.eA, RInt(5) (.) Slack(want, b.top[2])))
       /\ (Strings(q, ft) => StringNumbers)
       /\ \A d \in DOMAIN Ev.dsets : Fields(d, E, b.top[2])
       /\ (On(q.what, 524288) => Smooth(E, b.top[2]))
TEnd == Accepted /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, q>>
Next == TNew \/ TLoad \/ TFold \/ TSetField \/ TMeasure \/ TDump \/ TH5All \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
