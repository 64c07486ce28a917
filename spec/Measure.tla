------------------------------ MODULE Measure ------------------------------
(* One measurement of a field: what is asked for, the steps that produce it and the file it leaves.  A request q has
   the analyses (what), the maps, the mask of the spectra, the kinds of spectra (nrt), the printed slice, the size of
   the reduced energy map and the index.  ft is the field type, massive whether the axion has a mass. *)
EXTENDS Integers, Sequences, FiniteSets
On(n, b) == (n \div b) % 2 = 1
Some(n, B) == \E b \in B : On(n, b)
Saxion == 1  Axion == 2  AxionMod == 130  Naxion == 512  Paxion == 1024
(* what: 1 theta, 2 rho, 4 log theta^2, 8 contrast histograms; 32 strings, 64 their map, 128 their coordinates; 256 energy,
   512 its map, 1024 its reduced map; 16384 its spectrum; 65536 axion spectra, 131072 saxion spectra, 262144 mode counts;
   524288 contrast of the smoothed energy at many scales *)
(* maps: 5 slices in xy, 48 in yz, 1024 and 2048 projections of the energy and its square, 65536 slice of the energy *)
SliceXY(q) == Some(q.maps, {1, 4})
SliceYZ(q) == Some(q.maps, {16, 32})
Projected(q) == Some(q.maps, {1024, 2048})
EnergyMap(q) == Some(q.what, {8, 512, 1024, 16384, 32768, 524288}) \/ Some(q.maps, {1024, 2048, 65536})
EnergyAny(q) == EnergyMap(q) \/ On(q.what, 256)
PowerOf(q) == Some(q.what, {1024, 16384, 524288})
ModeSpectra(q) == Some(q.what, {65536, 131072, 262144})
When(c, S) == IF c THEN S ELSE {}
HasV(ft) == ft # Naxion
Strings(q, ft) == ft = Saxion
(* a step needs the auxiliary field in one of some states and leaves it in another (or as it was), and writes datasets *)
St(name, needs, leaves, out) == <<[name |-> name, needs |-> needs, leaves |-> leaves, out |-> out]>>
If(c, s) == IF c THEN s ELSE <<>>
(* the smoothed energy keeps its modes beside it, so that the reduction can start from them *)
Free == {"dirty", "energy", "modes", "smooth", "coordinates", "reduced"}
Plan(q, ft, massive, scales, Lab(_)) ==
     If(SliceXY(q), St("slice-xy", Free, "same", {"/map/m"} \cup When(HasV(ft), {"/map/v"})))
  \o If(SliceYZ(q), St("slice-yz", Free, "same", {"/mapp/m", "/mapp/v"}))
  \o If(EnergyMap(q), St("energy", Free, "energy", {}))
  \o If(On(q.what, 512), St("energy-map", {"energy"}, "same", {"/energy/density/theta"}))
  \o If(On(q.what, 8), St("contrast", {"energy"}, "same", {"/bins/contB/data"}))
  \o If(On(q.maps, 65536), St("energy-slice", {"energy"}, "same", {"/map/E"}))
  \o If(On(q.maps, 1024), St("projection", {"energy"}, "same", {"/map/P"}))
  \o If(On(q.maps, 2048), St("projection-squared", {"energy"}, "same", {IF On(q.maps, 1024) THEN "/map/P2" ELSE "/map/P"}))
  \o If(PowerOf(q), St("power", {"energy"}, "modes", {"/pSpectrum/sP/data"}))
  \o If(On(q.what, 524288), St("smoothed", {"modes"}, "smooth", {"/bins/cont" \o Lab(i) \o "B/data" : i \in 0..scales} \cup {"/map/P" \o Lab(i) : i \in 0..scales}))
  \o If(On(q.what, 1024) /\ q.redmap > 0, St("reduced", {"energy", "modes", "smooth"}, "reduced", {"/energy/rdensity/theta"}))
  \o If(Strings(q, ft) /\ ~On(q.what, 128), St("strings", Free, "same", When(On(q.what, 64), {"/string/data"})))
  \o If(Strings(q, ft) /\ On(q.what, 128), St("string-coordinates", Free, "coordinates", {"/string/codata"} \cup When(On(q.what, 64), {"/string/data"})))
  \o If(ModeSpectra(q) /\ On(q.mask, 1),
        St("spectra", Free, "dirty",
           When(On(q.nrt, 1), {"/eSpectrum/sK_0/data"}) \cup When(On(q.nrt, 2), {"/eSpectrum/sG_0/data"})
           \cup When(On(q.nrt, 4) /\ massive, {"/eSpectrum/sV_0/data"}) \cup When(On(q.nrt, 8) /\ massive, {"/eSpectrum/sS_0/data"})
           \cup When(On(q.nrt, 16), {"/eSpectrum/sCK_0/data"}) \cup When(On(q.nrt, 32), {"/eSpectrum/sCG_0/data"})
           \cup When(On(q.nrt, 64) /\ massive, {"/eSpectrum/sCV_0/data"}) \cup When(On(q.nrt, 128) /\ massive, {"/eSpectrum/sCS_0/data"})
           \cup When(ft = Saxion /\ On(q.what, 131072),
                     When(On(q.nrt, 1), {"/eSpectrum/sKS_0/data"}) \cup When(On(q.nrt, 2), {"/eSpectrum/sGS_0/data"}) \cup When(On(q.nrt, 4), {"/eSpectrum/sVS_0/data"}))))
  \o If(ModeSpectra(q) /\ (q.index = 0 \/ On(q.what, 262144)), St("modes", Free, "dirty", {"/nSpectrum/nmodes/data", "/nSpectrum/averagek/data"}))
  \o If(On(q.what, 1) /\ ft \in {Saxion, Axion}, St("theta", Free, "same", {"/bins/thetaB/data"}))
  \o If(On(q.what, 1) /\ ft = Naxion, St("density", Free, "same", {"/bins/thetaP2/data"}))
  \o If(On(q.what, 2) /\ ft = Saxion, St("rho", Free, "same", {"/bins/rhoB/data"}))
  \o If(On(q.what, 4) /\ ft \in {Saxion, Axion}, St("logtheta", Free, "same", {"/bins/logtheta2B/data"}))
(* what the file holds in the end, said once more without the steps *)
Asked(q) == q.what # 0
Datasets(P) == UNION {P[i].out : i \in 1..Len(P)}
=============================================================================
