---------------------------- MODULE SpectraTrace ----------------------------
(* Binds Spectra to recorded runs: a field is loaded and its spectra asked for, with any mask and any number of shells,
   or an energy map is analysed or smoothed. *)
EXTENDS Spectra, TraceBase
VARIABLES m, v, e, ms, ct, p, geo, ft
vars == <<m, v, e, ms, ct, p, geo, ft, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ m = <<>> /\ v = <<>> /\ e = <<>> /\ ms = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ ft = 0
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ ft' = Ev.ftype /\ ct' = Ev.z /\ m' = <<>> /\ v' = <<>> /\ e' = <<>> /\ ms' = <<>>
TLoad == /\ (Is("Load") \/ Is("LoadStr")) /\ Step /\ UNCHANGED <<ct, p, geo, ft>>
         /\ CASE Is("LoadStr") -> ms' = IFile(Ev.file) /\ UNCHANGED <<m, v, e>>
              [] Ev.w = "m" -> m' = RFile(Ev.file) /\ UNCHANGED <<v, e, ms>>
              [] Ev.w = "v" -> v' = RFile(Ev.file) /\ UNCHANGED <<m, e, ms>>
              [] Ev.w = "er" -> e' = RFile(Ev.file) /\ UNCHANGED <<m, v, ms>>
TFold == (Is("Fold") \/ Is("Set")) /\ Step /\ UNCHANGED <<m, v, e, ms, ct, p, geo, ft>>
N == Sites(geo)
Nb == Case.nb
Bins(lab, want, got, same) == /\ Chk(<<lab, "on-every-rank">>, same, 0) /\ ChkAll(lab, want, got, Eps (.) RMaxAbs(want))
Ask(b) == (Ev.what \div b) % 2 = 1
Out(s) == Ev.mask \in {8, 1024} /\ ms[s + 1] >= 128
Map(F(_)) == TLCEval([i \in 1..N |-> F(i - 1)])
One(s) == R1
Zero(n) == [i \in 1..n |-> R0]
(* the axion in a complex field; K, G, V, S = 1, 2, 4, 8, their plain versions 16, 32, 64, 128 *)
Complex(b) ==
  LET W(s) == Weight(b, Ev.mask, Mod(b, m, s), Out(s))
      FK(s) == W(s) (.) AxionK(b, m, v, s)
      FV(s) == W(s) (.) AxionV(b, m, s)
      FS(s) == W(s) (.) AxionS(b, m, s)
      G(a) == LET FG(s) == W(s) (.) (IF Ask(2) THEN AxionC(geo, b, m, s, a) ELSE AxionG(geo, b, m, s, a))
                  C(s) == LET w == WaveOf(geo, s)[a] IN R1 (/) Slope2(geo.nx, IF w < 0 THEN -w ELSE w)
              IN Weighted(p, geo, Nb, Map(FG), C)
      M(s) == b.mA2
      none == Zero(Ev.bins)
  IN /\ Bins("kinetic", IF Ask(1) \/ Ask(16) THEN Spectrum(p, geo, Nb, Map(FK)) ELSE none, Ev.K, Ev.sameK)
     /\ Bins("gradient", IF Ask(2) \/ Ask(32) THEN Plus(Plus(G(1), G(2)), G(3)) ELSE none, Ev.G, Ev.sameG)
     /\ Bins("potential", IF Ask(4) \/ Ask(64) THEN Weighted(p, geo, Nb, Map(FV), M) ELSE none, Ev.V, Ev.sameV)
     /\ Bins("nonlinear-potential", IF Ask(4) THEN Weighted(p, geo, Nb, Map(FS), M) ELSE none, Ev.VNL, Ev.sameVNL)
Angle(b) ==
  LET Keep(s) == IF Out(s) THEN R0 ELSE R1
      FM(s) == Keep(s) (.) m[s + 1]
      FK(s) == Keep(s) (.) v[s + 1]
      FS(s) == Keep(s) (.) R2 (.) b.R (.) RSin(m[s + 1] (/) (R2 (.) b.R))
      M(s) == b.mA2
      Q(s) == K2(p, geo, s)
      none == Zero(Ev.bins)
      gv == Ask(2) \/ Ask(4) \/ Ask(32) \/ Ask(64)
  IN /\ Bins("kinetic", IF Ask(1) \/ Ask(16) THEN Spectrum(p, geo, Nb, Map(FK)) ELSE none, Ev.K, Ev.sameK)
     /\ Bins("gradient", IF gv THEN Weighted(p, geo, Nb, Map(FM), Q) ELSE none, Ev.G, Ev.sameG)
     /\ Bins("potential", IF gv THEN Weighted(p, geo, Nb, Map(FM), M) ELSE none, Ev.V, Ev.sameV)
     /\ Bins("nonlinear-potential", IF Ask(8) \/ Ask(128) THEN Weighted(p, geo, Nb, Map(FS), M) ELSE none, Ev.VNL, Ev.sameVNL)
Radial(b) ==
  LET W(s) == Weight(b, Ev.mask, Mod(b, m, s), Out(s))
      FK(s) == W(s) (.) SaxionK(b, m, v, s)
      FV(s) == W(s) (.) SaxionV(b, m, s)
      M(s) == b.mS2
      Q(s) == K2(p, geo, s)
      none == Zero(Ev.bins)
      gv == Ask(2) \/ Ask(4)
  IN /\ Bins("kinetic", IF Ask(1) THEN Spectrum(p, geo, Nb, Map(FK)) ELSE none, Ev.K, Ev.sameK)
     /\ Bins("gradient", IF gv THEN Weighted(p, geo, Nb, Map(FV), Q) ELSE none, Ev.G, Ev.sameG)
     /\ Bins("potential", IF gv THEN Weighted(p, geo, Nb, Map(FV), M) ELSE none, Ev.V, Ev.sameV)
TSpec ==
  /\ Is("Spec") /\ Step /\ UNCHANGED <<m, v, e, ms, ct, p, geo, ft>>
  /\ Chk("number-of-shells", Ev.bins = Count(geo, Nb), <<Ev.bins, Count(geo, Nb)>>)
  /\ \E b \in {Now(p, geo, ct)} :
       CASE Ev.op = "modes" -> Bins("modes", Modes(geo, Nb), Ev.NN, Ev.sameNN)
         [] Ev.op = "avek"  -> Bins("wave-numbers", Waves2(geo, Nb), Ev.AK, Ev.sameAK)
         [] Ev.op = "power" -> Bins("power", Spectrum(p, geo, Nb, e), Ev.P, Ev.sameP)
         [] Ev.op = "smooth" -> \E want \in {Smoothed(p, geo, Ev.mask, Ev.len, e)} : ChkAll("smoothed", want, RFile(Ev.map), Eps (.) RMaxAbs(e))
         [] Ev.op = "axion" /\ ft = 1 -> Complex(b)
         [] Ev.op = "axion" -> Angle(b)
         [] Ev.op = "saxion" -> Radial(b)
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<m, v, e, ms, ct, p, geo, ft>>
         /\ CASE Ev.w = "m" -> Chk("field-untouched", RFile(Ev.file) = m, 0) [] Ev.w = "v" -> Chk("velocity-untouched", RFile(Ev.file) = v, 0)
TEnd == Accepted /\ Step /\ UNCHANGED <<m, v, e, ms, ct, p, geo, ft>>
Next == TNew \/ TLoad \/ TFold \/ TSpec \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
