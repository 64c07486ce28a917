---------------------------- MODULE InitialTrace ----------------------------
(* Binds Initial to recorded runs.  Kinds that leave nothing to chance are predicted site by site; for the others, what
   is dumped must be a possible draw, and m' must follow from the m that was seen. *)
EXTENDS Initial, TraceBase
VARIABLES m, v, ct, p, geo, how
vars == <<m, v, ct, p, geo, how, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ m = <<>> /\ v = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ how = <<>>
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ ct' = Ev.z /\ m' = <<>> /\ v' = <<>> /\ how' = <<>>
TLoad == /\ Is("Load") /\ Step /\ UNCHANGED <<ct, p, geo, how>>
         /\ IF Ev.w \in {"m", "mr"} THEN m' = RFile(Ev.file) /\ v' = v ELSE v' = RFile(Ev.file) /\ m' = m
TFold == Is("Fold") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, how>>
TSmooth == /\ Is("Smooth") /\ Step /\ m' = SmoothN(geo, Ev.alpha, Ev.n, m) /\ v' = v /\ UNCHANGED <<ct, p, geo, how>>
Wave3 == IF "wave" \in DOMAIN Case THEN [i \in 1..3 |-> RLit(Case.wave[i])] ELSE <<RInt(Ev.kmax), R0, R0>>
Given == [kmax |-> Ev.kmax, kcr |-> Ev.kcr, mode0 |-> Ev.mode0, wave |-> Wave3]
TGen == /\ Is("GenConf") /\ Step /\ UNCHANGED <<p, geo>> /\ ct' = Ev.z
        /\ Chk("time", Ev.z = ct, RStr(Ev.z))
        /\ Chk("type", Ev.ftype = IF "into" \in DOMAIN Case THEN Case.into ELSE 1, Ev.ftype)
        /\ Chk("layout", ~Ev.folded, Ev.folded)
        /\ IF Ev.ctype = 1 /\ Ev.smvar \in Fixed
           THEN \E w \in {Made(Ev.smvar, Ev.siter, Ev.alpha, Ev.kick, Ev.normcore, geo, p, ct, Given)} : m' = w[1] /\ v' = w[2] /\ how' = <<>>
           ELSE m' = <<>> /\ v' = <<>> /\ how' = [ctype |-> Ev.ctype, smvar |-> Ev.smvar, siter |-> Ev.siter, kick |-> Ev.kick, kcr |-> Ev.kcr, mode0 |-> Ev.mode0, cored |-> Ev.normcore]
Top(f) == RMax(RMaxAbs(f), RLit("1e-30"))
N == Sites(geo)
NX == RInt(N)
R == ScaleFactor(p, ct)
H == Hubble(p, ct)
Mod(f, s) == RSqrt(Sq(f[2*s-1]) (+) Sq(f[2*s]))
Arg(f, s) == RAtan2(f[2*s], f[2*s-1])
Mean(f) == RSum(f) (/) RInt(Len(f))
(* a uniform draw on [-1, 1]: within range, mean 0 and variance 1/3 within six standard deviations, no two slabs alike *)
Uniform(u) ==
  \E dv \in {RLit("6") (/) RSqrt(RInt(3*Len(u)))} :
  \E w2 \in {RLit("6") (.) RSqrt(RLit("0.0889") (/) RInt(Len(u)))} :
  /\ Chk("draw-in-range", \A i \in 1..Len(u) : RLe(RAbs(u[i]), R1 (+) (RInt(40) (.) Eps)), RStr(RMaxAbs(u)))
  /\ ChkNear("draw-mean", R0, Mean(u), dv)
  /\ ChkNear("draw-variance", R1 (/) RInt(3), Mean([i \in 1..Len(u) |-> Sq(u[i])]), w2)
  /\ Chk("ranks-differ", \A r \in 1..geo.nr - 1 : \E i \in 1..(Len(u) \div geo.nr) : u[i] # u[i + r*(Len(u) \div geo.nr)], 0)
OnCircle(d) == ChkAll("on-the-vacuum-circle", [s \in 1..N |-> R], TLCEval([s \in 1..N |-> Mod(d, s)]), Eps (.) R)
(* the velocity of a field at rest in the expanding lattice: m' = (R'/R) m; nothing in flat space *)
Rest == LET f == H (.) (R1 (+) how.kick) IN TLCEval([i \in 1..Len(m) |-> f (.) m[i]])
Turned(d) == TLCEval([s \in 1..N |-> LET x == d[2*s-1]  y == d[2*s]  IN
                        RAtan2((y (.) RCos(how.mode0)) (-) (x (.) RSin(how.mode0)), (x (.) RCos(how.mode0)) (+) (y (.) RSin(how.mode0)))])
Fourier(f, n) == LET w == R1 (/) RInt(n) IN TLCEval(LET F == RDFT(f, geo.nx, TotZ(geo), -1) IN [i \in 1..Len(F) |-> w (.) F[i]])
Cplx(f) == TLCEval([i \in 1..2*Len(f) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE R0])
K2(s) == LET x == WaveNo(XofS(geo, s), geo.nx)  y == WaveNo(YofS(geo, s), geo.nx)  z == WaveNo(ZofS(geo, s), TotZ(geo)) IN x*x + y*y + z*z
Inner(s) == LET x == WaveNo(XofS(geo, s), geo.nx) IN x # 0 /\ 2*x # geo.nx
Tables(w) == [i \in 1..Len(Case[w]) |-> RLit(Case[w][i])]
(* a real field whose modes have exactly the tabulated moduli (modes with kx = 0 or nx/2 are their own partners and stay out) *)
ExactSpectrum(label, f, tb) ==
  \E F \in {Fourier(Cplx(f), N)} : \E want \in {TLCEval([s \in 1..N |-> IF Inner(s - 1) /\ K2(s - 1) <= Cut(geo.nx, geo.nx) THEN Table(tb, K2(s - 1)) ELSE R0])} :
    ChkAll(label, want, TLCEval([s \in 1..N |-> IF Inner(s - 1) THEN Mod(F, s) ELSE R0]), (RInt(30) (.) Eps) (.) RMaxAbs(tb))
(* phi = R exp(i theta), theta' the wave theta becomes by time ct in radiation domination: each mode
   theta_k sinc(k ct), so that sinc(x) theta'_k ct = (cos x - sinc x) theta_k *)
Thetas(d) == TLCEval([s \in 1..N |-> Arg(d, s)])
ThetaDots(d) == TLCEval([s \in 1..N |-> ((m[2*s-1] (.) d[2*s]) (-) (m[2*s] (.) d[2*s-1])) (/) (Sq(m[2*s-1]) (+) Sq(m[2*s]))])
Horizon == \* modes per horizon
  p.L (/) (TwoPi (.) ct)
WavesTurn(d) ==
  \E F \in {Fourier(Cplx(Thetas(m)), N)} : \E G \in {Fourier(Cplx(ThetaDots(d)), N)} :
  \E x \in {TLCEval([s \in 1..N |-> RSqrt(RInt(K2(s - 1))) (/) Horizon])} :
    ChkAll("waves-and-their-rates",
       TLCEval([i \in 1..2*N |-> LET s == (i + 1) \div 2 IN IF Inner(s - 1) /\ K2(s - 1) <= Cut(geo.nx, Case.kmax) THEN (RCos(x[s]) (-) Sinc(x[s])) (.) F[i] ELSE R0]),
       TLCEval([i \in 1..2*N |-> LET s == (i + 1) \div 2 IN IF Inner(s - 1) /\ K2(s - 1) <= Cut(geo.nx, Case.kmax) THEN ct (.) Sinc(x[s]) (.) G[i] ELSE R0]),
       (RInt(100) (.) Eps) (.) RMax(RMaxAbs(F), ct (.) RMaxAbs(G)))
SeenM(d) ==
  CASE how.ctype = 1 /\ how.smvar = 0 -> OnCircle(d) /\ (how.siter = 0 => Chk("ranks-differ", \A r \in 1..geo.nr - 1 : \E i \in 1..(Len(d) \div geo.nr) : d[i] # d[i + r*(Len(d) \div geo.nr)], 0))
    [] how.ctype = 1 /\ how.smvar = 5 -> OnCircle(d) /\ (how.siter = 0 => \E t \in {Turned(d)} : Uniform(TLCEval([s \in 1..N |-> t[s] (/) how.kcr])))
    [] how.ctype = 1 /\ how.smvar = 6 -> /\ ChkAll("one-phase", [s \in 1..N |-> R0], Turned(d), RInt(4) (.) Eps)
                                         /\ (how.siter = 0 => Uniform(TLCEval([s \in 1..N |-> ((Mod(d, s) (/) R) (-) R1) (/) how.kcr])))
    [] how.ctype \in {2, 4, 128} /\ ~how.cored -> OnCircle(d)
    [] how.ctype \in {2, 4, 128} /\ how.cored -> Chk("inside-the-vacuum-circle", \A s \in 1..N : RLe(Mod(d, s), R (.) (R1 (+) Eps)), 0)
    [] how.ctype = 256 -> ChkNear("mean-radius", R, Mean(TLCEval([s \in 1..N |-> Mod(d, s)])), (RInt(4) (.) Eps) (.) R)
    [] how.ctype = 32 -> /\ OnCircle(d)
                         /\ ChkNear("spread-of-the-angle", Sq(Pi) (.) (how.kcr (/) RInt(3)), Mean(TLCEval([s \in 1..N |-> Sq(Arg(d, s))])), (RInt(40) (.) Eps) (.) how.kcr)
    [] how.ctype = 512 /\ Case.into = 2 -> ExactSpectrum("spectrum-of-the-field", d, Tables("table"))
    [] how.ctype = 512 /\ Case.into = 1 -> OnCircle(d)
    [] OTHER -> TRUE
SeenV(d) ==
  CASE how.ctype = 1 -> ChkAll("velocity", Rest, d, (RInt(4) (.) Eps) (.) RMax(Top(m), Top(d)))
    [] how.ctype = 256 /\ "extrav" \in DOMAIN Case ->               \* noise of a given mean size on top
         \E e \in {TLCEval(LET r == Rest IN [i \in 1..Len(d) |-> d[i] (-) r[i]])} : ChkRel("noise-in-the-velocity", RLit(Case.extrav), Mean(TLCEval([s \in 1..N |-> Mod(e, s)])), RInt(20) (.) Eps)
    [] how.ctype \in {2, 4, 128, 256} -> ChkAll("velocity", Rest, d, (RInt(4) (.) Eps) (.) RMax(Top(m), Top(d)))
    [] how.ctype = 32 -> /\ ChkAll("radius-at-rest", [s \in 1..N |-> H], TLCEval([s \in 1..N |-> ((m[2*s-1] (.) d[2*s-1]) (+) (m[2*s] (.) d[2*s])) (/) Sq(R)]), (RInt(8) (.) Eps) (.) (Top(d) (/) R))
                         /\ WavesTurn(d)
    [] how.ctype = 512 /\ Case.into = 2 -> ExactSpectrum("spectrum-of-the-velocity", d, Tables("vtable"))
    [] how.ctype = 512 /\ Case.into = 1 ->
         ChkAll("radius-at-rest", [s \in 1..N |-> H], TLCEval([s \in 1..N |-> ((m[2*s-1] (.) d[2*s-1]) (+) (m[2*s] (.) d[2*s])) (/) Sq(R)]), (RInt(8) (.) Eps) (.) (Top(d) (/) R))
    [] OTHER -> TRUE
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<ct, p, geo, how>>
         /\ \E d \in {RFile(Ev.file)} :
            CASE how = <<>> /\ Ev.w = "m" -> ChkAll("field", m, d, Eps (.) Top(m)) /\ UNCHANGED <<m, v>>
              [] how = <<>> /\ Ev.w = "v" -> ChkAll("velocity", v, d, Eps (.) RMax(Top(v), Top(m))) /\ UNCHANGED <<m, v>>
              [] how # <<>> /\ Ev.w = "m" -> Chk("finite", \A i \in 1..Len(d) : RFinite(d[i]), 0) /\ SeenM(d) /\ m' = d /\ v' = v
              [] how # <<>> /\ Ev.w = "v" -> Chk("finite", \A i \in 1..Len(d) : RFinite(d[i]), 0) /\ SeenV(d) /\ v' = d /\ m' = m
(* ---- the modes themselves, as they are drawn ---- *)
Rows(c) == IF c THEN geo.nx ELSE (geo.nx \div 2) + 1
ModeK2(c, q) == LET w == Rows(c)  x == WaveNo(q % w, geo.nx)  y == WaveNo(q \div (w*TotZ(geo)), geo.nx)  z == WaveNo((q \div w) % TotZ(geo), TotZ(geo)) IN x*x + y*y + z*z
Linear == [i \in 1..2000 |-> R1 (/) (R1 (+) (RLit("0.1") (.) RInt((i-1)*(i-1))))]
TMom == /\ Is("MomConf") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, how>>
        /\ \E d \in {RFile(Ev.file)} : \E k2 \in {TLCEval([q \in 1..(Len(d) \div 2) |-> ModeK2(Ev.cplx, q - 1)])} : \E cut \in {Cut(geo.nx, Ev.kmax)} :
           \E e \in {TLCEval([q \in 1..Len(k2) |-> IF k2[q] <= cut THEN Envelope(Ev.moco, geo.nx, Ev.kcrit, Linear, k2[q]) ELSE R0])} :
           \E free \in {[q \in 1..Len(k2) |-> q > 1 \/ Ev.moco = 2048]} :                     \* the zero mode may be given
           \E ab \in {TLCEval([q \in 1..Len(k2) |-> Mod(d, q)])} : \E seen \in {TLCEval([q \in 1..Len(k2) |-> k2[q] <= cut /\ free[q] /\ RLt(RLit("1e-6"), RAbs(e[q]))])} :
             /\ Chk("mode-count", Len(d) = 2*Rows(Ev.cplx)*geo.nx*TotZ(geo), Len(d))
             /\ Chk("no-power-beyond-the-cut", \A q \in 1..Len(k2) : k2[q] > cut => ab[q] = R0, 0)
             /\ IF Ev.random
                THEN \E n \in {RSum([q \in 1..Len(k2) |-> IF seen[q] THEN R1 ELSE R0])} :
                     ChkNear("mean-power", R1, RSum([q \in 1..Len(k2) |-> IF seen[q] THEN Sq(ab[q] (/) e[q]) ELSE R0]) (/) n, RLit("9") (/) RSqrt(n))
                ELSE ChkAll("moduli", [q \in 1..Len(k2) |-> IF seen[q] THEN RAbs(e[q]) ELSE R0], [q \in 1..Len(k2) |-> IF seen[q] THEN ab[q] ELSE R0], Eps)
             (* phases anywhere on the circle, and not the same on two ranks *)
             /\ \E n \in {RSum([q \in 1..Len(k2) |-> IF seen[q] THEN R1 ELSE R0])} : \A o \in {0, 1} :
                  ChkNear("phases-balance", R0, RSum([q \in 1..Len(k2) |-> IF seen[q] THEN d[2*q - o] (/) ab[q] ELSE R0]), RLit("5") (.) RSqrt(n))
             /\ (Ev.moco # 2 /\ Ev.moco # 2048 /\ RLt(Ev.mode0, RLit("3.14")) => ChkAll("zero-mode", Cis(Ev.mode0), <<d[1], d[2]>>, Eps))
             /\ (Ev.moco = 2 => \E h \in {RFile(Ev.vfile)} :
                   ChkAll("rates-follow-the-field",
                      [i \in 1..Len(h) |-> LET q == (i + 1) \div 2 IN IF seen[q] THEN Rate(2, Ev.kcrit, k2[q]) (.) d[i] ELSE R0],
                      [i \in 1..Len(h) |-> LET q == (i + 1) \div 2 IN IF seen[q] THEN e[q] (.) h[i] ELSE R0], (RInt(10) (.) Eps) (.) RMax(Top(h), Top(d))))
TEnd == Accepted /\ Step /\ UNCHANGED <<m, v, ct, p, geo, how>>
Next == TNew \/ TLoad \/ TFold \/ TSmooth \/ TGen \/ TDump \/ TMom \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
