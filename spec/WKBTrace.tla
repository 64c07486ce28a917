------------------------------ MODULE WKBTrace ------------------------------
(* Binds WKB to recorded runs: a field stepped, then continued to a later time, measured mode by mode.  The code may take the
   phase of a mode from a table at whole mode numbers; between them it must be good to a tenth of a radian. *)
EXTENDS EvolveTrace
Wk == INSTANCE WKB
VARIABLE gone                                  \* a continuation not yet seen: <<start, end>> or <<>>
wvars == <<vars, gone>>
RECURSIVE Root(_, _)
Root(n, r) == IF (r + 1)*(r + 1) > n THEN r ELSE Root(n, r + 1)
Whole(n) == LET r == Root(n, 0) IN r*r = n
WEps == RLit(Case.weps)
TWKB ==
  /\ Is("WKB") /\ Step /\ gone' = <<ct, Ev.z, m, v>> /\ UNCHANGED <<m, v, p, geo, nb, pot, ft, tol>>
  /\ ct' = Ev.z
  /\ ChkRel("time", Ev.to, Ev.z, R0)
  /\ ChkRel("scale-factor", ScaleFactor(p, Ev.z), Ev.R, RLit("1e-13"))
  /\ Chk("stored-plainly", ~Ev.folded, Ev.folded)
(* the field, then the velocity *)
TSeen ==
  /\ Is("Dump") /\ gone # <<>> /\ Step /\ UNCHANGED <<ct, p, geo, nb, pot, ft>>
  /\ tol' = <<R0, R0>>
  /\ \E L \in {Wk!Law(p, geo, gone[1], gone[2])} :
     \E at \in {TLCEval([s \in 1..Sites(geo) |-> Wk!WMode(geo, s - 1)])} :
     \E sl \in {TLCEval([n \in DOMAIN L |-> IF Whole(n) THEN WEps ELSE WEps (+) RLit(Case.phase)])} :
     \E F \in {Wk!WModes(geo, gone[3])}, H \in {Wk!WModes(geo, gone[4])}, d \in {RFile(Ev.file)} : \E D \in {Wk!WModes(geo, d)} :
       LET top == RMaxAbs(F) (+) (RMaxAbs(H) (/) L[0].w2)
           \* size of the travelling waves of a mode
           A(i) == LET e == L[at[(i + 1) \div 2]]  j == IF i % 2 = 1 THEN i + 1 ELSE i - 1 IN
                   RSqrt(e.w1 (/) e.w2) (.) (RAbs(F[i]) (+) RAbs(F[j]) (+) ((RAbs(H[i]) (+) RAbs(H[j])) (/) e.w1))
           e(i) == L[at[(i + 1) \div 2]]
           T(i, w) == (sl[at[(i + 1) \div 2]] (.) w (.) A(i)) (+) (WEps (.) w (.) RMaxAbs(F))
       IN CASE Ev.w = "m" -> /\ ChkAll("modes", TLCEval([i \in 1..Len(F) |-> R0]),
                                       TLCEval([i \in 1..Len(F) |-> (D[i] (-) Wk!MapM(e(i), F[i], H[i])) (/) T(i, R1)]), R1)
                             /\ m' = d /\ UNCHANGED v /\ gone' = gone
            [] Ev.w = "v" -> /\ ChkAll("velocities", TLCEval([i \in 1..Len(F) |-> R0]),
                                       TLCEval([i \in 1..Len(F) |-> (D[i] (-) Wk!MapD(e(i), F[i], H[i])) (/) T(i, e(i).w2 (.) (R1 (+) e(i).z2))]), R1)
                             /\ v' = d /\ UNCHANGED m /\ gone' = <<>>
TPlain == (gone = <<>>) /\ TDump /\ gone' = gone
TOther == (TNew \/ TSetZ \/ TSetField \/ TLoad \/ TInit \/ TFold \/ TTune \/ TProp \/ TEnd) /\ gone' = gone
WInit == Init /\ gone = <<>>
WNext == TOther \/ TPlain \/ TWKB \/ TSeen
WSpec == WInit /\ [][WNext]_wvars
=============================================================================
