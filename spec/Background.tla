----------------------------- MODULE Background -----------------------------
(* The expanding background.  p is the record of parameters a field was made with:
   frw, grav, indi3, nqcd, nqcdr, zthres, zrestore, lambda, lz2e, L, pot, gamma, dectime. *)
EXTENDS Real64, Integers, Sequences
R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
Half == RLit("0.5")
Sq(x) == x (.) x
Bit(n, b) == (n \div b) % 2 = 1
PQ1 == 1024   PQ2 == 2048   PQ3 == 512
QcdOf(pot) == pot % 64

ScaleFactor(p, ct) ==                       \* scale factor at conformal time ct
  IF p.frw = R1 /\ RLt(R0, p.grav) THEN ct (.) (R1 (+) (RLit("0.25") (.) ct (.) p.grav)) ELSE RPow(ct, p.frw)
Hubble(p, ct) == p.frw (/) ct                                        \* R'/R
RppOf(p, ct)  == (p.frw (.) (p.frw (-) R1)) (/) Sq(ct)               \* R''/R
(* squared axion mass: a power law in R up to the threshold, constant between threshold and restoration, another
   power law beyond; without restoration (threshold above it) it stays at its saturation value *)
Region(p, ct) == LET R == ScaleFactor(p, ct) IN
  IF RLt(R, p.zthres) THEN "growing"
  ELSE IF RLt(p.zrestore, p.zthres) \/ RLe(R, p.zrestore) THEN "flat" ELSE "restored"
AxionM2(p, ct) ==
  LET R == ScaleFactor(p, ct)  top == Sq(p.indi3) (.) RPow(p.zthres, p.nqcd)
  IN CASE Region(p, ct) = "growing"  -> Sq(p.indi3) (.) RPow(R, p.nqcd)
       [] Region(p, ct) = "flat"     -> top
       [] Region(p, ct) = "restored" -> top (.) RPow(R (/) p.zrestore, p.nqcdr)
LocalExp(p, ct) == CASE Region(p, ct) = "growing" -> p.nqcd [] Region(p, ct) = "flat" -> R0 [] OTHER -> p.nqcdr
DAxionM2(p, ct) == (LocalExp(p, ct) (.) p.frw (.) AxionM2(p, ct)) (/) ct    \* derivative with respect to ct
DlogMAR(p, ct)  == p.frw (.) ((LocalExp(p, ct) (/) R2) (+) R1)              \* d log(m_A R) / d log ct
LambdaOf(p, ct) == p.lambda (/) RPow(ScaleFactor(p, ct), p.lz2e)
SaxionM2(p, ct) == LambdaOf(p, ct) (.) RInt(IF Bit(p.pot, PQ1) \/ Bit(p.pot, PQ3) THEN 2 ELSE IF Bit(p.pot, PQ2) THEN 8 ELSE 0)
Delta(p, nx)    == p.L (/) RInt(nx)
MsaOf(p, ct, nx) == RSqrt(R2 (.) LambdaOf(p, ct)) (.) ScaleFactor(p, ct) (.) Delta(p, nx)
(* largest squared wave number the step must resolve, and the step *)
K2Max(p, nx) == RInt(12) (/) Sq(Delta(p, nx))
(* shift of the vacuum of the radial field caused by the QCD potential: root of (1+s)^3 - (1+s) = mA2/lambda *)
ShiftOf(p, ct) ==
  LET a == AxionM2(p, ct) (/) LambdaOf(p, ct)
      F[n \in 0..60] == IF n = 0 THEN R1 (+) a            \* Newton from above: monotone
                        ELSE LET x == F[n-1] IN x (-) (((x (.) x (.) x) (-) x (-) a) (/) ((RInt(3) (.) x (.) x) (-) R1))
  IN F[60] (-) R1
Shift2Of(p, t) ==                                         \* other wine-bottle potential: root of 2 (1+s)^3 ((1+s)^4 - 1) = mA2/lambda
  LET a == AxionM2(p, t) (/) LambdaOf(p, t)
      x0 == R1 (+) (a (/) RInt(8))
      G(x) == LET c == x (.) x (.) x IN (RInt(2) (.) ((c (.) c (.) x) (-) c)) (-) a
      D(x) == LET q == x (.) x IN RInt(2) (.) ((RInt(7) (.) q (.) q (.) q) (-) (RInt(3) (.) q))
      F[n \in 0..60] == IF n = 0 THEN x0 ELSE LET x == F[n-1] IN x (-) (G(x) (/) D(x))
  IN F[60] (-) R1
VacuumShift(p, t) == IF QcdOf(p.pot) # 2 THEN R0 ELSE IF Bit(p.pot, PQ2) THEN Shift2Of(p, t) ELSE ShiftOf(p, t)
(* the step: frequency of the fastest mode of the given field type *)
FastestMode(p, ft, nx, ct) ==
  LET R == ScaleFactor(p, ct)  k2 == K2Max(p, nx)  ma2 == AxionM2(p, ct) (.) Sq(R)
      ms2 == R2 (.) LambdaOf(p, ct) (.) Sq(R) (.) RInt(IF Bit(p.pot, PQ2) THEN 4 ELSE 1)
  IN CASE ft = 1 -> RMax(RMax(RSqrt(ms2 (+) k2), RSqrt(ma2 (+) k2)), RppOf(p, ct))   \* and not beyond the expansion term
       [] ft \in {2, 130, 6} -> RSqrt(ma2 (+) k2)
       [] ft \in {512, 1024} -> k2 (/) (RSqrt(k2 (+) ma2) (+) RSqrt(ma2))
StepOf(p, ft, nx, ct, wdz) ==
  LET raw == wdz (/) FastestMode(p, ft, nx, ct)
      R == ScaleFactor(p, ct)  Rn == ScaleFactor(p, ct (+) raw)
  IN IF RLt(R, p.zthres) /\ RLt(p.zthres, Rn) /\ p.frw # R0
     THEN RPow(p.zthres (+) (RLit("0.001") (.) (Rn (-) p.zthres)), R1 (/) p.frw) (-) ct     \* stop just past the threshold
     ELSE raw
=============================================================================
