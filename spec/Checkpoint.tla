----------------------------- MODULE Checkpoint -----------------------------
(* Saved configurations.  A run is described by s: the field state (ftype, z, geometry, precision), the parameters of
   the background (c) and those of the run (g).  A file holds a description and the content of the field in lattice
   order; reading a file restores the state it describes, except for what the reader is told to override. *)
EXTENDS Background
Group(pot, lo, n) == ((pot \div lo) % n) * lo
QcdPart(pot)  == pot % 64
PqPart(pot)   == Group(pot, 512, 8)
EvolPart(pot) == Group(pot, 4096, 4)
DampPart(pot) == Group(pot, 16384, 4)
FieldName(t) == CASE t = 1 -> "Saxion" [] t \in {2, 6} -> "Axion" [] t = 130 -> "Axion Mod" [] t = 512 -> "Naxion" [] t = 1024 -> "Paxion"
PrecName(p)  == IF p = 8 THEN "Double" ELSE "Single"
QcdName(pot) == CASE QcdPart(pot) = 1 -> "VQcd 0" [] QcdPart(pot) = 2 -> "VQcd 1" [] QcdPart(pot) = 4 -> "VQcd Variant"
                  [] QcdPart(pot) = 8 -> "VQcd N = 2" [] QcdPart(pot) = 16 -> "VQcd Linear" [] QcdPart(pot) = 32 -> "VQcd Cos"
PqName(pot)   == CASE PqPart(pot) = 1024 -> "VPQ 1" [] PqPart(pot) = 2048 -> "VPQ 2" [] PqPart(pot) = 512 -> "VPQ 3"
EvolName(pot) == CASE EvolPart(pot) = 8192 -> "Only Rho" [] EvolPart(pot) = 4096 -> "Only Theta" [] OTHER -> "Full"
DampName(pot) == CASE DampPart(pot) = 16384 -> "Rho" [] DampPart(pot) = 32768 -> "All" [] OTHER -> "None"
IcName(t) == CASE t = 2 -> "kMax" [] t = 8 -> "Smooth" [] t = 1 -> "Tkachev" [] OTHER -> "None"
(* the numbers a file must carry, by name: what a reader of the file (this program or any other) relies on *)
Numbers(s, index) ==
  [x \in {"/Saxion mass", "/Axion mass", "/Physical size", "/z", "/R", "/Frw", "/zInitial", "/zFinal"} |->
     CASE x = "/Saxion mass" -> MsaOf(s.c, s.z, s.Lx) [] x = "/Axion mass" -> RSqrt(AxionM2(s.c, s.z)) [] x = "/Physical size" -> s.c.L
       [] x = "/z" -> s.z [] x = "/R" -> ScaleFactor(s.c, s.z) [] x = "/Frw" -> s.c.frw [] x = "/zInitial" -> s.g.zInit [] x = "/zFinal" -> s.g.zFinl]
PotNumbers(s) ==
  [x \in {"/potential/Lambda", "/potential/Lambda Z2 exponent", "/potential/nQcd", "/potential/nQcd2", "/potential/Gamma", "/potential/Indi3",
          "/potential/z Threshold", "/potential/z Restore", "/ic/Axion zero mode"} |->
     CASE x = "/potential/Lambda" -> s.c.lambda [] x = "/potential/Lambda Z2 exponent" -> s.c.lz2e [] x = "/potential/nQcd" -> s.c.nqcd
       [] x = "/potential/nQcd2" -> s.c.nqcdr [] x = "/potential/Gamma" -> s.c.gamma [] x = "/potential/Indi3" -> s.c.indi3
       [] x = "/potential/z Threshold" -> s.c.zthres [] x = "/potential/z Restore" -> s.c.zrestore [] x = "/ic/Axion zero mode" -> s.g.mode0]
Words(s) ==
  [x \in {"/Field type", "/Precision", "/potential/Lambda type", "/potential/VQcd type", "/potential/VPQ type", "/potential/Damping type", "/potential/Evolution type"} |->
     CASE x = "/Field type" -> FieldName(s.ftype) [] x = "/Precision" -> PrecName(s.prec)
       [] x = "/potential/Lambda type" -> IF s.ltype = 1 THEN "z2" ELSE "Fixed"
       [] x = "/potential/VQcd type" -> QcdName(s.c.pot) [] x = "/potential/VPQ type" -> PqName(s.c.pot)
       [] x = "/potential/Damping type" -> DampName(s.c.pot) [] x = "/potential/Evolution type" -> EvolName(s.c.pot)]
Counts(s, index) ==
  [x \in {"/Size", "/Depth", "/nSteps", "/Current step"} |->
     CASE x = "/Size" -> s.Lx [] x = "/Depth" -> s.Tz [] x = "/nSteps" -> s.g.nSteps [] x = "/Current step" -> s.g.dump * index]
(* reading: the background that results from the file's and the one given, which counts for the names in over *)
Merge(saved, given, over) ==
  LET qcd == IF "qcdtype" \in over THEN QcdPart(given.pot) ELSE QcdPart(saved.pot)
      i3  == IF "indi3" \in over THEN given.indi3 ELSE saved.indi3
  IN [x \in {"frw", "L", "indi3", "nqcd", "nqcdr", "zthres", "zrestore", "lambda", "lz2e", "gamma", "pot"} |->
       CASE x = "pot" -> (IF i3 = R0 THEN 1 ELSE qcd)
                         + (IF "pqtype" \in over THEN PqPart(given.pot) ELSE PqPart(saved.pot))
                         + (IF "evol" \in over THEN EvolPart(given.pot) ELSE EvolPart(saved.pot))
                         + (IF "damp" \in over THEN DampPart(given.pot) ELSE DampPart(saved.pot))
         [] x = "nqcdr" -> IF "nqcd" \in over THEN given.nqcdr ELSE saved.nqcdr
         [] OTHER -> IF x \in over THEN given[x] ELSE saved[x]]
=============================================================================
