-------------------------- MODULE CheckpointTrace --------------------------
(* Binds Checkpoint to recorded runs: configurations written by some runs, of any number of ranks, and read by others. *)
EXTENDS Checkpoint, TraceBase
VARIABLES live,      \* description of the field in memory
          m, v,      \* its content in lattice order
          tol,       \* how far the next dumps may be from it
          given,     \* the background and run parameters given on the command line
          files,     \* what the files on disk describe
          run
vars == <<live, m, v, tol, given, files, run, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ live = <<>> /\ m = <<>> /\ v = <<>> /\ tol = R0 /\ given = <<>> /\ files = <<>> /\ run = 0
Desc(e, c, g) == [ftype |-> e.ftype, z |-> e.z, R |-> e.R, Lx |-> e.Lx, Tz |-> e.Tz, prec |-> e.prec, ltype |-> e.ltype, c |-> c, g |-> g]
Over == IF run \in DOMAIN Case.over THEN {Case.over[run][i] : i \in DOMAIN Case.over[run]} ELSE {}
TRun == Is("Run") /\ Step /\ run' = run + 1 /\ live' = <<>> /\ m' = <<>> /\ v' = <<>> /\ UNCHANGED <<tol, given, files>>
TParsed == Is("Parsed") /\ Step /\ given' = Ev /\ UNCHANGED <<live, m, v, tol, files, run>>
TNew == /\ Is("New") /\ Step /\ live' = Desc(Ev, Ev.cosmos, <<>>) /\ tol' = R0 /\ UNCHANGED <<m, v, given, files, run>>
TSetZ == /\ Is("SetZ") /\ Step /\ live' = [live EXCEPT !.z = Ev.z, !.R = Ev.R] /\ UNCHANGED <<m, v, tol, given, files, run>>
TSetField == /\ Is("SetField") /\ Step /\ live' = [live EXCEPT !.ftype = Ev.ftype] /\ UNCHANGED <<m, v, tol, given, files, run>>
TLoad == /\ Is("Load") /\ Step /\ UNCHANGED <<live, tol, given, files, run>>
         /\ LET f == RFile(Ev.file) IN IF Ev.w = "m" THEN m' = f /\ UNCHANGED v ELSE v' = f /\ UNCHANGED m
TFold == Is("Fold") /\ Step /\ UNCHANGED <<live, m, v, tol, given, files, run>>
FileOf(e) == IF e.restart = 1 THEN "restart" ELSE ToString(e.index)
TWrite == /\ Is("WriteConf") /\ Step /\ UNCHANGED <<live, m, v, tol, given, run>>
          /\ Chk("writing-changes-nothing", Ev.z = live.z /\ Ev.ftype = live.ftype /\ Ev.Lx = live.Lx /\ Ev.Tz = live.Tz /\ ~Ev.folded, Ev.ftype)
          /\ files' = (FileOf(Ev) :> [s |-> Desc(Ev, Ev.cosmos, Ev.glob), index |-> Ev.index, m |-> m, v |-> v]) @@ files
Name == CHOOSE f \in DOMAIN files : Ev.name = Case.file[f]
Sites(s) == s.Lx * s.Lx * s.Tz
Comp(t) == IF t \in {1, 512} THEN 2 ELSE 1
HasV(t) == t # 512
THead ==                                            \* what the header of a file says
  /\ Is("H5") /\ Step /\ UNCHANGED <<live, m, v, tol, given, files, run>>
  /\ LET F == files[Name]  s == F.s  A == Ev.attrs
         N == Numbers(s, F.index)  P == PotNumbers(s)  W == Words(s)  C == Counts(s, F.index)
         Rel(x, want) == Chk("absent", x \in DOMAIN A, x) /\ ChkRel(x, want, A[x], RLit("1e-13"))
     IN /\ Chk("file", Ev.ok, Ev.name)
        /\ \A x \in DOMAIN N : Rel(x, N[x])
        /\ \A x \in DOMAIN P : Rel(x, P[x])
        /\ \A x \in DOMAIN W : Chk("absent", x \in DOMAIN A, x) /\ Chk(x, A[x] = W[x], <<A[x], W[x]>>)
        /\ \A x \in DOMAIN C : Chk("absent", x \in DOMAIN A, x) /\ Chk(x, A[x] = C[x], <<A[x], C[x]>>)
        /\ (Name = "restart" => Chk("index", A["/index"] = F.index, <<A["/index"], F.index>>))
        /\ Chk("datasets", "/m" \in DOMAIN Ev.dsets /\ (("/v" \in DOMAIN Ev.dsets) <=> HasV(s.ftype)), DOMAIN Ev.dsets)
        /\ \A d \in {"/m", "/v"} \cap DOMAIN Ev.dsets :
              Chk("dataset-size", Ev.dsets[d].dims = <<Sites(s)*Comp(s.ftype)>> /\ Ev.dsets[d].bytes = s.prec, <<d, Ev.dsets[d].dims, Ev.dsets[d].bytes>>)
TData == /\ Is("H5Data") /\ Step /\ UNCHANGED <<live, m, v, tol, given, files, run>>
         /\ Chk("file", Ev.ok, Ev.name)
         /\ ChkAll("content " \o Ev.w, IF Ev.w = "/m" THEN files[Name].m ELSE files[Name].v, RFile(Ev.file), R0)
TRead ==
  /\ Is("ReadConf") /\ Step /\ UNCHANGED <<given, files, run>>
  /\ LET F == files[FileOf(Ev)]  s == F.s  c == Merge(s.c, given, Over)
         z == IF "zi" \in Over /\ Ev.restart = 0 THEN given.zi ELSE s.z
         p == IF "prec" \in Over THEN given.prec ELSE s.prec
     IN /\ m' = F.m /\ v' = F.v
        /\ tol' = IF p < s.prec THEN RMax(RMaxAbs(F.m), RMaxAbs(F.v)) (.) RLit("6e-8") ELSE R0
        /\ live' = Desc(Ev, Ev.cosmos, Ev.glob)
        /\ Chk("read-time", Ev.z = z, <<RStr(Ev.z), RStr(z)>>)
        /\ Chk("read-type", Ev.ftype = s.ftype, <<Ev.ftype, s.ftype>>)
        /\ Chk("read-size", Ev.Lx = s.Lx /\ Ev.Tz = s.Tz, <<Ev.Lx, Ev.Tz>>)
        /\ Chk("read-precision", Ev.prec = p, <<Ev.prec, p>>)
        /\ Chk("read-order", ~Ev.folded /\ ~Ev.mmom /\ ~Ev.vmom, Ev.folded)
        /\ \A x \in DOMAIN c \ {"pot"} : Chk("read-" \o x, Ev.cosmos[x] = c[x], <<RStr(Ev.cosmos[x]), RStr(c[x])>>)
        /\ Chk("read-potential", QcdPart(Ev.cosmos.pot) + PqPart(Ev.cosmos.pot) + EvolPart(Ev.cosmos.pot) + DampPart(Ev.cosmos.pot) = c.pot, <<Ev.cosmos.pot, c.pot>>)
        /\ Chk("read-lambda-type", IF "lambda" \in Over THEN TRUE ELSE Ev.ltype = s.ltype, <<Ev.ltype, s.ltype>>)
        /\ ChkRel("read-scale", ScaleFactor(Ev.cosmos, z), Ev.R, RLit("1e-14"))
        /\ Chk("read-zinit", Ev.glob.zInit = s.g.zInit, RStr(Ev.glob.zInit))
        /\ Chk("read-zfinal", Ev.glob.zFinl = IF "zf" \in Over THEN given.zFinl ELSE s.g.zFinl, RStr(Ev.glob.zFinl))
        /\ Chk("read-mode0", Ev.glob.mode0 = s.g.mode0, RStr(Ev.glob.mode0))
        /\ (Ev.restart = 1 => Chk("read-index", Ev.glob.findex = F.index, <<Ev.glob.findex, F.index>>))
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<live, tol, given, files, run>>
         /\ LET d == RFile(Ev.file) IN
            IF Ev.w = "m" THEN ChkAll("field", m, d, tol) /\ m' = d /\ UNCHANGED v
            ELSE ChkAll("velocity", v, d, tol) /\ v' = d /\ UNCHANGED m
TEnd == Accepted /\ Step /\ UNCHANGED <<live, m, v, tol, given, files, run>>
Next == TRun \/ TParsed \/ TNew \/ TSetZ \/ TSetField \/ TLoad \/ TFold \/ TWrite \/ THead \/ TData \/ TRead \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
