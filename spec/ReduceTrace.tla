----------------------------- MODULE ReduceTrace -----------------------------
(* Binds Reduce to recorded runs: reductions asked for directly, with a filter that tells the axes apart, and
   configurations read onto a coarser or finer lattice and evolved there. *)
EXTENDS Reduce, EvolveTrace
VARIABLES e2, disk
rvars == <<vars, e2, disk>>
InitR == Init /\ e2 = <<>> /\ disk = <<>>
C == Comps(ft)
Near(label, want, got) == ChkAll(label, want, got, Eps (.) RMax(RMaxAbs(want), RLit("1e-200")))
Old(x) == /\ x /\ UNCHANGED <<e2, disk>>
TLoadE == /\ Is("Load") /\ Ev.w \notin {"m", "v"} /\ Step /\ e2' = RFile(Ev.file) /\ UNCHANGED <<state, tol, disk>>
TSet == Is("Set") /\ Step /\ UNCHANGED <<state, tol, e2, disk>>
TRun == Is("Run") /\ Step /\ UNCHANGED <<state, tol, e2, disk>>
TReduce ==
  /\ Is("Reduce") /\ Step /\ UNCHANGED <<ct, p, pot, ft, disk>>
  /\ Chk("new-size", Ev.gotLx = Ev.newLx /\ Ev.gotLz = Ev.newLz, <<Ev.gotLx, Ev.gotLz>>)
  /\ Chk("unfolded", Ev.w = "m2" \/ ~Ev.folded, 0)
  /\ \E W \in {GaussFilter(geo, Ev.a)} :
       IF Ev.w = "m2"
       THEN /\ \E want \in {Coarser(geo, W, 1, e2, Ev.newLx, Ev.newLz * geo.nr)} : \E got \in {RFile(Ev.out_m2)} : Near("energy-reduced", want, got)
            /\ UNCHANGED <<m, v, geo, nb, tol>> /\ e2' = <<>>
       ELSE \E wm \in {Coarser(geo, W, C, m, Ev.newLx, Ev.newLz * geo.nr)} : \E wv \in {Coarser(geo, W, C, v, Ev.newLx, Ev.newLz * geo.nr)} :
            \E gm \in {RFile(Ev.out_m)} : \E gv \in {RFile(Ev.out_v)} :
              /\ Near("field-reduced", wm, gm) /\ Near("velocity-reduced", wv, gv) /\ UNCHANGED e2
              /\ IF Ev.inplace = 1
                 THEN /\ geo' = [geo EXCEPT !.nx = Ev.newLx, !.lz = Ev.newLz] /\ nb' = Neighbours(geo') /\ m' = gm /\ v' = gv /\ tol' = <<R0, R0>>
                      /\ Chk("now-coarse", Ev.Lx = Ev.newLx /\ Ev.Lz = Ev.newLz, <<Ev.Lx, Ev.Lz>>)
                 ELSE /\ UNCHANGED <<geo, nb, m, v, tol>> /\ Chk("source-size", Ev.Lx = geo.nx /\ Ev.Lz = geo.lz, <<Ev.Lx, Ev.Lz>>)
TWrite == /\ Is("WriteConf") /\ Step /\ UNCHANGED <<state, tol, e2>> /\ disk' = [g |-> geo, m |-> m, v |-> v, z |-> ct, t |-> ft]
TRead ==
  /\ Is("ReadConf") /\ Step /\ UNCHANGED <<e2, disk>>
  /\ p' = Ev.cosmos /\ pot' = Ev.cosmos.pot /\ ft' = Ev.ftype
  /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng] /\ nb' = Neighbours(geo') /\ ct' = Ev.z
  /\ ChkRel("time-read", disk.z, Ev.z, RLit("1e-13"))
  /\ \E c \in {IF disk.t = 1 THEN 2 ELSE 1} : \E n \in {Ev.Lx} : \E T \in {Ev.Lz * Ev.ranks} :
     /\ Chk("size-read", n = Ev.wantx /\ T = Ev.wantz, <<n, T>>)
     /\ IF n = disk.g.nx /\ T = TotZ(disk.g) THEN m' = disk.m /\ v' = disk.v
        ELSE IF n > disk.g.nx THEN m' = Finer(disk.g, c, disk.m, n, T) /\ v' = Finer(disk.g, c, disk.v, n, T)
        ELSE \E W \in {ReadFilter(disk.g, n, T)} : m' = Coarser(disk.g, W, c, disk.m, n, T) /\ v' = Coarser(disk.g, W, c, disk.v, n, T)
  /\ tol' = <<Eps (.) RMaxAbs(m'), Eps (.) RMaxAbs(v')>>
NextR == Old(Next) \/ TLoadE \/ TSet \/ TRun \/ TReduce \/ TWrite \/ TRead
SpecR == InitR /\ [][NextR]_rvars
=============================================================================
