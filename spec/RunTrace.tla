------------------------------ MODULE RunTrace ------------------------------
(* Binds Run to the program: each process of a case is a Program event with its command line, and what they left
   behind is read at the end: the names of the files, their headers, the lines of sample.txt and the saved fields.
   Between events the specification runs the simulation through; where the field stays complex it also steps the
   field itself from the first saved configuration to the last. *)
EXTENDS Evolve, Run, TraceBase
VARIABLES r,        \* the simulation so far
          ask,      \* the command line
          todo      \* steps whose effect on the field has not been worked out
vars == <<state, r, ask, todo, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ r = [q |-> Nothing] /\ ask = <<>> /\ todo = <<>>
        /\ m = <<>> /\ v = <<>> /\ ct = R0 /\ p = <<>> /\ geo = <<>> /\ nb = <<>> /\ pot = 0 /\ ft = 0
Busy == r.q.ph = "run" \/ (m # <<>> /\ todo # <<>>)
Num(x) == RLit(x)
Asked(o) == [size |-> o.size, lsize |-> Num(o.lsize), zi |-> Num(o.zi), logi |-> Num(o.logi), zf |-> Num(o.zf), frw |-> Num(o.frw), qcd |-> Num(o.qcd),
             ind3 |-> Num(o.ind3), llcf |-> Num(o.llcf), msa |-> Num(o.msa), lz2e |-> Num(o.lz2e), gam |-> Num(o.gam), pot |-> o.pot, steps |-> o.steps, wdz |-> Num(o.wdz),
             dump |-> o.dump, list |-> [j \in 1..Len(o.list) |-> RToF32(Num(o.list[j]))],      \* (the list is read in single precision)
             theta |-> o.theta, sst0 |-> o.sst0, calm |-> o.calm, p3d |-> o.p3d, wkb |-> Num(o.wkb), halt |-> o.halt]
TRun == ~Busy /\ Is("Run") /\ Step /\ UNCHANGED <<state, r, ask, todo>>
TProgram ==
  /\ ~Busy /\ Is("Program") /\ Step /\ UNCHANGED <<m, v, ct, ft, nb, todo>>
  /\ \E o \in {Asked(Ev.o)} :
       /\ ask' = o /\ p' = Params(o) /\ pot' = o.pot /\ geo' = [nx |-> o.size, lz |-> Ev.o.depth, nr |-> Ev.o.ranks, ng |-> Ev.o.ng]
       /\ r' = IF Ev.o.restart THEN Again(o, r) ELSE Fresh(o)
TAdvance == r.q.ph = "run" /\ UNCHANGED <<state, ask, todo, k, l>> /\ \E s \in {OneStep(ask, r)} : r' = s
Pad(n) == LET t == ToString(n) IN IF n < 10 THEN "0000" \o t ELSE IF n < 100 THEN "000" \o t ELSE "00" \o t
Confs == {"axion." \o Pad(r.conf[j]) : j \in 1..Len(r.conf)} \cup (IF Case.halts > 0 THEN {"axion.restart"} ELSE {})
Names == {"axion.m." \o Pad(r.out[j].n) : j \in 1..Len(r.out)} \cup Confs
TNew == ~Busy /\ Is("New") /\ Step /\ UNCHANGED <<state, r, ask, todo>>
TOutputs ==
  /\ ~Busy /\ Is("Outputs") /\ Step /\ UNCHANGED <<state, r, ask, todo>>
  /\ \E got \in {{Ev.names[j] : j \in 1..Len(Ev.names)}} : Chk("files", got = Names, <<"missing", Names \ got, "unexpected", got \ Names>>)
Eps == RLit("1e-11")
FieldOf(t) == IF t = 1 THEN "Saxion" ELSE "Axion"
Head3(a, q, w) ==
  /\ ChkRel(w \o "-time", q.z, a["/z"], Eps)
  /\ ChkRel(w \o "-scale-factor", ScaleFactor(p, q.z), a["/R"], Eps)
  /\ Chk(w \o "-field", a["/Field type"] = FieldOf(q.ft), a["/Field type"])
(* a measurement file *)
TMeas ==
  /\ ~Busy /\ Is("H5") /\ Ev.name \in {"axion.m." \o Pad(r.out[j].n) : j \in 1..Len(r.out)} /\ Step /\ UNCHANGED <<state, r, ask, todo>>
  /\ \E j \in {j \in 1..Len(r.out) : Ev.name = "axion.m." \o Pad(r.out[j].n)} : \E q \in {r.out[j]}, a \in {Ev.attrs} :
       /\ Head3(a, q, "measurement")
       /\ Chk("step-number", a["/Prop step #"] = q.ps, a["/Prop step #"])
       /\ ChkRel("end-time", q.zf, a["/zFinal"], Eps) /\ ChkRel("start-time", r.q.z0, a["/zInitial"], Eps)
       /\ ChkRel("physical-size", p.L, a["/Physical size"], Eps) /\ Chk("lattice", a["/Size"] = geo.nx, a["/Size"])
       /\ ChkRel("coupling", LambdaOf(p, q.z), a["/potential/LambdaP"], Eps)
(* a saved configuration: the header tells its time *)
TConf ==
  /\ ~Busy /\ Is("H5") /\ Ev.name \in Confs \ {"axion.restart"} /\ Step /\ UNCHANGED <<state, r, ask, todo>>
  /\ \E j \in {j \in 1..Len(r.out) : Ev.name = "axion." \o Pad(r.out[j].n)} : Head3(Ev.attrs, r.out[j], "configuration")
TRestart == ~Busy /\ Is("H5") /\ Ev.name = "axion.restart" /\ Step /\ UNCHANGED <<state, r, ask, todo>>
(* ---- the field ----------------------------------------------------------------------------------------------- *)
Whole == Case.follow /\ r.q.ft = 1
First == Ev.name = "axion." \o Pad(0)
Rel == RLit(Case.eps)
TData ==
  /\ ~Busy /\ Is("H5Data") /\ Step /\ UNCHANGED <<r, ask, p, geo, pot>>
  /\ Chk("dataset", Ev.ok, Ev.name)
  /\ \E x \in {RFile(Ev.file)} :
       IF First THEN
         /\ IF Ev.w = "/m" THEN m' = x /\ v' = v /\ todo' = todo ELSE v' = x /\ m' = m /\ todo' = IF Whole THEN r.steps ELSE <<>>
         /\ nb' = (IF nb = <<>> THEN Neighbours(geo) ELSE nb) /\ ft' = 1 /\ ct' = r.log[1].z
       ELSE
         /\ UNCHANGED <<m, v, ct, ft, nb, todo>>
         /\ Whole /\ Ev.name = "axion." \o Pad(r.q.idx) =>
              IF Ev.w = "/m" THEN ChkAll("field", m, x, Rel (.) RMaxAbs(m)) ELSE ChkAll("velocity", v, x, Rel (.) RMaxAbs(v))
TEvolve ==
  /\ r.q.ph # "run" /\ m # <<>> /\ v # <<>> /\ todo # <<>> /\ UNCHANGED <<r, ask, k, l>>
  /\ Evolve(Head(todo), 1) /\ todo' = Tail(todo)
(* ---- sample.txt ------------------------------------------------------------------------------------------------ *)
Six == RLit("6e-7")
Col(row, c, want, w) == ChkNear(w, want, row[c], Six (+) (RLit("1e-6") (.) RAbs(want)))
Row(j, row, q) ==
  /\ Chk("columns", Len(row) = (IF q.ft = 1 THEN 11 ELSE 6), <<j, Len(row)>>)
  /\ Col(row, 1, q.z, "sample-time") /\ Col(row, 2, ScaleFactor(p, q.z), "sample-scale-factor")
  /\ Col(row, 3, RSqrt(AxionM2(p, q.z)), "sample-mass")
  /\ q.ft = 1 => Col(row, 4, LambdaOf(p, q.z), "sample-coupling") /\ Col(row, 11, VacuumShift(p, q.z), "sample-shift")
TSamples ==
  /\ ~Busy /\ Is("Samples") /\ Step /\ UNCHANGED <<state, r, ask, todo>>
  /\ Chk("lines", Len(Ev.rows) = Len(r.log), <<"steps", Len(r.log) - 1, "lines", Len(Ev.rows)>>)
  /\ \A j \in 1..Len(r.log) : Row(j, Ev.rows[j], r.log[j])
  /\ (Case.follow /\ m # <<>> /\ Whole) =>                 \* the site asked for, at the end
       \E row \in {Ev.rows[Len(Ev.rows)]} : \A c \in 1..2 :
          /\ ChkNear("sample-field", m[2 * Case.site + c], row[4 + c], Six (+) (Rel (.) RMaxAbs(m)))
          /\ ChkNear("sample-velocity", v[2 * Case.site + c], row[6 + c], Six (+) (Rel (.) RMaxAbs(v)))
TEnd == ~Busy /\ Accepted /\ Step /\ UNCHANGED <<state, r, ask, todo>>
Next == TRun \/ TProgram \/ TAdvance \/ TNew \/ TOutputs \/ TMeas \/ TConf \/ TRestart \/ TData \/ TEvolve \/ TSamples \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
