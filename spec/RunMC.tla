-------------------------------- MODULE RunMC --------------------------------
(* The life of a simulation on all its schedules: small numbers of steps, every interval of measurements, several lists,
   a field whose strings vanish after any number of steps, and an interruption (and continuation) after any step. *)
EXTENDS Run, FiniteSets
VARIABLES o, s, cuts, calmAt
vars == <<o, s, cuts, calmAt>>
T(x) == RLit(x)
Lists == {<<>>, <<T("1.1"), T("1.3")>>, <<T("0.8"), T("1.15"), T("1.15"), T("1.17"), T("1.9")>>, <<T("1"), T("1.25"), T("1.4")>>, <<T("1.0625"), T("1.125"), T("1.5")>>}
Base == [size |-> 8, lsize |-> T("4"), zi |-> R1, logi |-> R0, zf |-> T("1.5"), frw |-> R1, qcd |-> T("7"), ind3 |-> T("0.2"), llcf |-> T("0.5"), msa |-> R0, lz2e |-> R0,
         gam |-> R0, pot |-> 2, steps |-> 4, wdz |-> R0, dump |-> 1, list |-> <<>>, theta |-> FALSE, sst0 |-> 0, calm |-> FALSE, p3d |-> 7, wkb |-> R0, halt |-> FALSE]
Many == 40
Init ==
  /\ \E st \in 3..5, w \in {R0, T("0.5"), T("1")}, d \in 1..3, ls \in Lists, th \in BOOLEAN, q \in 0..1, wk \in {R0, T("2.5")}, e \in 1..2 :
       /\ (ls # <<>>) => (d = 1 /\ ~th /\ st = 5)
       /\ (~th) => (q = 0 /\ wk = R0)
       /\ o = [Base EXCEPT !.steps = IF w = R0 /\ ls = <<>> THEN st ELSE Many, !.wdz = w, !.dump = d, !.list = ls, !.theta = th, !.sst0 = q, !.wkb = wk,
                           !.llcf = IF e = 1 THEN T("0.5") ELSE R0, !.msa = IF e = 1 THEN R0 ELSE T("0.7"), !.lz2e = IF e = 1 THEN R0 ELSE R2,
                           !.zi = IF e = 1 THEN R1 ELSE R0, !.logi = IF e = 1 THEN R0 ELSE RLog(T("1.4"))]
  /\ calmAt \in (IF o.theta THEN 0..2 ELSE {0})
  /\ s = Fresh(o) /\ cuts = 0
Steps(x) == Len(x.steps)
Opts(x, b) == [o EXCEPT !.halt = b, !.calm = Steps(x) >= calmAt]
Go  == s.q.ph = "run" /\ \E x \in {OneStep(Opts(s, FALSE), s)} : s' = x /\ UNCHANGED <<o, cuts, calmAt>>
Cut == s.q.ph = "run" /\ cuts < 2 /\ \E x \in {OneStep(Opts(s, TRUE), s)} : s' = x /\ cuts' = cuts + 1 /\ UNCHANGED <<o, calmAt>>
Back == s.q.ph = "halted" /\ \E x \in {Again(Opts(s, FALSE), s)} : s' = x /\ UNCHANGED <<o, cuts, calmAt>>
Next == Go \/ Cut \/ Back
Spec == Init /\ [][Next]_vars
(* ---- what any user relies on ------------------------------------------------------------------------------- *)
Over == s.q.ph = "over"
(* the clock never goes back, and between two lines of the same process always goes forward *)
Clock == \A j \in 2..Len(s.log) : RLe(s.log[j-1].z, s.log[j].z)
Forward == \A j \in 1..Steps(s) : RLt(R0, s.steps[j])
(* once the angle, always the angle *)
Fields == \A j \in 2..Len(s.log) : s.log[j-1].ft <= s.log[j].ft
(* measurements are numbered 0, 1, 2, … in the order of their times, none missing and none written over *)
Numbers == \A j \in 1..Len(s.out) : s.out[j].n = j - 1
Ordered == \A j \in 2..Len(s.out) : RLe(s.out[j-1].z, s.out[j].z)
(* (the number of steps is a limit for each process; stepping onto listed times takes some of them) *)
Enough == s.q.it < o.steps \/ o.list = <<>>
(* the end: there is a measurement of the final state, and the saved configurations carry the numbers of measurements *)
Last(x) == x[Len(x)]
EndMeasured == Over => \E j \in 1..Len(s.out) : s.out[j].z = s.q.z /\ s.out[j].n = s.q.idx
Saved == \A j \in 1..Len(s.conf) : \E i \in 1..Len(s.out) : s.out[i].n = s.conf[j]
(* with enough steps the end is the time asked for or at most a step beyond it, and in a list it is the last entry exactly *)
Reached == (Over /\ Enough) => /\ (o.wdz = R0 /\ o.list = <<>>) => RNear(s.q.z, o.zf, RLit("1e-9"))
                   /\ RLe(EndOf(o, s.q.z0), s.q.z (+) RLit("1e-9"))
                   /\ RLt(s.q.z (-) Last(s.steps), EndOf(o, s.q.z0))
(* every listed time that is not before the start is measured, and exactly once (the first measurement may stand for it) *)
Count(t) == Cardinality({j \in 1..Len(s.out) : RNear(s.out[j].z, t, RLit("1e-4"))})
AllListed == (Over /\ Enough /\ o.list # <<>>) => \A j \in 1..Len(o.list) : RLt(o.list[j], s.q.z0) \/ Count(o.list[j]) = 1
(* an interruption changes nothing: the measurements, the saved fields and the end are those of an uninterrupted run
   (measurements every so many steps count the steps of each process, so there only the clock is the same) *)
RECURSIVE Through(_)
Through(x) == IF x.q.ph # "run" THEN x ELSE Through(OneStep(Opts(x, FALSE), x))
Same == (Over /\ Enough /\ cuts > 0 /\ ~o.theta) =>
   \E u \in {Through(Fresh(o))} :
     (u.q.it < o.steps \/ o.list = <<>>) =>
     /\ u.q.z = s.q.z /\ u.steps = s.steps
     /\ o.list # <<>> => ([j \in 1..Len(u.out) |-> u.out[j].z] = [j \in 1..Len(s.out) |-> s.out[j].z] /\ u.conf = s.conf)
=============================================================================
