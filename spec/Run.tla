-------------------------------- MODULE Run --------------------------------
(* A whole simulation, from its command line to the files it leaves.
   o is the record of what was asked for; zero or empty means the option is absent:
     size, lsize, zi, logi, zf, frw, qcd, ind3, llcf, msa, lz2e      the lattice and the background
     steps, wdz        number of steps, or step in units of the fastest oscillation
     dump, list        a measurement every so many steps, or the times listed in measfile.dat
     theta, sst0       whether to go over to the angle, and after how many steps without strings
     calm              the initial field has no strings (a fact about the field, not an option)
     p3d               bits: 1 save the initial configuration, 2 the final one, 4 the one after the WKB continuation
     wkb               continue to this time with the WKB approximation
     halt              the time allowed is over after one step
   A simulation advances one step at a time until it is over; log lists what a line of sample.txt reports after each
   step, out the measurement files, conf the saved configurations. *)
EXTENDS Background, TLC
(* ---- the command line ------------------------------------------------------------------------------------- *)
Given(x) == x # R0
Spacing(o) == o.lsize (/) RInt(o.size)
(* (an msa is what it is at the end, or at the start if the cores grow compared with the spacing) *)
Shrinks(o) == Given(o.msa) /\ ~RLe(o.lz2e, R2)
StartAsked0(o) == IF Given(o.logi) THEN (RExp(o.logi) (.) Spacing(o)) (/) o.msa ELSE o.zi
LambdaAsked(o) ==
  IF Given(o.msa) THEN LET u == Sq(Spacing(o))
                           t == IF RLe(o.lz2e, R2) THEN o.zf ELSE StartAsked0(o)
                       IN Sq(o.msa) (/) ((R2 (.) u) (.) RPow(t, o.frw (.) (R2 (-) o.lz2e)))
  ELSE o.llcf
LzAsked(o) == IF Given(o.msa) THEN o.lz2e ELSE R0
StartAsked(o) == IF Shrinks(o) THEN StartAsked0(o)
                 ELSE IF Given(o.logi) THEN RPow(RExp(R2 (.) o.logi) (/) (R2 (.) LambdaAsked(o)), R1 (/) (R2 (+) (o.frw (.) (R2 (-) LzAsked(o)))))
                 ELSE o.zi
Params(o) == [frw |-> o.frw, grav |-> RInt(-1), indi3 |-> o.ind3, nqcd |-> o.qcd, nqcdr |-> o.qcd, zthres |-> RInt(1000), zrestore |-> RLit("1e30"),
              lambda |-> LambdaAsked(o), lz2e |-> LzAsked(o), L |-> o.lsize, pot |-> o.pot, gamma |-> o.gam, dectime |-> RInt(-1), beta |-> R0]
(* ---- the measurement list: what lies before the start is dropped, equal times are one measurement ------------- *)
RECURSIVE Ahead(_, _)
Ahead(s, z) == IF s = <<>> THEN <<>> ELSE IF RLt(Head(s), z) THEN Ahead(Tail(s), z) ELSE <<Head(s)>> \o Ahead(Tail(s), z)
RECURSIVE Merged(_)
Merged(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Merged(Tail(s)) ELSE <<s[1]>> \o Merged(Tail(s))
RECURSIVE After(_, _)
After(s, z) == IF s = <<>> THEN <<>> ELSE IF RLe(Head(s), z) THEN After(Tail(s), z) ELSE s
Listed(o, z) == Merged(Ahead(o.list, z))
EndOf(o, z) == IF o.list = <<>> THEN o.zf ELSE LET s == Listed(o, z) IN s[Len(s)]
(* ---- the life of a process ---------------------------------------------------------------------------------- *)
Nothing == [ph |-> "none"]
Meas(n, q) == [n |-> n, z |-> q.z, ft |-> q.ft, ps |-> q.ps, zf |-> q.zf]
Fresh(o) ==
  LET z0 == StartAsked(o)  due == IF o.list = <<>> THEN <<>> ELSE Listed(o, z0)
      q == [ph |-> "run", z |-> z0, z0 |-> z0, it |-> 0, idx |-> 1, ft |-> 1, quiet |-> 0, pend |-> FALSE, ps |-> 0, zf |-> EndOf(o, z0),
            due |-> IF due # <<>> /\ RLt(RAbs(R1 (-) (z0 (/) Head(due))), RLit("0.0001")) THEN Tail(due) ELSE due]   \* the first measurement is that one
  IN [q |-> q, log |-> <<[z |-> z0, ft |-> 1]>>, out |-> <<Meas(0, q)>>, conf |-> IF Bit(o.p3d, 1) THEN <<0>> ELSE <<>>, steps |-> <<>>, kept |-> <<>>]
(* a process that goes on from axion.restart, which the last interrupted process left: the numbering and the clock
   continue, the counters begin again *)
Again(o, s) ==
  LET q == [s.kept.q EXCEPT !.ph = "run", !.it = 0, !.quiet = 0, !.pend = FALSE, !.ps = 0, !.zf = EndOf(o, s.kept.q.z),
                       !.due = IF o.list = <<>> THEN <<>> ELSE After(Listed(o, s.kept.q.z), s.kept.q.z)]
  IN [s EXCEPT !.q = q, !.steps = s.kept.steps, !.log = Append(@, [z |-> q.z, ft |-> q.ft])]
Near(a, b) == RLt(RAbs(a (-) b), RLit("1e-10"))
(* what the next step is, and whether a measurement follows it *)
Plan(o, q) ==
  LET dz == IF Given(o.wdz) THEN StepOf(Params(o), q.ft, o.size, q.z, o.wdz) ELSE (q.zf (-) q.z0) (/) RInt(o.steps)
      due == Ahead(q.due, q.z)
  IN IF o.list = <<>> THEN [dz |-> dz, pend |-> q.pend \/ q.it % o.dump = 0, due |-> <<>>]
     ELSE IF due # <<>> /\ RLt(q.z, Head(due)) /\ RLe(Head(due), q.z (+) dz)
          THEN [dz |-> Head(due) (-) q.z, pend |-> Len(due) > 1, due |-> due]           \* step exactly onto it; the last one is the end
          ELSE [dz |-> dz, pend |-> q.pend, due |-> due]
Final(o, s) ==
  LET q == s.q  c == IF Bit(o.p3d, 2) THEN <<q.idx>> ELSE <<>>
      f == [s EXCEPT !.q.ph = "over", !.out = Append(@, Meas(q.idx, q)), !.conf = @ \o c]
  IN IF q.ft = 2 /\ Given(o.wkb)
     THEN [f EXCEPT !.out = Append(@, [Meas(q.idx + 1, q) EXCEPT !.z = o.wkb]), !.conf = @ \o (IF Bit(o.p3d, 4) THEN <<q.idx + 1>> ELSE <<>>)]
     ELSE f
OneStep(o, s) ==
  LET q0 == s.q  pl == Plan(o, q0)
      z1 == q0.z (+) pl.dz
      n  == IF q0.ft = 1 /\ o.theta /\ o.calm THEN q0.quiet + 1 ELSE q0.quiet
      sw == q0.ft = 1 /\ o.theta /\ o.calm /\ n > o.sst0                                \* no strings for long enough: go over to the angle
      q1 == [q0 EXCEPT !.z = z1, !.quiet = n, !.pend = pl.pend, !.due = pl.due]
      s1 == [s EXCEPT !.log = Append(@, [z |-> z1, ft |-> q0.ft]), !.steps = Append(@, pl.dz)]
      q2 == IF sw THEN [q1 EXCEPT !.ft = 2, !.idx = @ + 2] ELSE q1
      s2 == IF sw THEN [s1 EXCEPT !.out = @ \o <<Meas(q1.idx, q1), Meas(q1.idx + 1, q2)>>] ELSE s1
      end == RLe(q2.zf, z1) \/ Near(z1, q2.zf)
      q3 == IF pl.pend /\ ~end THEN [q2 EXCEPT !.idx = @ + 1, !.pend = FALSE, !.ps = q2.it, !.due = IF @ = <<>> THEN @ ELSE Tail(@)] ELSE q2
      s3 == IF pl.pend /\ ~end THEN [s2 EXCEPT !.out = Append(@, Meas(q2.idx, [q2 EXCEPT !.ps = q2.it]))] ELSE s2
      s4 == [s3 EXCEPT !.q = [q3 EXCEPT !.it = @ + 1]]
  IN IF end THEN Final(o, [s3 EXCEPT !.q = q2])
     ELSE IF o.halt THEN [s4 EXCEPT !.q.ph = "halted", !.kept = [q |-> s4.q, steps |-> s4.steps]]
     ELSE IF q3.it + 1 >= o.steps THEN Final(o, s4)
     ELSE s4
=============================================================================
