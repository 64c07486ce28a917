----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  The file named by the environment variable CASES holds one JSON
   object per recorded run (its name, its trace file and the parameters the generator chose); every run is an
   initial state of its own, so one TLC process validates many traces.  A trace is accepted when its last event
   (End) is consumed; an event that no action explains prints a REJECT line and ends that behaviour. *)
EXTENDS Real64, Integers, Sequences, TLC, Json, IOUtils
ReadCases == ndJsonDeserialize(IOEnv.CASES)
ASSUME LET c == TLCEval(ReadCases) IN TLCSet(41, c) /\ TLCSet(42, TLCEval([n \in 1..Len(c) |-> TLCEval(ndJsonDeserialize(c[n].trace))]))
Cases  == TLCGet(41)                \* read once
Traces == TLCGet(42)
VARIABLES k, l                    \* which run, and the position in it
Ev     == Traces[k][l]
Case   == Cases[k]
More   == l <= Len(Traces[k])
Is(e)  == More /\ Ev.e = e
Step   == l' = l + 1 /\ k' = k
Chk(label, ok, info) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", Case.name, l, Ev.e, label, info>>) /\ FALSE
(* numeric comparison of a whole array: prints the first far element on failure *)
ChkAll(label, want, got, tol) ==
  IF RAllNear(want, got, tol) THEN TRUE
  ELSE LET i == RFirstFar(want, got, tol) IN
       PrintT(<<"REJECT", Case.name, l, Ev.e, label, i,
                IF i > 0 THEN <<RStr(want[i]), RStr(got[i])>> ELSE <<Len(want), Len(got)>>, RStr(tol)>>) /\ FALSE
ChkNear(label, want, got, tol) ==
  IF RNear(want, got, tol) THEN TRUE
  ELSE PrintT(<<"REJECT", Case.name, l, Ev.e, label, RStr(want), RStr(got), RStr(tol)>>) /\ FALSE
(* relative comparison of two reals *)
ChkRel(label, want, got, rel) == ChkNear(label, want, got, RAdd(RMul(rel, RMax(RAbs(want), RAbs(got))), RLit("1e-300")))
Accepted == Is("End") /\ PrintT(<<"ACCEPT", Case.name>>)
Has(f) == f \in DOMAIN Ev
=============================================================================
