-------------------------------- MODULE Twin --------------------------------
(* Runs of the same history that differ only in how the work is laid out: number of ranks, threads, block sizes
   and tuning, storage order, memory saving.  The trace of a case is the runs one after another, each opened by a
   Run event.  The first run defines the content of every dump and the time at every point; the others must show
   the same.  Tuning must be invisible: it is an event of some of the runs only. *)
EXTENDS TraceBase
VARIABLES ref,        \* what the first run showed: a sequence of [w, f, z]
          pos,        \* dumps seen in this run
          run         \* number of this run
vars == <<ref, pos, run, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ ref = <<>> /\ pos = 0 /\ run = 0
Rel == RLit(Case.eps)
TRun == /\ Is("Run") /\ Step /\ run' = run + 1 /\ pos' = 0 /\ UNCHANGED ref
        /\ (run > 0 => Chk("same-number-of-dumps", pos = Len(ref), <<pos, Len(ref)>>))
Scale(f) == RMax(RMaxAbs(f), RLit("1e-200"))
Show(w, f, z) ==
  /\ pos' = pos + 1 /\ UNCHANGED run
  /\ Chk("finite", RFinite(RMaxAbs(f)), w)
  /\ IF run = 1 THEN ref' = Append(ref, [w |-> w, f |-> f, z |-> z])
     ELSE /\ UNCHANGED ref
          /\ Chk("same-dump", pos < Len(ref) /\ ref[pos+1].w = w, w)
          /\ ChkRel("same-time", ref[pos+1].z, z, RLit("1e-14"))
          /\ ChkAll("same-" \o w, ref[pos+1].f, f, Rel (.) Scale(ref[pos+1].f))
TDump == Is("Dump") /\ Step /\ Show(Ev.w, RFile(Ev.file), Ev.z)
TVals == Is("Vals") /\ Step /\ Show(Ev.w, IF "file" \in DOMAIN Ev THEN RFile(Ev.file) ELSE Ev.x, Ev.z)
Passive == {"New", "SetZ", "SetField", "Load", "Code", "InitProp", "Fold", "Tune", "Propagate", "Ghosts", "Mark"}
TPassive == /\ More /\ Ev.e \in Passive /\ Step /\ UNCHANGED <<ref, pos, run>>
TEnd == /\ Accepted /\ Step /\ UNCHANGED <<ref, pos, run>>
        /\ Chk("same-number-of-dumps", pos = Len(ref) /\ pos > 0, <<pos, Len(ref)>>)
Next == TRun \/ TDump \/ TVals \/ TPassive \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
