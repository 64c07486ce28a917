------------------------------- MODULE Resume -------------------------------
(* A run that is stopped and continued is the run that was not stopped.
   The history of a case is one fixed sequence of steps.  hist[n] is the state after n of them, fixed by whoever is
   seen there first.  A run advances its position by stepping; saving a checkpoint records the position under the
   name of the file; a process that ends loses everything but the files; reading a file puts the new process at the
   position recorded last under that name.  Whatever the way a run came to position n - any number of interruptions,
   any number of ranks before and after, restart files overwritten in between - what it shows there is hist[n]. *)
EXTENDS Integers, Sequences, TLC
VARIABLES hist,       \* position -> what is seen there
          pos,        \* position of the running process, -1 before it has a field
          files       \* name of a saved file -> position it holds
rvars == <<hist, pos, files>>
RInit == hist = <<>> /\ pos = -1 /\ files = <<>>
Start  == pos' = -1 /\ UNCHANGED <<hist, files>>                     \* a new process
Create == pos' = 0 /\ UNCHANGED <<hist, files>>
Advance(n) == pos >= 0 /\ pos' = pos + n /\ UNCHANGED <<hist, files>>
Save(name) == pos >= 0 /\ files' = (name :> pos) @@ files /\ UNCHANGED <<hist, pos>>
Load(name) == name \in DOMAIN files /\ pos' = files[name] /\ UNCHANGED <<hist, files>>
(* seeing thing w with value x here; Same compares with what was seen before *)
See(w, x, Same(_, _, _)) ==
  /\ pos >= 0 /\ UNCHANGED <<pos, files>>
  /\ LET key == <<pos, w>> IN
     IF key \in DOMAIN hist THEN Same(w, hist[key], x) /\ UNCHANGED hist
     ELSE hist' = (key :> x) @@ hist
=============================================================================
