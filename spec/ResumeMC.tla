------------------------------ MODULE ResumeMC ------------------------------
(* The design on its own: processes of a four-step history stop at any point, two file names are overwritten at
   will, and the state is the position itself.  Continuing never shows a state the uninterrupted run does not have,
   provided the file holds the whole state; with a file that forgets half of it (Partial) TLC finds the history. *)
EXTENDS Resume
CONSTANT Partial
VARIABLES state,      \* <<a, b>> : b depends on the whole past
          disk
N == 4
Names == {"axion.restart", "axion.00001"}
allvars == <<rvars, state, disk>>
Good(w, old, new) == old = new
F(s) == <<s[1] + 1, (s[2] * 3 + s[1]) % 17>>
Init == RInit /\ state = <<0, 0>> /\ disk = <<>>
Kill == pos >= 0 /\ Start /\ state' = <<0, 0>> /\ UNCHANGED disk
New  == pos = -1 /\ Create /\ state' = <<0, 1>> /\ UNCHANGED disk
Go   == pos < N /\ Advance(1) /\ state' = F(state) /\ UNCHANGED disk
Write == \E n \in Names : Save(n) /\ disk' = (n :> (IF Partial THEN <<state[1], 0>> ELSE state)) @@ disk /\ UNCHANGED state
Read  == \E n \in Names : pos = -1 /\ Load(n) /\ state' = disk[n] /\ UNCHANGED disk
Look  == See("s", state, Good) /\ UNCHANGED <<state, disk>>
Next == Kill \/ New \/ Go \/ Write \/ Read \/ Look
Spec == Init /\ [][Next]_allvars
(* what an uninterrupted run has at position n *)
RECURSIVE Run(_)
Run(n) == IF n = 0 THEN <<0, 1>> ELSE F(Run(n-1))
Consistent == pos >= 0 => state = Run(pos)
SeenOnce == \A key \in DOMAIN hist : hist[key] = Run(key[1])
=============================================================================
