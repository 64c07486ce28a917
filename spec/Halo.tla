-------------------------------- MODULE Halo --------------------------------
(* The ghost exchange at message level: every rank starts two sends and two receives (split or together, in either
   order), messages are matched by (source, destination, tag) in order, a send's buffer is read when the message is
   matched (rendezvous), and Wait returns when all four requests have completed.  Between exchanges a rank modifies
   its interior (version number).  Checked: the layers a rank holds after Wait come from the right neighbour and
   from the same round, no message is ever matched to the wrong receive, and the protocol cannot block. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NR, Rounds
Rank == 0..(NR - 1)
Fwd(r) == (r + 1) % NR
Bck(r) == (r + NR - 1) % NR
VARIABLES pc, round, ver, sends, recvs, front, back
vars == <<pc, round, ver, sends, recvs, front, back>>
(* a request: [src, dst, tag, side, done]; side tells which buffer it reads or fills *)
S(r) == {[src |-> r, dst |-> Bck(r), tag |-> 2*r + 1, side |-> "first", rd |-> round[r]],
         [src |-> r, dst |-> Fwd(r), tag |-> 2*r,     side |-> "last",  rd |-> round[r]]}
R(r) == {[src |-> Fwd(r), dst |-> r, tag |-> 2*Fwd(r) + 1, side |-> "back",  rd |-> round[r]],
         [src |-> Bck(r), dst |-> r, tag |-> 2*Bck(r),     side |-> "front", rd |-> round[r]]}
Init == /\ pc = [r \in Rank |-> "idle"] /\ round = [r \in Rank |-> 1] /\ ver = [r \in Rank |-> 1]
        /\ sends = {} /\ recvs = {}
        /\ front = [r \in Rank |-> <<-1, "none", 0>>] /\ back = [r \in Rank |-> <<-1, "none", 0>>]
StartSend(r) == /\ pc[r] \in {"idle", "recv"} /\ round[r] <= Rounds
                /\ sends' = sends \cup S(r)
                /\ pc' = [pc EXCEPT ![r] = IF pc[r] = "idle" THEN "send" ELSE "both"]
                /\ UNCHANGED <<round, ver, recvs, front, back>>
StartRecv(r) == /\ pc[r] \in {"idle", "send"} /\ round[r] <= Rounds
                /\ recvs' = recvs \cup R(r)
                /\ pc' = [pc EXCEPT ![r] = IF pc[r] = "idle" THEN "recv" ELSE "both"]
                /\ UNCHANGED <<round, ver, sends, front, back>>
(* messages with equal (src, dst, tag) match in the order they were started *)
Oldest(q, Q) == \A o \in Q : (o.src = q.src /\ o.dst = q.dst /\ o.tag = q.tag) => q.rd <= o.rd
Match == \E s \in sends, v \in recvs :
  /\ s.src = v.src /\ s.dst = v.dst /\ s.tag = v.tag /\ Oldest(s, sends) /\ Oldest(v, recvs)
  /\ sends' = sends \ {s} /\ recvs' = recvs \ {v}
  /\ IF v.side = "front" THEN front' = [front EXCEPT ![v.dst] = <<s.src, s.side, ver[s.src]>>] /\ UNCHANGED back
                         ELSE back'  = [back  EXCEPT ![v.dst] = <<s.src, s.side, ver[s.src]>>] /\ UNCHANGED front
  /\ UNCHANGED <<pc, round, ver>>
Wait(r) == /\ pc[r] = "both"
           /\ ~ \E s \in sends : s.src = r
           /\ ~ \E v \in recvs : v.dst = r
           /\ pc' = [pc EXCEPT ![r] = "fresh"]
           /\ UNCHANGED <<round, ver, sends, recvs, front, back>>
Compute(r) == /\ pc[r] = "fresh"
              /\ ver' = [ver EXCEPT ![r] = @ + 1] /\ round' = [round EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "idle"]
              /\ UNCHANGED <<sends, recvs, front, back>>
Done == (\A r \in Rank : round[r] = Rounds + 1) /\ UNCHANGED vars
Next == (\E r \in Rank : StartSend(r) \/ StartRecv(r) \/ Wait(r) \/ Compute(r)) \/ Match \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FreshLayers == \A r \in Rank : pc[r] = "fresh" =>
  front[r] = <<Bck(r), "last", round[r]>> /\ back[r] = <<Fwd(r), "first", round[r]>>
Finishes == <>(\A r \in Rank : round[r] = Rounds + 1)
=============================================================================
