----------------------------- MODULE ResumeTrace -----------------------------
(* Binds Resume to recorded processes: the trace of a case is the processes one after another. *)
EXTENDS Resume, TraceBase
vars == <<rvars, k, l>>
Init == k \in 1..Len(Cases) /\ l = 1 /\ RInit
Rel == RLit(Case.eps)
TRun == Is("Run") /\ Step /\ Start
TNew == Is("New") /\ Step /\ Create
TProp == Is("Propagate") /\ Step /\ Advance(Ev.n)
FileOf == IF Ev.restart = 1 THEN "axion.restart" ELSE "axion." \o ToString(Ev.index)
TWrite == Is("WriteConf") /\ Step /\ Save(FileOf)
TRead == Is("ReadConf") /\ Step /\ Load(FileOf)
SameArray(w, a, b) == ChkAll("same-" \o w, a, b, Rel (.) RMax(RMaxAbs(a), RLit("1e-200")))
SameReals(w, a, b) == \A i \in 1..Len(a) : ChkRel("same-" \o w, a[i], b[i], RLit("1e-14"))
TDump == /\ Is("Dump") /\ Step /\ See(Ev.w, RFile(Ev.file), SameArray)
TClock == /\ Is("Clock") /\ Step /\ See("clock", <<Ev.z, Ev.R, Ev.dz>>, SameReals)
Passive == {"SetZ", "SetField", "Load", "InitProp", "Fold", "Tune", "Mark"}
TPassive == More /\ Ev.e \in Passive /\ Step /\ UNCHANGED rvars
TEnd == Accepted /\ Step /\ UNCHANGED rvars
Next == TRun \/ TNew \/ TProp \/ TWrite \/ TRead \/ TDump \/ TClock \/ TPassive \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
