---------------------------- MODULE StringsTrace ----------------------------
(* Binds Strings to recorded runs: a field is loaded, searched for strings and walls any number of times, measured and
   dumped.  m and v are the field, mp the map the field must give. *)
EXTENDS Strings, TraceBase
B == INSTANCE Background
VARIABLES m, v, ct, p, geo, ft, mp
vars == <<m, v, ct, p, geo, ft, mp, k, l>>
Init == /\ k \in 1..Len(Cases) /\ l = 1 /\ m = <<>> /\ v = <<>> /\ ct = R0c /\ p = <<>> /\ geo = <<>> /\ ft = 0 /\ mp = <<>>
Eps == RLit(Case.eps)
TNew == /\ Is("New") /\ Step /\ p' = Ev.cosmos /\ geo' = [nx |-> Ev.Lx, lz |-> Ev.Lz, nr |-> Ev.ranks, ng |-> Ev.Ng]
        /\ ft' = Ev.ftype /\ ct' = Ev.z /\ m' = <<>> /\ v' = <<>> /\ mp' = <<>>
TLoad == /\ Is("Load") /\ Step /\ (IF Ev.w = "m" THEN m' = RFile(Ev.file) /\ UNCHANGED v ELSE v' = RFile(Ev.file) /\ UNCHANGED m)
         /\ mp' = <<>> /\ UNCHANGED <<ct, p, geo, ft>>
TFold == Is("Fold") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, mp>>
Slab(r) == <<r * geo.lz * Surf(geo) + 1, (r + 1) * geo.lz * Surf(geo)>>
Counts(w) ==
  /\ Chk("string-count", Ev.den = CountIn(w, 1, Len(w)), <<Ev.den, CountIn(w, 1, Len(w))>>)
  /\ Chk("chirality", Ev.chr = ChiralIn(w, 1, Len(w)), <<Ev.chr, ChiralIn(w, 1, Len(w))>>)
  /\ Chk("wall-count", Ev.wall = WallsIn(w, 1, Len(w)), <<Ev.wall, WallsIn(w, 1, Len(w))>>)
  /\ \A r \in 0..(geo.nr - 1) : LET s == Slab(r) IN
       Chk("counts-of-a-rank", <<Ev.den_local[r+1], Ev.chr_local[r+1], Ev.wall_local[r+1]>> = <<CountIn(w, s[1], s[2]), ChiralIn(w, s[1], s[2]), WallsIn(w, s[1], s[2])>>, r)
(* the coordinates come rank by rank, in any order within a rank *)
Offset(w, r) == IF r = 0 THEN 0 ELSE CountIn(w, 1, Slab(r-1)[2])
Coords(w, c) ==
  /\ Chk("coordinates-size", Len(c) = 3 * CountIn(w, 1, Len(w)), Len(c))
  /\ \A r \in 0..(geo.nr - 1) :
       LET s == Slab(r)  o == Offset(w, r)  n == CountIn(w, s[1], s[2])
           got == {<<c[3*(o+i)-2], c[3*(o+i)-1], c[3*(o+i)]>> : i \in 1..n}
       IN Chk("coordinates", got = Positions(geo, w, s[1], s[2]), <<r, n, Cardinality(got)>>)
Measured(w) ==
  /\ Chk("counts-kept-by-the-length-measurement", Ev.kept, 0)
  /\ (Ev.meas % 2 = 1 => ChkRel("length", Length(geo, m, w), Ev.len, Eps))
  /\ ((Ev.meas \div 2) % 2 = 1 /\ Ev.den > 0 =>
       \E M \in {Motion(geo, [m |-> m, v |-> v, R |-> B!ScaleFactor(p, ct), H |-> B!Hubble(p, ct), msa2 |-> B!SaxionM2(p, ct)], w)} :
         /\ ChkRel("gamma-sum", M.g, Ev.deng, Eps) /\ ChkRel("gamma", M.g2 (/) M.g, Ev.gam, Eps)
         /\ ChkRel("velocity", M.gv (/) M.g, Ev.vel, Eps) /\ ChkRel("velocity-squared", M.gv2 (/) M.g, Ev.vel2, Eps))
TStrings ==
  /\ Is("Strings") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft>>
  /\ IF ft # 1 THEN /\ Chk("no-strings-without-a-complex-field", Ev.den = 0 /\ Ev.chr = 0 /\ Ev.wall = 0, <<Ev.den, Ev.chr, Ev.wall>>) /\ mp' = <<>>
     ELSE \E ph \in {Phases(geo, m)} : \E lk \in {Links(geo, ph)} : \E w \in {DefectMap(geo, m)} :
          /\ Chk("generator-left-a-phase-undecided", Decided(geo, ph, lk, RLit("1e-6")), 0)
          /\ Chk("strings-have-ends", NoEnds(geo, w), 0) /\ Chk("strings-leave-the-box", Periodic(geo, w), 0)
          /\ Counts(w)
          /\ (Has("coords") => \E c \in {IFile(Ev.coords)} : Coords(w, c))
          /\ (Ev.meas > 0 => Measured(w))
          /\ mp' = w
TDump == /\ Is("Dump") /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, mp>>
         /\ IF Ev.w = "str" THEN \E d \in {IFile(Ev.file)} :
                 Chk("map", d = mp, IF Len(d) # Len(mp) THEN <<Len(d)>> ELSE LET i == CHOOSE i \in 1..Len(mp) : d[i] # mp[i] IN <<i - 1, d[i], mp[i]>>)
            ELSE IF Ev.w = "m" THEN \E d \in {RFile(Ev.file)} : ChkAll("field-kept", m, d, R0c)
            ELSE \E d \in {RFile(Ev.file)} : ChkAll("velocity-kept", v, d, R0c)
TEnd == Accepted /\ Step /\ UNCHANGED <<m, v, ct, p, geo, ft, mp>>
Next == TNew \/ TLoad \/ TFold \/ TStrings \/ TDump \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
