----------------------------- MODULE InitialMC -----------------------------
(* What smoothing may do to any small field, and what the shapes with strings in them contain. *)
EXTENDS Initial, FiniteSets
VARIABLES g, f, a, shape
vars == <<g, f, a, shape>>
S == INSTANCE Strings
Cube == [nx |-> 2, lz |-> 2, nr |-> 1, ng |-> 1]
Long == [nx |-> 8, lz |-> 12, nr |-> 1, ng |-> 1]
Loops == {[kind |-> kd, r |-> r, at |-> z, num |-> 1] : kd \in {1, 2}, r \in {"0.2501", "0.3077"}, z \in {"0.4", "2.3", "11.6"}}
         \union {[kind |-> 10, r |-> "0", at |-> "0", num |-> n] : n \in {1, 2}}
Init == f = <<>> /\ shape = <<>> /\ g = <<>> /\ a \in {"0", "0.143", "1"}
Next == /\ f = <<>> /\ UNCHANGED a
        /\ \/ g' = Cube /\ shape' = <<>> /\ \E h \in [1..8 -> {0, 1}] : f' = TLCEval([i \in 1..16 |-> RInt(IF i % 2 = 1 THEN h[(i + 1) \div 2] ELSE 2 - h[i \div 2])])
           \/ a = "1" /\ \E s \in Loops : shape' = s /\ g' = Long
                /\ f' = Drawn(s.kind, Long, [L |-> R1], [kmax |-> s.num, kcr |-> RLit(s.at), mode0 |-> RLit(s.r), wave |-> <<R0, R0, R0>>])
Spec == Init /\ [][Next]_vars
Any2 == f # <<>> /\ shape = <<>>
Near(x, y) == RLe(RAbs(x (-) y), RLit("1e-12"))
Mean(x, o) == RSum([i \in 1..(Len(x) \div 2) |-> x[2*i - o]]) (/) RInt(Len(x) \div 2)
Once == Smoothed(g, RLit(a), f)
KeepsMean == Any2 => \E h \in {Once} : \A o \in {0, 1} : Near(Mean(h, o), Mean(f, o))
Within == Any2 => \E h \in {Once} : \E lo \in {RMinOf(f)} : \E hi \in {RMaxOf(f)} : \A i \in 1..Len(h) : RLe(lo (-) RLit("1e-12"), h[i]) /\ RLe(h[i], hi (+) RLit("1e-12"))
OnePartOnly == (Any2 /\ a = "1") => \E h \in {Once} : \A i \in 1..Len(h) : Near(h[i], f[i])
Moved(x) == [i \in 1..Len(x) |-> LET s == (i - 1) \div 2 IN x[2*Site(g, XofS(g, s), (YofS(g, s) + 1) % g.nx, (ZofS(g, s) + 1) % TotZ(g)) + 2 - (i % 2)]]
Equivariant == Any2 => \E x \in {Smoothed(g, RLit(a), Moved(f))} : \E y \in {Moved(Once)} : \A i \in 1..Len(x) : Near(x[i], y[i])
(* a loop is a loop: closed, in its plane, and there; straight strings run along z, as many one way as the other *)
Map == S!DefectMap(g, f)
Held == shape # <<>> =>
  \E mp \in {Map} :
    /\ S!NoEnds(g, mp)
    /\ \E i \in 1..Len(mp) : S!Pierced(mp[i]) > 0
    /\ shape.kind = 1 => \A i \in 1..Len(mp) : S!SignIn(mp[i], 1) = 0 /\ (S!Pierced(mp[i]) > 0 => LET d == RInt(ZofS(g, i - 1)) (-) RLit(shape.at) IN RLe(RAbs(d), R1) \/ RLe(RInt(11), RAbs(d)))
    /\ shape.kind = 2 => \A i \in 1..Len(mp) : (S!Pierced(mp[i]) > 0 => XofS(g, i - 1) \in {4, 3, 5})
    /\ shape.kind = 10 => (\A i \in 1..Len(mp) : S!SignIn(mp[i], 2) = 0 /\ S!SignIn(mp[i], 3) = 0) /\ Cardinality({i \in 1..Len(mp) : S!SignIn(mp[i], 1) = 1}) = Cardinality({i \in 1..Len(mp) : S!SignIn(mp[i], 1) = -1})
Lossless == shape # <<>> => \A i \in 1..(Len(f) \div 2) : Near(Sq(f[2*i - 1]) (+) Sq(f[2*i]), R1)
=============================================================================
