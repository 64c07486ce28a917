------------------------------ MODULE ReduceMC ------------------------------
(* Every field of zeros and ones on a small torus, made finer or coarser by a step: what no resampling may do. *)
EXTENDS Reduce, FiniteSets
VARIABLES g, f, k
vars == <<g, f, k>>
G == {[nx |-> 2, lz |-> 2, nr |-> 1], [nx |-> 2, lz |-> 1, nr |-> 3]}
Init == g \in G /\ k \in {<<2, 2>>, <<2, 3>>, <<1, 2>>} /\ f = <<>>                \* whole factors along x, y and along z
Ones(a) == Cardinality({i \in DOMAIN a : a[i] = 1})
Next == /\ f = <<>> /\ UNCHANGED <<g, k>>
        /\ \E a \in [1..Sites(g) -> {0, 1}] : (Sites(g) > 8 => Ones(a) <= 1) /\ f' = [i \in 1..Sites(g) |-> RInt(a[i])]
Spec == Init /\ [][Next]_vars
Big == [nx |-> g.nx * k[1], lz |-> TotZ(g) * k[2], nr |-> 1]
Tol == RLit("1e-12")
Near(a, b) == RLe(RAbs(a (-) b), Tol)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Mean(x) == RSum(x) (/) RInt(Len(x))
Fine == Finer(g, 1, f, Big.nx, TotZ(Big))
Flat(n) == [i \in 1..n |-> RInt(1)]
KeepsPoints == f = <<>> \/ LET h == Fine IN \A s \in 0..(Sites(g) - 1) : h[Site(Big, XofS(g, s) * k[1], YofS(g, s) * k[1], ZofS(g, s) * k[2]) + 1] = f[s + 1]
Within == f = <<>> \/ LET h == Fine IN \A i \in 1..Len(h) : RLe(RMinOf(f), h[i]) /\ RLe(h[i], RMaxOf(f))
MeanKept == f = <<>> \/ Near(Mean(Fine), Mean(f))
(* there and back again *)
Back == f = <<>> \/ Same(Coarser(Big, Flat(Sites(Big)), 1, Fine, g.nx, TotZ(g)), f)
(* a filter that leaves the mean alone keeps the mean on the same lattice, and is linear in what it is given *)
W == GaussFilter(g, <<RLit("0.3"), RLit("0.1"), RLit("0.7")>>)
FilterMean == f = <<>> \/ Near(Mean(FilteredReal(g, W, f)), Mean(f))
(* moving the field moves the result *)
Moved(h, x) == [i \in 1..Len(x) |-> LET s == i - 1 IN x[Site(h, XofS(h, s), (YofS(h, s) + 1) % h.nx, (ZofS(h, s) + 1) % TotZ(h)) + 1]]
Equivariant == f = <<>> \/ LET a == FilteredReal(g, W, Moved(g, f))  b == Moved(g, FilteredReal(g, W, f)) IN Same(a, b)
(* two components do not mix *)
Twice == [i \in 1..2*Len(f) |-> IF i % 2 = 1 THEN f[(i + 1) \div 2] ELSE RInt(1) (-) f[i \div 2]]
Apart == f = <<>> \/ LET h == Finer(g, 2, Twice, Big.nx, TotZ(Big))  a == Fine IN \A i \in 1..Len(a) : h[2*i - 1] = a[i] /\ Near(h[2*i], RInt(1) (-) a[i])
=============================================================================
