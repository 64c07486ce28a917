----------------------------- MODULE SpectraMC -----------------------------
(* Laws of the spectra: they share out the whole of the mean square, every mode once; a shift of the field moves nothing
   between shells; a plane wave lives in its own shell; smoothing keeps the mean and never adds power. *)
EXTENDS Spectra
VARIABLE n, nb, x, dir
P == [L |-> RLit("1.7")]
G == [nx |-> n, lz |-> n, nr |-> 1, ng |-> 1]
Noise(seed) == TLCEval([i \in 1..n*n*n |-> RInt(((i*i*7 + seed*i*13 + 5*seed) % 19) - 9)])
Wv(w) == TLCEval([i \in 1..n*n*n |-> RCos((R2 (.) Pi (.) RInt(w[1]*XofS(G, i-1) + w[2]*YofS(G, i-1) + w[3]*ZofS(G, i-1))) (/) RInt(n))])
Init == /\ n \in {2, 4, 6} /\ nb \in {-1, 3, 11} /\ dir \in {<<0, 0, 0>>, <<1, 0, 1>>, <<1, 1, n \div 2>>}
        /\ (n = 6 => nb = -1)
        /\ x \in {Noise(1), Noise(4), Wv(dir)}
Next == UNCHANGED <<n, nb, x, dir>>
Spec == Init /\ [][Next]_<<n, nb, x, dir>>
N == n*n*n
Near(a, b) == RNear(a, b, RLit("1e-9") (.) (R1 (+) RAbs(b)))
Squares(y) == RSum(TLCEval([i \in 1..N |-> Sq(y[i])]))
Cube(L) == L (.) Sq(L)
Parseval == Near(RSum(Spectrum(P, G, nb, x)), (Cube(P.L) (.) Squares(x)) (/) (R2 (.) RInt(N)))
EveryMode == RSum(Modes(G, nb)) = RInt(N) /\ \A i \in 1..N : Shells(G, nb)[i] \in 0..(Count(G, nb) - 1)
Moved == [i \in 1..N |-> x[Site(G, (XofS(G, i-1) + dir[1]) % n, (YofS(G, i-1) + dir[2]) % n, (ZofS(G, i-1) + dir[3]) % n) + 1]]
Translation == \E a \in {Spectrum(P, G, nb, x)}, c \in {Spectrum(P, G, nb, TLCEval(Moved))} :
  \A i \in 1..Len(a) : RNear(a[i], c[i], RLit("1e-9") (.) (R1 (+) RMaxAbs(a)))
OwnShell == \E s \in {Spectrum(P, G, nb, Wv(dir))} : \E t \in {RSum(s)} :
  Near(s[Shell(G, nb, dir[1]*dir[1] + dir[2]*dir[2] + dir[3]*dir[3]) + 1], t)
Smooth == \A q \in {0, 1, 2}, len \in {"0.01", "0.3"} : \E y \in {Smoothed(P, G, q, RLit(len), x)} :
  /\ Near(RSum(y), RSum(x))
  /\ \E a \in {Spectrum(P, G, nb, x)}, c \in {Spectrum(P, G, nb, y)} : \A i \in 1..Len(a) : RLe(c[i], a[i] (+) RLit("1e-9"))
Never == TRUE
=============================================================================
