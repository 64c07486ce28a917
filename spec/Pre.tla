-------------------------------- MODULE Pre --------------------------------
(* Pre-evolution: the first field is made at an earlier time zi/coe and relaxed up to zi by the ordinary evolution, under
   its own potential, friction and law lambda(R) = lambda(zi) (R(zi)/R)^e, after which every parameter of the run is what it
   was.  plan = <<>> outside a pre-evolution, otherwise what to restore and where to stop. *)
EXTENDS Evolve
VARIABLE plan
I == INSTANCE Initial
(* the background of the pre-evolution: the mass of the radial mode at zi is that of the run *)
PreOf(q, u) == [q EXCEPT !.lambda = LambdaOf(q, u.zi) (.) RPow(ScaleFactor(q, u.zi), u.e), !.lz2e = u.e,
                         !.gamma = IF RLt(R0, u.gam) THEN u.gam ELSE q.gamma]
(* u: kind, n, alpha, cored, given, coe, e, gam, pot, zi *)
Shape(q, t, u) ==
  LET d == I!SmoothN(geo, u.alpha, u.n, I!Drawn(u.kind, geo, q, u.given)) IN IF u.cored THEN I!Core(q, t, geo, d) ELSE d
Begin(u) == /\ plan = <<>> /\ ct' = u.zi (/) u.coe /\ p' = PreOf(p, u) /\ pot' = u.pot
            /\ \E w \in {Shape(p', ct', u)} : v' = w /\ m' = I!Scaled(w, ScaleFactor(p, ct'))
            /\ plan' = [was |-> p, pot |-> pot, zi |-> u.zi] /\ UNCHANGED <<geo, nb, ft>>
Left == plan.zi (-) ct
Short == RLt(RLit("1e-12") (.) plan.zi, Left)
Relax(wdz) == /\ plan # <<>> /\ Short
              /\ \E s \in {StepFrom(ct, RMin(StepOf(p, ft, geo.nx, ct, wdz), Left), m, v)} : m' = s[1] /\ v' = s[2] /\ ct' = s[3]
              /\ UNCHANGED <<p, geo, nb, pot, ft, plan>>
Done == /\ plan # <<>> /\ ~Short /\ p' = plan.was /\ pot' = plan.pot /\ plan' = <<>> /\ UNCHANGED <<m, v, ct, geo, nb, ft>>
=============================================================================
