------------------------------- MODULE CICMC -------------------------------
(* Every small grid, particle set and field.  The chosen scene is the state.   *)
EXTENDS CIC, TLC
CONSTANTS MaxN, MaxP, Ws
Fs == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<3, -2, 5, 1>>}
VARIABLES N, ps, ab
vars == <<N, ps, ab>>
Pos(n) == -2..(Q * (n - 1) + 2)
Init == N \in (2..MaxN) \X (2..MaxN) /\ ps = <<>> /\ ab \in Fs
Next == /\ Len(ps) < MaxP
        /\ \E X \in Pos(N[1]), Y \in Pos(N[2]), w \in Ws : ps' = Append(ps, <<X, Y, w>>)
        /\ UNCHANGED <<N, ab>>
Spec == Init /\ [][Next]_vars
I(p) == In(p, N)
Ns == 0..(N[1] - 1)
Ms == 0..(N[2] - 1)
R(n, m) == Rho(ps, I, n, m)
Grid(F(_, _)) == Sum(LAMBDA n : Sum(LAMBDA m : F(n - 1, m - 1), N[2]), N[1])
Total == Sum(LAMBDA j : IF I(ps[j]) THEN ps[j][3] ELSE 0, Len(ps))
\* the total weight and the centre of charge are kept
Conserved == Grid(R) = Q * Q * Total
Centred == /\ Grid(LAMBDA n, m : Q * n * R(n, m)) = Q * Q * Sum(LAMBDA j : IF I(ps[j]) THEN ps[j][3] * ps[j][1] ELSE 0, Len(ps))
           /\ Grid(LAMBDA n, m : Q * m * R(n, m)) = Q * Q * Sum(LAMBDA j : IF I(ps[j]) THEN ps[j][3] * ps[j][2] ELSE 0, Len(ps))
\* only nodes around the particles, never with the wrong sign
Local == \A j \in 1..Len(ps) : I(ps[j]) => \A n \in Ns, m \in Ms : W(ps[j], n, m) # 0 => Q * n - ps[j][1] \in (1 - Q)..(Q - 1) /\ Q * m - ps[j][2] \in (1 - Q)..(Q - 1)
Signs == (\A j \in 1..Len(ps) : ps[j][3] >= 0) => \A n \in Ns, m \in Ms : R(n, m) >= 0
\* gathering reproduces bilinear fields and is the dual of depositing
F(n, m) == ab[1] + ab[2] * n + ab[3] * m + ab[4] * n * m
Field == [n \in 1..N[1] |-> [m \in 1..N[2] |-> F(n - 1, m - 1)]]
Exact == \A j \in 1..Len(ps) : I(ps[j]) =>
           Gather(ps[j], Field) = Q * Q * ab[1] + Q * ab[2] * ps[j][1] + Q * ab[3] * ps[j][2] + ab[4] * ps[j][1] * ps[j][2]
Dual == Grid(LAMBDA n, m : R(n, m) * F(n, m)) = Sum(LAMBDA j : IF I(ps[j]) THEN ps[j][3] * Gather(ps[j], Field) ELSE 0, Len(ps))
\* particles do not influence each other
Additive == \A n \in Ns, m \in Ms : R(n, m) = Sum(LAMBDA j : Rho(<<ps[j]>>, I, n, m), Len(ps))
\* continuity: a particle on the line between two cells is the same seen from both
Both == \A j \in 1..Len(ps) : I(ps[j]) /\ ps[j][1] % Q = 0 /\ ps[j][1] > 0 => Share(ps[j][1], (ps[j][1] \div Q) - 1) = 0 /\ Share(ps[j][1], ps[j][1] \div Q) = Q
\* the histogram is the projection of the density, and loses nothing
Hs == [j \in 1..Len(ps) |-> <<ps[j][1], ps[j][3]>>]
HistAll == Sum(LAMBDA n : Hist(Hs, n - 1, N[1]), N[1]) = Q * Sum(LAMBDA j : ps[j][3], Len(ps))
HistIn == (\A j \in 1..Len(ps) : I(ps[j])) => \A n \in Ns : Q * Hist(Hs, n, N[1]) = Sum(LAMBDA m : R(n, m - 1), N[2])
Inv == Conserved /\ Centred /\ Local /\ Signs /\ Exact /\ Dual /\ Additive /\ Both /\ HistAll /\ HistIn
=============================================================================
