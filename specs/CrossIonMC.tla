----------------------------- MODULE CrossIonMC -----------------------------
(* Two clouds, electrons ("e") ionizing a gas into electrons and ions ("i"):    *)
(* every population, table and rounding over a few steps and output samples.    *)
EXTENDS CrossIon, TLC
CONSTANTS Tables, Refs, MaxSteps, MaxPop
VARIABLES P, refs, pop, ions, made, want, done, pend, saved, n
vars == <<P, refs, pop, ions, made, want, done, pend, saved, n>>
Tab == IF Tables = 1 THEN {[log |-> FALSE, e0 |-> 2, de |-> 3, s |-> <<1, 2, 0>>], [log |-> FALSE, e0 |-> 1, de |-> 8, s |-> <<2, 1>>], [log |-> TRUE, e0 |-> 1, de |-> 0, s |-> <<1, 2>>]} ELSE {}
Procs == {[T |-> t, prods |-> pr, equal |-> q] : t \in Tab, pr \in {<<"e", "i">>, <<"i">>, <<"i", "e">>}, q \in BOOLEAN}
Init == /\ P \in Procs /\ refs \in [{"e", "i"} -> Refs] /\ pop \in {<<[V |-> a, w |-> b]>> : a \in 0..5, b \in 1..2} /\ (P.T.log => pop[1].V # 3)
        /\ ions = <<>> /\ made = [c \in {"e", "i"} |-> 0] /\ want = 0 /\ done = [c \in {"e", "i"} |-> 0]
        /\ pend = [c \in {"e", "i"} |-> 0] /\ saved = [c \in {"e", "i"} |-> 0] /\ n = 0
HasProd(c) == \E j \in 1..Len(P.prods) : P.prods[j] = c
\* charge in units of 1 / (De * RefDen)
Unit(c) == RefNum(P, refs, c) * De(P.T)
RECURSIVE Rep(_, _, _)
Rep(ps, cs, j) == IF j > Len(ps) THEN <<>> ELSE [m \in 1..cs[j] |-> ps[j]] \o Rep(ps, cs, j + 1)
\* all new electrons start at rest here
New(c, cs) == [m \in 1..SumTo(LAMBDA j : cs[j], Len(pop)) |-> [V |-> 0, w |-> refs[c]]]
Lo(c, j) == Low(P, refs, c, pop[j], 1)
Unsure(c) == {j \in 1..Len(pop) : Lo(c, j) < High(P, refs, c, pop[j], 1)}
Choices(c) == {[j \in 1..Len(pop) |-> IF j \in DOMAIN f THEN Lo(c, j) + f[j] ELSE Lo(c, j)] : f \in [Unsure(c) -> {0, 1}]}
Step == /\ n < MaxSteps /\ Len(pop) <= MaxPop
        /\ \E fe \in Choices("e"), fi \in Choices("i") :
             /\ (P.equal => fe = fi)
             /\ LET N(c) == IF ~HasProd(c) THEN 0 ELSE SumTo(LAMBDA j : IF c = "e" THEN fe[j] ELSE fi[j], Len(pop)) IN
                /\ done' = [c \in {"e", "i"} |-> done[c] + N(c) * Unit(c)]
                /\ pend' = [c \in {"e", "i"} |-> pend[c] + N(c) * Unit(c)]
                /\ made' = [c \in {"e", "i"} |-> made[c] + N(c)]
                /\ pop' = IF HasProd("e") THEN pop \o New("e", fe) ELSE pop
                /\ ions' = IF HasProd("i") THEN ions \o Rep(pop, fi, 1) ELSE ions
             /\ want' = want + SumTo(LAMBDA j : Charge(P.T, pop[j], 1)[1] * RefDen(P), Len(pop))
        /\ n' = n + 1 /\ UNCHANGED <<P, refs, saved>>
Save == pend # [c \in {"e", "i"} |-> 0] /\ saved' = [c \in {"e", "i"} |-> saved[c] + pend[c]] /\ pend' = [c \in {"e", "i"} |-> 0] /\ UNCHANGED <<P, refs, pop, ions, made, want, done, n>>
Next == Step \/ Save
Spec == Init /\ [][Next]_vars
\* never further from the expected charge than one macroparticle per projectile and step
Close == \A c \in {"e", "i"} : HasProd(c) => LET d == done[c] - want IN IF n = 0 THEN d = 0 ELSE d < n * Unit(c) /\ d > -n * Unit(c)
Nothing == (\A j \in 1..Len(pop) : ~InRange(P.T, pop[j].V * pop[j].V)) => \A c \in {"e", "i"} : made[c] = 0
Pairs == P.equal /\ Len(P.prods) = 2 => made["e"] = made["i"] /\ done["e"] = done["i"]
Books == \A c \in {"e", "i"} : done[c] = saved[c] + pend[c]
Around == \A c \in {"e", "i"} : HasProd(c) => \A j \in 1..Len(pop) : High(P, refs, c, pop[j], 1) - Low(P, refs, c, pop[j], 1) <= 1
\* all the ions are where an electron was
Fast == \A j \in 1..Len(ions) : InRange(P.T, ions[j].V * ions[j].V)
Inv == Close /\ Nothing /\ Pairs /\ Books /\ Around /\ Fast
=============================================================================
