---------------------------- MODULE CrossIonTrace ---------------------------
(* Recorded cross-ionization of the real code.  Clouds are numbered 1..3;       *)
(* E.new[c] lists groups of new macroparticles of cloud c: from projectile j of *)
(* cloud pc, of charge nel (in sixths of a unit), tot in number over the rep    *)
(* copies of the projectile, at least lo and at most hi at each copy.           *)
EXTENDS CrossIon, TraceUtil
VARIABLES k, l, acc, left
\* exactly at the ends of the table, rounding decides whether the energy is inside
Sig01(T, e) == IF e > 0 /\ (e = T.e0 \/ e = Top(T)) THEN <<0, Sig(T, e)[2]>> ELSE Sig(T, e)
ChargeT(X, p, dt) == LET s == Sig01(X, p.V * p.V) IN <<s[1] * p.V * p.w * dt, s[2] * p.V * p.w * dt>>
T == Traces[k]
Ev == T.ev
E == Ev[l]
C == T.cfg
refs == [nm \in {"e", "i", "j"} |-> C.refs[CASE nm = "e" -> 1 [] nm = "i" -> 2 [] OTHER -> 3]]
Nm(c) == <<"e", "i", "j">>[c]
Has(P, c) == \E j \in 1..Len(P.prods) : P.prods[j] = Nm(c)
Nel6(P, c) == (6 * RefNum(P, refs, Nm(c))) \div RefDen(P)
Sq(p) == p.v[1] * p.v[1] + p.v[2] * p.v[2] + p.v[3] * p.v[3]
Root(n) == CHOOSE x \in 0..20 : x * x = n
Pt(p) == [V |-> Root(Sq(p)), w |-> p.w]
Pops == C.steps[E.n].pops
Dt == C.steps[E.n].dt
\* share of the gas left before the step (recorded, to within one unit)
Frac(P, pc, j) == IF P.thin THEN <<left[pc][j] - 1, left[pc][j] + 1>> ELSE <<1, 1>>
A(P, pc, j, p, c) == LET s == ChargeT(P.T, p, Dt)  f == Frac(P, pc, j) IN <<s[1] * RefDen(P) * f[1], s[2] * RefDen(P) * f[2]>>
B(P, c) == De(P.T) * RefNum(P, refs, Nm(c)) * P.tot
LowT(P, pc, j, p, c) == A(P, pc, j, p, c)[1] \div B(P, c)
HighT(P, pc, j, p, c) == (A(P, pc, j, p, c)[2] + B(P, c) - 1) \div B(P, c)
\* the processes of projectile cloud pc that make macroparticles of charge v in cloud c
Makers(pc, c, v) == {j \in 1..Len(C.procs[pc]) : Has(C.procs[pc][j], c) /\ Nel6(C.procs[pc][j], c) = v}
Sum2(F(_), S) == SumTo(LAMBDA j : IF j \in S THEN F(j) ELSE 0, 2)
Groups(c) == E.new[c]
RECURSIVE Isqrt(_, _)
Isqrt(n, x) == IF x * x >= n THEN x ELSE Isqrt(n, x + 1)
Band(rep) == Isqrt(7 * rep + 30, 0)       \* five standard deviations, at least
Mil(r, b) == IF b > 100000 THEN r \div (b \div 1000) ELSE (r * 1000) \div b
GroupOK(c, g) ==
  LET p == Pops[g.pc][g.j]  M == Makers(g.pc, c, g.nel) IN
  /\ M # {}
  /\ g.lo >= Sum2(LAMBDA j : LowT(C.procs[g.pc][j], g.pc, j, Pt(p), c), M)
  /\ g.hi <= Sum2(LAMBDA j : HighT(C.procs[g.pc][j], g.pc, j, Pt(p), c), M)
  /\ Cardinality(M) = 1 => LET j == CHOOSE j \in M : TRUE  P == C.procs[g.pc][j]  a == A(P, g.pc, j, Pt(p), c)  b == B(P, c)
                               \* whole part and rest of the expected number, to stay within small integers
                               e1 == (a[1] \div b) * p.rep + (Mil(a[1] % b, b) * p.rep) \div 1000
                               e2 == (a[2] \div b) * p.rep + (Mil(a[2] % b, b) * p.rep) \div 1000
                               slack == Band(p.rep) + p.rep \div 500 + 1 IN
                           g.tot >= e1 - slack /\ g.tot <= e2 + slack
\* whoever must create something did
Complete(c) == \A pc \in 1..3 : \A j \in 1..Len(Pops[pc]) : \A m \in 1..Len(C.procs[pc]) :
   Has(C.procs[pc][m], c) => LET v == Nel6(C.procs[pc][m], c) IN
     (\E g \in 1..Len(Groups(c)) : Groups(c)[g].pc = pc /\ Groups(c)[g].j = j /\ Groups(c)[g].nel = v)
     \/ (Sum2(LAMBDA x : LowT(C.procs[pc][x], pc, x, Pt(Pops[pc][j]), c), Makers(pc, c, v)) = 0
         /\ (Pops[pc][j].rep > 60 => Sum2(LAMBDA x : IF x = m THEN (A(C.procs[pc][x], pc, x, Pt(Pops[pc][j]), c)[1] * 20) \div B(C.procs[pc][x], c) ELSE 0, {m}) <= 4))
\* equal generation: the same at every projectile for all products
Tot(c, pc, j, v) == SumTo(LAMBDA g : IF Groups(c)[g].pc = pc /\ Groups(c)[g].j = j /\ Groups(c)[g].nel = v THEN Groups(c)[g].tot ELSE 0, Len(Groups(c)))
Cl(nm) == CASE nm = "e" -> 1 [] nm = "i" -> 2 [] OTHER -> 3
Equal == \A pc \in 1..3 : \A m \in 1..Len(C.procs[pc]) : LET P == C.procs[pc][m] IN
   P.equal /\ (\A x \in 1..Len(P.prods) : Makers(pc, Cl(P.prods[x]), Nel6(P, Cl(P.prods[x]))) = {m}) =>
     \A j \in 1..Len(Pops[pc]) : \A x \in 1..Len(P.prods) :
        Tot(Cl(P.prods[x]), pc, j, Nel6(P, Cl(P.prods[x]))) = Tot(Cl(P.prods[1]), pc, j, Nel6(P, Cl(P.prods[1])))
\* charge consumed from the gas, in units (De: times twelve)
Used12(pc, m) == LET P == C.procs[pc][m]  f == Frac(P, pc, m)
                     One(x, y) == SumTo(LAMBDA j : ((ChargeT(P.T, Pt(Pops[pc][j]), Dt)[x] * Pops[pc][j].rep) * (12 \div De(P.T))), Len(Pops[pc]))
                     U(x, y) == IF P.thin THEN SumTo(LAMBDA j : ((((ChargeT(P.T, Pt(Pops[pc][j]), Dt)[x] * f[y]) \div P.tot) * Pops[pc][j].rep) * (12 \div De(P.T))), Len(Pops[pc])) ELSE One(x, y)
                 IN IF P.thin THEN <<U(1, 1) - 12 * SumTo(LAMBDA j : Pops[pc][j].rep, Len(Pops[pc])), U(2, 2) + 12 * SumTo(LAMBDA j : Pops[pc][j].rep, Len(Pops[pc]))>> ELSE <<One(1, 1), One(2, 2)>>
Drops == (E.drop = <<>>) \/ \A pc \in 1..3 : \A m \in 1..Len(C.procs[pc]) : LET u == Used12(pc, m) IN 12 * E.drop[pc][m] >= u[1] - 12 - Abs(u[1]) \div 1000 /\ 12 * E.drop[pc][m] <= u[2] + 12 + Abs(u[2]) \div 1000
\* velocities: components in thousandths of half the thermal speed
Speeds(c) == \A g \in 1..Len(E.sp[c]) : LET s == E.sp[c][g] IN
   /\ s.max <= (IF s.full = 0 THEN 0 ELSE 1001)
   /\ (s.n >= 400 => \A x \in 1..3 : Abs(s.mean[x]) <= 3000 \div Isqrt(s.n, 0) + 1 /\ Abs(s.sq[x] - s.full) <= 1600 \div Isqrt(s.n, 0) + 1)
   /\ (s.n >= 5 /\ s.full > 0 => s.differ)
NewNel(c) == SumTo(LAMBDA g : Groups(c)[g].tot * Groups(c)[g].nel, Len(Groups(c)))
NewN(c) == SumTo(LAMBDA g : Groups(c)[g].tot, Len(Groups(c)))
Dn(c, x) == SumTo(LAMBDA pc : SumTo(LAMBDA m : IF Has(C.procs[pc][m], c) THEN Used12(pc, m)[x] ELSE 0, Len(C.procs[pc])), 3)
Scarce == \E pc \in 1..3 : \E m \in 1..Len(C.procs[pc]) : C.procs[pc][m].thin
TStep == /\ E.op = "step" /\ left' = E.left
         /\ E.same /\ E.orphans = 0
         /\ TRUE = \A c \in 1..3 : (\A g \in 1..Len(Groups(c)) : GroupOK(c, Groups(c)[g])) /\ Complete(c) /\ Speeds(c)
         /\ TRUE = Equal /\ TRUE = Drops
         /\ acc' = [c \in 1..3 |-> [nel |-> acc[c].nel + NewNel(c), n |-> acc[c].n + NewN(c), lo |-> acc[c].lo + Dn(c, 1), hi |-> acc[c].hi + Dn(c, 2)]]
\* what has been added since the last time it was asked
TSave == /\ E.op = "save" /\ UNCHANGED left
         /\ TRUE = \A c \in 1..3 : /\ E.nel[c] = acc[c].nel /\ E.num[c] = acc[c].n
                                   /\ 12 * E.dn[c] >= acc[c].lo - 12 - Abs(acc[c].lo) \div 1000 /\ 12 * E.dn[c] <= acc[c].hi + 12 + Abs(acc[c].hi) \div 1000
         /\ acc' = [c \in 1..3 |-> [nel |-> 0, n |-> 0, lo |-> 0, hi |-> 0]]
\* the cross-sections read back: s in millionths of the table's unit
TSigma == /\ E.op = "sigma" /\ UNCHANGED <<acc, left>>
          /\ TRUE = \A j \in 1..Len(E.V) : LET P == C.procs[E.pc][E.m]  s == Sig01(P.T, E.V[j] * E.V[j])  d == De(P.T) IN
                      E.s[j] * d >= 1000 * s[1] - d /\ E.s[j] * d <= 1000 * s[2] + d
                      /\ \A x \in 1..Len(E.got) : Abs(E.got[x][j] - E.s[j]) <= E.tol
\* constructing the processes consumes no gas and creates nothing
TQuiet == E.op = "quiet" /\ E.ok /\ UNCHANGED <<acc, left>>
TInit == /\ k \in 1..NTraces /\ l = 1 /\ left = Traces[k].left
         /\ acc = [c \in 1..3 |-> [nel |-> 0, n |-> 0, lo |-> 0, hi |-> 0]]
TNext == l <= Len(Ev) /\ (TStep \/ TSave \/ TSigma \/ TQuiet) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<k, l, acc, left>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<k, l, acc, left>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
