---------------------------- MODULE MPStoreTrace ----------------------------
(* Recorded executions of the real MP_system must be behaviours of MPStore.  *)
EXTENDS MPStore, TraceUtil
VARIABLES tr, l
tvars == <<vars, tr, l>>

Ev == Traces[tr].ev[l]
\* thinning is blind: of the n macroparticles of any group chosen beforehand, n*t/N survive (six sigma)
Blind(g) == LET d == g.k * Ev.n - g.n * Ev.t IN d * d <= 36 * g.n * Ev.t * (Ev.n - Ev.t)

AsSet(s) == { s[i] : i \in DOMAIN s }
Post == Ev.post
Observed(M, r, s, c) ==    \* everything the public attributes show after the call
    /\ Len(Post.mp) = Post.n /\ Cardinality(M) = Post.n
    /\ mp' = M /\ ref' = r /\ spl' = s /\ cln' = c

Step ==
    LET M == AsSet(Post.mp)  r == Post.ref  s == Post.spl  c == Post.cln  P == AsSet(Ev.ps)
    IN /\ CASE Ev.op = "add"    -> Add(P)
            [] Ev.op = "file"   -> Add(P)
            [] Ev.op = "load"   -> Load(P)
            [] Ev.op = "unif"   -> AddUniform(Ev.dn, P) /\ Ev.inside
            [] Ev.op = "over"   -> Ev.raised /\ AddOverflow(Ev.k)
            [] Ev.op = "clean"  -> Clean(M, r, s, c)
            [] Ev.op = "soft"   -> Soft(Ev.t, M, r, s, c)
            [] Ev.op = "csoft"  -> CheckSoft(M, r, s, c)
            [] Ev.op = "casync" -> CheckAsync(M, r, s, c)
            [] Ev.op = "setref" -> SetRef(Ev.v, s, c)
            [] Ev.op = "read"   -> Ev.ok /\ Stutter
            [] Ev.op = "thin"   -> (\A j \in DOMAIN Ev.groups : Blind(Ev.groups[j])) /\ Stutter
       /\ Observed(M, r, s, c)

TraceInit == Init /\ tr \in 1..NTraces /\ l = 1 /\ Mark(tr, 1)
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ Step
             /\ TypeOK' /\ ChargeConserved'
             /\ tr' = tr /\ l' = l + 1 /\ Mark(tr, l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == Verdict
=============================================================================
