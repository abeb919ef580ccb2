----------------------------- MODULE StepTrace -----------------------------
(* The phases of the steps of real simulations.                               *)
EXTENDS Step, TraceUtil
VARIABLES k, l
Ev == Traces[k].ev
E == Ev[l]
Set(s) == { s[j] : j \in 1..Len(s) }
Cfg(c) == [nc |-> c.nc, nb |-> c.nb, gas |-> Set(c.gas), photo |-> Set(c.photo), cross |-> c.cross, reinterp |-> c.reinterp, saver |-> Set(c.saver),
           async |-> Set(c.async), tion |-> c.tion, times |-> c.times]
TInit == k \in 1..NTraces /\ l = 1 /\ Init({Cfg(Traces[k].cfg)})
Was(op) == E.op = op
TNext == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED k
         /\ CASE Was("call") -> Call(E.kind, E.tend)
              [] Was("ret") -> Ret
              [] Was("tick") -> IF E.b = 1 THEN Tick ELSE SecTick(E.b)
              [] Was("begin") -> Begin([t |-> E.t, new |-> E.new, kick |-> E.kick, skipc |-> E.skipc, skipr |-> E.skipr, empty |-> Set(E.empty)])
              \* fld: deviation from the fields at the particles; still: deviation from where the last phase (and the kick) left them
              [] Was("move") -> E.fld <= 5 /\ E.still <= 5 /\ Move(E.c, E.ppm, E.n)
              [] Was("impact") -> E.t = st.t /\ E.old /\ E.mine /\ E.held /\ Impact(E.c)
              [] Was("sey") -> E.ok /\ Sey(E.c)
              [] Was("gas") -> E.mine /\ Gas(E.c, E.b)
              [] Was("photo") -> E.ok /\ E.mine /\ Photo(E.c)
              [] Was("cross") -> E.ok /\ Cross
              [] Was("dep") -> Dep(E.c)
              [] Was("wit") -> E.mine /\ Wit(E.c)
              [] Was("clean") -> Clean(E.c)
              [] Was("regen") -> FullRegen(E.c)
              [] Was("soft") -> SoftRegen(E.c)
              [] Was("async") -> Async(E.c)
              [] Was("end") -> End
              [] Was("reload") -> run = Idle /\ ~open /\ E.t = E.was /\ E.t = Now /\ UNCHANGED vars
              [] Was("final") -> (\A c \in Clouds : E.n[c] = E.m[c] /\ Abs(E.dev[c]) <= 20) /\ UNCHANGED vars
              [] OTHER -> FALSE
Terminated == l > Len(Ev) /\ UNCHANGED <<vars, k, l>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<vars, k, l>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
