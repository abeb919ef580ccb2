------------------------------- MODULE StepMC -------------------------------
(* All orders of the phases of small simulations, all schedules of runs.       *)
EXTENDS Step, TLC
CONSTANTS NC, NB, T, News
VARIABLES log,   \* what has been done in this step
          bad    \* something was done twice, or after something that had to wait for it
Confs == { [nc |-> NC, nb |-> NB, gas |-> g, photo |-> {1}, cross |-> x, reinterp |-> r, saver |-> s, async |-> {NC}, tion |-> 2, times |-> [j \in 1..T |-> j]] :
             g \in {{}, {NC}}, x \in BOOLEAN, r \in BOOLEAN, s \in {{}, 1..NC} }
MCInit == Init(Confs) /\ log = {} /\ bad = FALSE
\* pairs <<p, q>>: p before q in the same cloud; in all clouds
Own == {<<"move", "impact">>, <<"impact", "sey">>, <<"impact", "gas">>, <<"impact", "photo">>, <<"clean", "regen">>, <<"clean", "soft">>, <<"regen", "soft">>} \cup
       {<<p, "async">> : p \in {"clean", "regen", "soft"}}
Making == {"move", "impact", "sey", "gas", "photo"}
Keeping == {"clean", "regen", "soft", "async"}
All == {<<p, q>> : p \in Making, q \in {"cross", "dep", "wit"} \cup Keeping} \cup {<<"cross", q>> : q \in {"dep", "wit"} \cup Keeping}
       \cup {<<"dep", q>> : q \in {"wit"} \cup Keeping} \cup {<<"wit", q>> : q \in Keeping}
Late(e, f) == <<e[1], f[1]>> \in All \/ (e[2] = f[2] /\ <<e[1], f[1]>> \in Own)
Note(e) == /\ log' = log \cup {e}
           /\ bad' = (bad \/ (e \in log /\ ~(e[1] = "move" /\ conf.reinterp)) \/ \E f \in log : Late(e, f))
Steps == { [t |-> Now, new |-> n, kick |-> FALSE, skipc |-> c, skipr |-> c, empty |-> e] : n \in News, c \in BOOLEAN, e \in {{}, {NC}} }
MCNext == \/ (\E te \in {None} \cup 0..T : Call("run", te)) /\ UNCHANGED <<log, bad>>
          \/ Ret /\ UNCHANGED <<log, bad>>
          \/ Tick /\ UNCHANGED <<log, bad>>
          \/ \E b \in Beams : SecTick(b) /\ UNCHANGED <<log, bad>>
          \/ \E s \in Steps : Begin(s) /\ log' = {} /\ UNCHANGED bad
          \/ \E c \in Clouds : IF conf.reinterp THEN Move(c, Full \div 2, 1) /\ Note(<<"move", c>>) ELSE Move(c, Full, 2) /\ Note(<<"move", c>>)
          \/ \E c \in Clouds : Impact(c) /\ Note(<<"impact", c>>)
          \/ \E c \in Clouds : Sey(c) /\ Note(<<"sey", c>>)
          \/ \E c \in Clouds, b \in Beams : Gas(c, b) /\ Note(<<"gas", c, b>>)
          \/ \E c \in Clouds : Photo(c) /\ Note(<<"photo", c>>)
          \/ Cross /\ Note(<<"cross", 0>>)
          \/ \E c \in Clouds : Dep(c) /\ Note(<<"dep", c>>)
          \/ \E c \in Clouds : Wit(c) /\ Note(<<"wit", c>>)
          \/ \E c \in Clouds : Clean(c) /\ Note(<<"clean", c>>)
          \/ \E c \in Clouds : FullRegen(c) /\ Note(<<"regen", c>>)
          \/ \E c \in Clouds : SoftRegen(c) /\ Note(<<"soft", c>>)
          \/ \E c \in Clouds : Async(c) /\ Note(<<"async", c>>)
          \/ End /\ UNCHANGED <<log, bad>>
MCSpec == MCInit /\ [][MCNext]_<<vars, log, bad>>
(* What the order guarantees *)
Order == ~bad
Is(e, want) == (e \in log) = want
Exactly == (~open /\ st.t # None /\ beat = Beams /\ st.t = Now) => \A c \in Clouds :
   /\ (c \notin st.empty => Is(<<"impact", c>>, TRUE) /\ Is(<<"move", c>>, TRUE) /\ mov[c] = IF conf.reinterp THEN 2 ELSE 1)
   /\ Is(<<"sey", c>>, TRUE)
   /\ \A b \in Beams : Is(<<"gas", c, b>>, c \in conf.gas /\ st.t < conf.tion)
   /\ Is(<<"photo", c>>, c \in conf.photo)
   /\ Is(<<"wit", c>>, c \in conf.saver)
   /\ Is(<<"clean", c>>, st.new /\ ~st.skipc)
   /\ Is(<<"regen", c>>, st.new /\ ~st.skipr)
   /\ Is(<<"soft", c>>, st.new /\ ~st.skipr)
   /\ (<<"dep", c>> \in log) = (<<"dep", 1>> \in log)
\* a run that has returned has not gone past what was asked for, nor stopped short of it
Stopped == [][run # Idle /\ run' = Idle => (i = N \/ (run.tend # None /\ Now >= run.tend))]_run
NotPast == [][i' # i => (run.tend = None \/ i = 0 \/ Now < run.tend)]_i
\* one step at a time, none skipped
Walk == [][i' = i \/ (i' = i + 1 /\ (i = 0 \/ (st.t = Now /\ ~open)))]_i
NotStuck == (open \/ run # Idle \/ i < N) => ENABLED MCNext
=============================================================================
