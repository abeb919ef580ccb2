------------------------------ MODULE ConfigGen -----------------------------
(* Random decks: the complete deck of the table with a few edits.               *)
EXTENDS ConfigTable, Json
CONSTANTS MaxEdits
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P1(n) == R(n) = 1
Pick(s) == s[R(Len(s))]
The(S) == CHOOSE y \in S : TRUE         \* random values are drawn once: The({F(x) : x \in {draw}})
One(S) == RandomElement(IF i >= 0 THEN S ELSE {})
Empty == [x \in {} |-> ""]
Without(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]
With(f, p, v) == (p :> v) @@ f
Fields == <<"sim", "mach", "sec">>
Where(d, p) == {f \in {"sim", "mach", "sec"} : p \in DOMAIN d[f]}
\* parameters that matter together are often given together
Groups == << <<"N_mp_soft_regen", "N_mp_after_soft_regen">>, <<"N_mp_async_regen", "N_mp_after_async_regen">>, <<"checkpoint_DT", "checkpoint_folder">>, <<"copy_main_outp_DT", "copy_main_outp_folder">>,
             <<"x_min_hist_det", "x_max_hist_det", "y_min_hist_det", "y_max_hist_det", "Dx_hist_det">>, <<"flag_lifetime_hist", "Nbin_lifetime_hist", "lifetime_hist_max", "Dt_lifetime_hist">>,
             <<"track_method", "B_map_file", "fact_Bmap">>, <<"track_method", "N_sub_steps">>, <<"track_method", "B", "bm_totlen">>, <<"track_method", "B0x", "B0y">>, <<"flag_em_tracking", "track_method">>, <<"gas_ion_flag", "P_nTorr", "t_ion">>, <<"photoem_flag", "k_pe_st", "energy_distribution">>,
             <<"switch_model", "s_param">>, <<"switch_model", "E0">>, <<"switch_model">>, <<"s_param", "E0">>, <<"PyPICmode">>, <<"init_unif_flag", "Nel_init_unif">>, <<"cos_angle_width">>, <<"Nbin_En_hist", "En_hist_max">>,
             <<"chamb_type">>, <<"save_mat_every">> >>
BeamGroups == << <<"sigmax", "nemittx">>, <<"sigmay", "nemitty", "Dp_p">>, <<"sigmax", "nemittx", "Dp_p", "Dx">>, <<"sigmax", "nemittx", "betafx">>, <<"sigmay", "nemitty", "betafy", "energy_eV">>,
                 <<"beam_field_file", "Nx", "Ny", "nimag">>, <<"x_beam_pos">>, <<"energy_eV">>, <<"m0_part", "sigmax", "nemittx">>, <<"sigmax", "nemittx", "Dp_p", "Dx">>, <<"sigmay", "nemitty", "Dp_p", "Dy">> >>
RECURSIVE SetAll(_, _, _)
SetMain(d, p, v) == LET w == Where(d, p)
                    IN IF w = {} THEN [d EXCEPT ![Pick(Fields)] = With(@, p, v)] ELSE [d EXCEPT ![CHOOSE f \in w : TRUE] = With(@, p, v)]
SetAll(d, ps, j) == IF j > Len(ps) THEN d ELSE The({SetAll(e, ps, j + 1) : e \in {IF P1(8) THEN d ELSE SetMain(d, ps[j], Pick(Pool[ps[j]]))}})
RECURSIVE SetBeam(_, _, _)
SetBeam(b, ps, j) == IF j > Len(ps) THEN b ELSE The({SetBeam(e, ps, j + 1) : e \in {IF P1(8) THEN b ELSE With(b, ps[j], Pick(BeamPool[ps[j]]))}})
CloudPool == DOMAIN Pool \cap (CloudMandatory \cup CloudOptional)
RECURSIVE SetCloud(_, _, _)
SetCloud(b, ps, j) == IF j > Len(ps) THEN b ELSE The({SetCloud(e, ps, j + 1) : e \in {IF P1(8) \/ ps[j] \notin CloudPool THEN b ELSE With(b, ps[j], Pick(Pool[ps[j]]))}})
RandCloudParams(n) == [j \in 1..n |-> One(CloudPool)]
NewCloud == The({SetCloud(e, g, 1) : e \in {SetCloud(BaseCloud, ps, 1) : ps \in {RandCloudParams(R(8) - 1)}}, g \in {Pick(Groups)}})
RandBeamParams(n) == [j \in 1..n |-> One(DOMAIN BeamPool)]
VaryBeam(b) == The({SetBeam(e, g, 1) : e \in {SetBeam(b, ps, 1) : ps \in {RandBeamParams(R(8))}}, g \in {Pick(BeamGroups)}})
\* values that are easily mistaken for no value
Falsy == [Dt_sc |-> "None", N_mp_regen_low |-> "0", flag_cos_angle_hist |-> "False", extract_sey |-> "False", flag_hist_impact_seg |-> "0", E_init_unif |-> "0", init_unif_edens_flag |-> "0",
          Dh_electric_energy |-> "None", cloud_name |-> "None", flag_costheta_Emax_shift |-> "False", flag_costheta_delta_scale |-> "False", t_sc_ON |-> "0.0", t_ON_regen_low |-> "0.0", checkpoint_DT |-> "None",
          N_mp_soft_regen |-> "None", N_mp_async_regen |-> "None", B0y |-> "None", Dx |-> "0.0", flag_detailed_MP_info |-> "0", scrub_en_th |-> "0.0", s_param |-> "None", E0 |-> "None", B_multip |-> "[]",
          x_max_init_unif |-> "None", x_max_init_unif_edens |-> "None", Emax |-> "0.0"]
Falsified(d, p, j) == CASE j = 1 -> [d EXCEPT !.kw = With(@, p, Falsy[p])]
                      [] j = 2 /\ Len(d.clouds) > 0 /\ p \in CloudMandatory \cup CloudOptional -> [d EXCEPT !.clouds = [@ EXCEPT ![1] = With(@, p, Falsy[p])]]
                      [] OTHER -> SetMain(d, p, Falsy[p])
DropFrom(d, q) == LET w == Where(d, q) IN IF w = {} THEN d ELSE [d EXCEPT ![CHOOSE x \in w : TRUE] = Without(@, q)]
Move(d, p, f, v) == LET w == Where(d, p) IN IF w = {} THEN SetMain(d, p, v)
                                           ELSE LET g == CHOOSE x \in w : TRUE IN LET val == d[g][p] IN [[d EXCEPT ![g] = Without(@, p)] EXCEPT ![f] = With(@, p, val)]
EditWith(d, k, p, f) ==
       CASE k <= -14 -> IF Len(d.beams) < 2 THEN [d EXCEPT !.beams = Append(@, VaryBeam(BaseBeam))] ELSE The({[d EXCEPT !.beams = [@ EXCEPT ![j] = VaryBeam(@)]] : j \in {R(2)}})
       [] k <= -4 -> The({Falsified(IF P1(3) THEN d ELSE SetMain(d, q, Pick(Pool[q])), q, R(3)) : q \in {One(DOMAIN Falsy)}})
       [] k <= 12 -> SetMain(d, p, Pick(Pool[p]))
       [] k <= 22 -> The({SetAll(d, g, 1) : g \in {Pick(Groups)}})
       [] k <= 26 -> Move(d, p, f, Pick(Pool[p]))
       [] k = 27 -> [d EXCEPT ![f] = With(@, p, Pick(Pool[p]))]                                  \* perhaps twice
       [] k = 28 -> The({DropFrom(d, q) : q \in {One(Mandatory)}})
       [] k = 29 -> [d EXCEPT ![f] = With(@, Pick(<<"Dt_ref", "sigmaz", "energy_eV", "N_mp_maxx">>), "1.0")]
       [] k <= 36 -> [d EXCEPT !.kw = With(@, p, Pick(Pool[p]))]
       [] k <= 38 -> [d EXCEPT !.kw = With(@, p, "'ignored'"), !.ign = @ \cup {p}]
       [] k = 39 -> [d EXCEPT !.kw = With(@, "dt_typo", "1.0"), !.ign = IF P1(2) THEN @ \cup {"dt_typo"} ELSE @]
       [] k <= 47 -> IF Len(d.clouds) < 2 THEN [d EXCEPT !.clouds = Append(@, NewCloud)] ELSE d
       [] k = 48 -> IF Len(d.clouds) > 0 THEN [d EXCEPT !.clouds = [@ EXCEPT ![1] = IF P1(2) THEN Without(@, One(CloudMandatory)) ELSE With(@, Pick(<<"Dt", "chamb_type", "B0y", "cloud_name", "wrong">>), "1.0")]] ELSE d
       [] k <= 52 -> [d EXCEPT !.beams = [@ EXCEPT ![1] = The({SetBeam(d.beams[1], g, 1) : g \in {Pick(BeamGroups)}})]]
       [] k = 53 -> The({[e EXCEPT !.beams = [@ EXCEPT ![1] = With(With(With(With(@, "sigmax", "-1"), "nemittx", "2e-06"), "Dp_p", "0.001"), "Dx", x)]] : e \in {SetMain(d, "Dx", Pick(Pool["Dx"]))}, x \in {Pick(BeamPool["Dx"])}})
       [] k <= 54 -> The({[d EXCEPT !.beams = [@ EXCEPT ![j] = With(@, q, Pick(BeamPool[q]))]] : q \in {One(DOMAIN BeamPool)}, j \in {R(Len(d.beams))}})
       [] k = 55 -> The({[d EXCEPT !.beams = [@ EXCEPT ![j] = IF P1(2) THEN Without(@, One(BeamMandatory)) ELSE With(@, Pick(<<"Dt", "sigma_x">>), "1.0")]] : j \in {R(Len(d.beams))}})
       [] k <= 57 -> IF Len(d.beams) < 2 THEN [d EXCEPT !.beams = Append(@, The({SetBeam(BaseBeam, g, 1) : g \in {Pick(BeamGroups)}}))] ELSE d
       [] k = 58 -> [[d EXCEPT ![f] = With(@, "pi", "3.14")] EXCEPT !.sec = With(@, "pi", "3.0")]
       [] k = 59 -> [[d EXCEPT ![f] = With(@, "_tmp", "4")] EXCEPT !.mach = With(@, "_tmp", "5")]
       [] OTHER -> The({DropFrom(d, q) : q \in {One({"chamb_type", "track_method", "B_zero_thrhld", "x_aper", "photoelectron_angle_distribution", "secondary_angle_distribution", "x_max_init_unif"})}})
Edit(d) == The({EditWith(d, k, p, f) : k \in {R(85) - 25}, p \in {One(DOMAIN Pool)}, f \in {Pick(Fields)}})
Base == [sim |-> BaseSim, mach |-> BaseMach, sec |-> BaseSec, kw |-> Empty, ign |-> {}, clouds |-> <<>>, beams |-> <<BaseBeam>>]
RECURSIVE Edits(_, _)
Edits(d, n) == IF n = 0 THEN d ELSE The({Edits(e, n - 1) : e \in {Edit(d)}})
Lists == << <<"['c1.cloud']", "['c1.cloud', 'c2.cloud']">>, <<"['b1.beam']">> >>
Listed(d) == LET e == IF d.clouds = <<>> THEN d ELSE [d EXCEPT !.sim = With(@, "additional_clouds_file_list", Lists[1][Len(d.clouds)])]
             IN IF Len(d.beams) = 1 THEN e ELSE [e EXCEPT !.sim = With(@, "secondary_beams_file_list", Lists[2][Len(d.beams) - 1])]
Init == i = 0 /\ c = [sim |-> "none"]
Next == /\ i' = i + 1
        /\ \E n \in {R(MaxEdits + 1) - 1} : \E d \in {Edits(Base, n)} : c' = Listed(d)
Spec == Init /\ [][Next]_vars
Emit == i = 0 \/ PrintT("BEH " \o ToJson(c))
=============================================================================
