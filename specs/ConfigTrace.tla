----------------------------- MODULE ConfigTrace ----------------------------
(* Recorded outcomes of decks given to the real simulation: refused exactly     *)
(* when the model refuses them, and otherwise every object has the values the   *)
(* model gives it.                                                              *)
EXTENDS ConfigTable, TraceUtil
VARIABLES k, l
Is(v, S) == v \in S
Electron(C) == C.cloud_charge = "-@qe" /\ C.cloud_mass = "@me"
Models == {"0", "'ECLOUD'", "1", "'ACC_LOW'", "'cos_low_ene'", "'flat_low_ene'", "'perfect_absorber'", "'ECLOUD_nunif'"}
Angles == {"'cosine_3D'", "'cosine_2D'", "'normal_emission'"}
On(v) == v \in {"1", "True"}
PhotoOn(C) == C.photoem_flag \in {"1", "2", "'from_file'"}
ClashCloud(M, C) ==
  \/ C.switch_model \notin Models
  \/ C.switch_model = "'ECLOUD_nunif'"                                        \* only with segments described in a chamber file
  \/ C.s_param # "None" /\ C.switch_model \notin {"0", "'ECLOUD'", "'perfect_absorber'"}
  \/ C.E0 # "None" /\ C.switch_model = "'flat_low_ene'"
  \/ C.switch_model # "'perfect_absorber'" /\ C.secondary_angle_distribution \notin Angles
  \/ PhotoOn(C) /\ (C.photoelectron_angle_distribution \notin Angles \/ C.energy_distribution = "'flat'" \/ (C.energy_distribution = "'rect'" /\ C.e_pe_max = "1.0" /\ C.e_pe_sigma = "5.0"))
  \/ C.photoem_flag = "1" /\ M.x_aper = "0.035" /\ C.x0_refl = "-0.039"       \* outside the chamber
  \/ C.flag_lifetime_hist = "True" /\ (C.Nbin_lifetime_hist = "None" \/ C.lifetime_hist_max = "None" \/ C.Dt_lifetime_hist = "None")
  \/ M.track_method \in {"'StrongBdip'", "'StrongBgen'"} /\ ~Electron(C)
  \/ C.x_min_hist_det # "None" /\ "None" \in {C.x_max_hist_det, C.y_min_hist_det, C.y_max_hist_det, C.Dx_hist_det}
ClashBeam(M, B) ==
  \/ B.sigmax = "-1" /\ (B.betafx = "None" \/ B.nemittx = "None")
  \/ B.sigmay = "-1" /\ (B.betafy = "None" \/ B.nemitty = "None")
  \/ B.sigmaz = "-1"
  \/ B.x_beam_pos = "0.9"                                                     \* outside the chamber
  \/ B.beam_field_file \in {"-1", "'computeFD'"} /\ B.Dh_beam_field = "None"
  \/ B.beam_field_file = "'computeBE'" /\ (M.chamb_type # "'ellip'" \/ "None" \in {B.Nx, B.Ny, B.nimag} \/ B.x_beam_pos # "0.0" \/ B.y_beam_pos # "0.0")
AnyClash(M, cs, bs) ==
  \/ M.chamb_type \notin {"'rect'", "'ellip'"}
  \/ M.x_aper = "None"
  \/ M.track_method \notin {"'Boris'", "'StrongBdip'", "'StrongBgen'", "'BorisMultipole'"}
  \/ M.flag_em_tracking = "True" /\ M.track_method # "'BorisMultipole'"
  \/ M.PyPICmode \notin {"'FiniteDifferences_ShortleyWeller'", "'FiniteDifferences_Staircase'", "'FFT_OpenBoundary'", "'FFT_PEC_Boundary'"}
  \/ M.PyPICmode \in {"'FFT_OpenBoundary'", "'FFT_PEC_Boundary'"} /\ M.chamb_type # "'rect'"
  \/ M.flag_em_tracking = "True" /\ M.PyPICmode \in {"'FFT_OpenBoundary'", "'FFT_PEC_Boundary'"}
  \/ M.flag_reinterp_fields_at_substeps = "True" /\ M.track_method \in {"'StrongBdip'", "'StrongBgen'"}
  \/ M.track_method = "'StrongBgen'" /\ M.B_zero_thrhld = "None"
  \/ M.save_mat_every \in {"3", "5"}                                          \* not a divisor of NPass
  \/ M.checkpoint_DT \notin {"None", "-1"} /\ M.checkpoint_folder = "None"
  \/ M.copy_main_outp_DT \notin {"None", "-1"} /\ M.copy_main_outp_folder = "None"
  \/ \E i \in 1..Len(cs) : ClashCloud(M, cs[i])
  \/ \E i \in 1..Len(bs) : ClashBeam(M, bs[i])
C == INSTANCE Config WITH Clash <- AnyClash, deck <- <<>>, stage <- "", acc <- <<>>, cfg <- <<>>, clouds <- <<>>, beams <- <<>>

T == Traces[k]
Ev == T.ev
E == Ev[l]
Fn(f) == IF f = <<>> THEN [x \in {} |-> ""] ELSE f                 \* an empty function is written as an empty list
D == [sim |-> Fn(T.deck.sim), mach |-> Fn(T.deck.mach), sec |-> Fn(T.deck.sec), kw |-> Fn(T.deck.kw), ign |-> {T.deck.ign[j] : j \in 1..Len(T.deck.ign)}, clouds |-> T.deck.clouds, beams |-> T.deck.beams]

\* ---- what the objects of a cloud have to hold, in terms of its parameters
Bool(b) == IF b THEN "True" ELSE "False"
Stem(f) == IF f = "'out'" \/ f = "'out.mat'" THEN "out" ELSE "Pyecltest"
Name(M, i) == IF i > 0 THEN (IF i = 1 THEN "'c1'" ELSE "'c2'") ELSE IF M.cloud_name = "None" THEN "'default'" ELSE M.cloud_name
Outp(M, i) == CASE i = 1 -> "'" \o Stem(M.filen_main_outp) \o "_c1.mat'"
                [] i = 2 -> "'" \o Stem(M.filen_main_outp) \o "_c2.mat'"
                [] i = 0 /\ M.cloud_name = "'main'" -> "'" \o Stem(M.filen_main_outp) \o "_main.mat'"
                [] i = 0 /\ M.cloud_name = "'first'" -> "'" \o Stem(M.filen_main_outp) \o "_first.mat'"
                [] OTHER -> M.filen_main_outp
Direct == [MP_e_N_mp_regen_low |-> "N_mp_regen_low", MP_e_N_mp_regen |-> "N_mp_regen", MP_e_N_mp_after_regen |-> "N_mp_after_regen", MP_e_nel_mp_ref_0 |-> "nel_mp_ref_0", MP_e_fact_split |-> "fact_split",
           MP_e_fact_clean |-> "fact_clean", MP_e_regen_hist_cut |-> "regen_hist_cut", MP_e_charge |-> "cloud_charge", MP_e_mass |-> "cloud_mass", MP_e_Nx_reg |-> "Nx_regen", MP_e_Ny_reg |-> "Ny_regen",
           MP_e_Nvx_reg |-> "Nvx_regen", MP_e_Nvy_reg |-> "Nvy_regen", MP_e_Nvz_reg |-> "Nvz_regen", MP_e_N_mp_soft_regen |-> "N_mp_soft_regen", MP_e_N_mp_after_soft_regen |-> "N_mp_after_soft_regen",
           MP_e_N_mp_async_regen |-> "N_mp_async_regen", MP_e_N_mp_after_async_regen |-> "N_mp_after_async_regen", MP_e_flag_lifetime_hist |-> "flag_lifetime_hist",
           impact_man_Dx_hist |-> "Dx_hist", impact_man_scrub_en_th |-> "scrub_en_th", impact_man_Nbin_En_hist |-> "Nbin_En_hist", impact_man_En_hist_max |-> "En_hist_max", impact_man_cos_angle_width |-> "cos_angle_width",
           impact_man_flag_lifetime_hist |-> "flag_lifetime_hist", impact_man_Nbin_lifetime_hist |-> "Nbin_lifetime_hist", impact_man_lifetime_hist_max |-> "lifetime_hist_max", impact_man_flag_En_hist_seg |-> "flag_En_hist_seg",
           sey_mod_E_th |-> "E_th", sey_mod_sigmafit |-> "sigmafit", sey_mod_mufit |-> "mufit", sey_mod_switch_no_increase_energy |-> "switch_no_increase_energy", sey_mod_thresh_low_energy |-> "thresh_low_energy",
           sey_mod_secondary_angle_distribution |-> "secondary_angle_distribution", sey_mod_Emax |-> "Emax", sey_mod_del_max |-> "del_max", sey_mod_R0 |-> "R0", sey_mod_flag_costheta_delta_scale |-> "flag_costheta_delta_scale",
           sey_mod_flag_costheta_Emax_shift |-> "flag_costheta_Emax_shift", dynamics_N_sub_steps |-> "N_sub_steps",
           resgasion_unif_frac |-> "unif_frac", resgasion_P_nTorr |-> "P_nTorr", resgasion_sigma_ion_MBarn |-> "sigma_ion_MBarn", resgasion_Temp_K |-> "Temp_K", resgasion_E_init_ion |-> "E_init_ion",
           phemiss_k_pe_st |-> "k_pe_st", phemiss_refl_frac |-> "refl_frac", phemiss_alimit |-> "alimit", phemiss_out_radius |-> "out_radius", phemiss_resc_fac |-> "phem_resc_fac",
           phemiss_flag_continuous_emission |-> "flag_continuous_emission", get_energy_e_pe_sigma |-> "e_pe_sigma", get_energy_e_pe_max |-> "e_pe_max", phemiss_x0_refl |-> "x0_refl",
           pyeclsaver_r_center |-> "r_center", pyeclsaver_Dt_En_hist |-> "Dt_En_hist", pyeclsaver_flag_cos_angle_hist |-> "flag_cos_angle_hist", pyeclsaver_flag_lifetime_hist |-> "flag_lifetime_hist",
           pyeclsaver_Dt_lifetime_hist |-> "Dt_lifetime_hist", pyeclsaver_flag_detailed_MP_info |-> "flag_detailed_MP_info", pyeclsaver_dec_fac_secbeam_prof |-> "dec_fac_secbeam_prof",
           pyeclsaver_x_min_hist_det |-> "x_min_hist_det", pyeclsaver_x_max_hist_det |-> "x_max_hist_det", pyeclsaver_y_min_hist_det |-> "y_min_hist_det", pyeclsaver_y_max_hist_det |-> "y_max_hist_det",
           pyeclsaver_Dx_hist_det |-> "Dx_hist_det", cloud_t_ion |-> "t_ion", cloud_gas_ion_flag |-> "gas_ion_flag", cloud_photoem_flag |-> "photoem_flag"]
\* parameters of the whole simulation, the same for every cloud
Common == [chamb_x_aper |-> "x_aper", chamb_y_aper |-> "y_aper", dynamics_Dt |-> "Dt", dynamics_B_zero_thrhld |-> "B_zero_thrhld", pyeclsaver_dec_fact_out |-> "dec_fact_out", pyeclsaver_save_mat_every |-> "save_mat_every",
           pyeclsaver_stopfile |-> "stopfile", pyeclsaver_checkpoint_DT |-> "checkpoint_DT", pyeclsaver_checkpoint_folder |-> "checkpoint_folder", pyeclsaver_copy_main_outp_DT |-> "copy_main_outp_DT",
           pyeclsaver_copy_main_outp_folder |-> "copy_main_outp_folder", pyeclsaver_extract_sey |-> "extract_sey"]
Holds(M, P, i, a, v) ==
  CASE a \in DOMAIN Direct -> v = P[Direct[a]]
    [] a \in DOMAIN Common -> v = M[Common[a]]
    [] a = "MP_e_flag_soft_regen" -> v = Bool(P.N_mp_soft_regen # "None" /\ P.N_mp_after_soft_regen # "None")
    [] a = "MP_e_flag_async_regen" -> v = Bool(P.N_mp_async_regen # "None" /\ P.N_mp_after_async_regen # "None")
    [] a = "impact_man_flag_seg" -> v = Bool(On(P.flag_hist_impact_seg) /\ M.chamb_type = "'rect'")
    [] a = "sey_mod_E0" -> P.E0 # "None" => v = P.E0
    [] a = "sey_mod_s" -> P.s_param # "None" => v = P.s_param
    [] a = "cloud_name" -> v = Name(M, i)
    [] a = "pyeclsaver_filen_main_outp" -> v = Outp(M, i)
    [] OTHER -> TRUE
\* the magnetic field of a dipole, and the beam rigidity (0.1 T m) it can be computed from
Rigidity(e) == CASE e = "450000000000.0" -> 15010 [] e = "7000000000000.0" -> 233495 [] e = "26000000000.0" -> 867
Length(s) == IF s = "17618" THEN 17618 ELSE 6283
FieldOK(M, B, x) == LET want == CASE M.B = "-1" -> ((Rigidity(B.energy_eV) * 6283) \div Length(M.bm_totlen)) [] M.B = "0.1" -> 1000 [] M.B = "0.5" -> 5000 [] M.B = "1.0" -> 10000 [] OTHER -> -1
                    IN want < 0 \/ Abs(x - want) <= 2 + want \div 200
\* transverse sizes: beta * normalised emittance / (beta gamma) + (dispersion * momentum spread)^2, in um^2
BG10(B) == CASE B.energy_eV = "450000000000.0" -> 4796 [] B.energy_eV = "7000000000000.0" -> 74605 [] B.energy_eV = "26000000000.0" -> 277
Nano(s) == CASE s = "3.5e-06" -> 3500 [] s = "2e-06" -> 2000 [] s = "3e-06" -> 3000 [] s = "1e-06" -> 1000
Metre(s) == CASE s = "100.0" -> 100 [] s = "80.0" -> 80 [] s = "50.0" -> 50 [] s = "60.0" -> 60 [] s = "30.0" -> 30 [] s = "200.0" -> 200 [] s = "40.0" -> 40 [] s = "150.0" -> 150
Milli(s) == CASE s \in {"0.0", "None"} -> 0 [] s = "1.0" -> 1000 [] s = "2.0" -> 2000 [] s = "0.5" -> 500 [] s = "0.2" -> 200 [] s = "0.7" -> 700 [] s = "1.5" -> 1500 [] s = "0.4" -> 400 [] s = "0.3" -> 300
Spread(s) == CASE s = "0.0" -> 0 [] s = "0.0003" -> 30 [] s = "0.001" -> 100
Sq(n) == n * n
SizeOK(B, s, em, bet, disp, x) ==
  CASE s = "-1" -> LET m == IF B.m0_part = "@mp" THEN 1 ELSE 2      \* (the heavier ion of the pool has twice the mass, give or take 0.001 %)
                       w == (((Metre(bet) * Nano(em) * 1000) \div BG10(B)) * 10) * m + Sq((Milli(disp) * Spread(B.Dp_p)) \div 100)
                   IN Abs(x - w) <= 20 + w \div 300
    [] s = "0.001" -> x = 1000000 [] s = "0.002" -> x = 4000000 [] s = "0.003" -> x = 9000000 [] s = "0.0005" -> x = 250000 [] s = "0.0015" -> x = 2250000
BeamNames == BeamMandatory \cup DOMAIN BeamDefault
CloudNames == CloudMandatory \cup CloudOptional
Same(f, g, S) == \A p \in S \cap DOMAIN f : f[p] = g[p]
Orzero(v) == IF v = "None" THEN "0.0" ELSE v
ArgIs(f, a, v) == a \in DOMAIN f => f[a] = v
ArgsFrom(f, P, map) == \A a \in DOMAIN map : ArgIs(f, a, P[map[a]])
TrackerOK(M, P, f) == /\ \A a \in {"Dt", "B_map_file", "fact_Bmap", "B_multip", "B_skew", "B_zero_thrhld"} : ArgIs(f, a, M[a])
                      /\ M.track_method # "'StrongBdip'" => \A a \in {"B0x", "B0y", "B0z"} : a \in DOMAIN f => f[a] = M[a] \/ (M[a] = "None" /\ f[a] = "0.0")
                      /\ M.track_method \in {"'Boris'", "'BorisMultipole'"} => ArgIs(f, "N_sub_steps", P.N_sub_steps)
FillOK(P, f, g) == /\ ArgsFrom(f, P, [DNel |-> "Nel_init_unif", E_init |-> "E_init_unif", x_max |-> "x_max_init_unif", x_min |-> "x_min_init_unif", y_max |-> "y_max_init_unif", y_min |-> "y_min_init_unif"])
                   /\ (DOMAIN f # {}) = (P.init_unif_flag = "1")
                   /\ ArgsFrom(g, P, [n_ele |-> "init_unif_edens", E_init |-> "E_init_unif_edens", x_max |-> "x_max_init_unif_edens", x_min |-> "x_min_init_unif_edens", y_max |-> "y_max_init_unif_edens",
                                      y_min |-> "y_min_init_unif_edens"])
                   /\ (DOMAIN g # {}) = (P.init_unif_edens_flag = "1")
BeamArgs == [fact_beam |-> "fact_beam", coast_dens |-> "coast_dens", beam_charge |-> "q_part", beam_field_file |-> "beam_field_file", b_spac |-> "b_spac", sigmaz |-> "sigmaz", t_offs |-> "t_offs",
             filling_pattern_file |-> "filling_pattern_file", beam_long_prof_file |-> "beam_long_prof_file", Dh_beam_field |-> "Dh_beam_field", f_telescope_beam |-> "f_telescope_beam",
             x_beam_pos |-> "x_beam_pos", y_beam_pos |-> "y_beam_pos", Nx |-> "Nx", Ny |-> "Ny", nimag |-> "nimag", flag_bunched_beam |-> "flag_bunched_beam", save_beam_field_file_as |-> "save_beam_field_file_as"]
CloudOK(M, i) == LET P == C!Cloud(D, i)
                     r == E.clouds[i + 1]
                 IN /\ CloudNames \subseteq DOMAIN r.cfg
                    /\ Same(r.cfg, P, CloudNames)
                    /\ \A a \in DOMAIN r.at : Holds(M, P, i, a, r.at[a])
                    /\ r.n = (CASE P.N_mp_max = "2000" -> 2000 [] P.N_mp_max = "3000" -> 3000 [] P.N_mp_max = "2500" -> 2500)
                    /\ TrackerOK(M, P, Fn(r.arg.dyn))
                    /\ FillOK(P, Fn(r.arg.fill), Fn(r.arg.dens))
                    /\ r.B4 # -1 => FieldOK(M, C!Beam(D, D.beams[1]), r.B4)
BeamOK(j) == LET B == C!Beam(D, D.beams[j])
                 r == E.beams[j]
             IN /\ ArgsFrom(Fn(r.arg), B, BeamArgs)
                /\ ArgsFrom(Fn(r.arg), C!Main(D), [Dt |-> "Dt", t_end |-> "t_end", lam_th_beam_field |-> "lam_th"])
                /\ Same(r.cfg, B, BeamNames \ {"sigmax", "sigmay"})
                /\ Same(r.tim, B, (DOMAIN r.tim) \ {"sigmax", "sigmay"})
                /\ SizeOK(B, B.sigmax, B.nemittx, B.betafx, B.Dx, r.sx2)
                /\ SizeOK(B, B.sigmay, B.nemitty, B.betafy, B.Dy, r.sy2)
                /\ "sigmax" \in DOMAIN r.tim => r.tim.sigmax = r.cfg.sigmax
                /\ "sigmay" \in DOMAIN r.tim => r.tim.sigmay = r.cfg.sigmay
Built == /\ E.op = "built"
         /\ FALSE = C!Refused(D)
         /\ TRUE = LET M == C!Main(D)
            IN /\ DOMAIN M \subseteq DOMAIN E.main
               /\ Same(E.main, M, DOMAIN M)
               /\ E.npass = NPass
               /\ E.tsc = M.t_sc_ON
               /\ E.Dtsc = M.Dt_sc
               /\ ArgsFrom(Fn(E.sc), M, [Dh |-> "Dh_sc", Dt_sc |-> "Dt_sc", PyPICmode |-> "PyPICmode", sparse_solver |-> "sparse_solver", Dh_U_eV |-> "Dh_electric_energy"])
               /\ E.reinterp = M.flag_reinterp_fields_at_substeps
               /\ Len(E.clouds) = Len(D.clouds) + 1
               /\ \A i \in 0..Len(D.clouds) : CloudOK(M, i)
               /\ Len(E.beams) = Len(D.beams) /\ E.tims = Len(D.beams)
               /\ \A j \in 1..Len(D.beams) : BeamOK(j)
               /\ E.sey = IF M.extract_sey = "True" THEN Len(D.clouds) + 1 ELSE 0
               /\ E.ran = "ok"
Refusal == E.op = "refused" /\ TRUE = C!Refused(D)
TInit == k \in 1..NTraces /\ l = 1
TNext == l <= Len(Ev) /\ (Built \/ Refusal) /\ l' = l + 1 /\ UNCHANGED k
TSpec == TInit /\ [][TNext]_<<k, l>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
