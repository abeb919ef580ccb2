---------------------------- MODULE ConfigTable -----------------------------
(* The parameters the code accepts, which of them have to be given and the      *)
(* documented defaults of the others (reference manual, chapter "Input files"). *)
(* Values are written as Python literals; @me, @mp and @qe are the electron     *)
(* mass, the proton mass and the elementary charge.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SimMandatory == {
   "Dh_sc", "Dt", "Dt_En_hist", "Dt_sc", "Dx_hist", "En_hist_max", "N_mp_after_regen", "N_mp_max", "N_mp_regen", "N_mp_regen_low", "Nbin_En_hist", "Nvx_regen", "Nvy_regen",
   "Nvz_regen", "Nx_regen", "Ny_regen", "beam_parameters_file", "fact_clean", "fact_split", "lam_th", "logfile_path", "machine_param_file", "nel_mp_ref_0", "progress_path",
   "r_center", "regen_hist_cut", "secondary_emission_parameters_file", "t_ON_regen_low", "t_end", "t_sc_ON"}
SimDefault == [
   secondary_beams_file_list |-> "()", additional_clouds_file_list |-> "()", cloud_name |-> "None", cloud_mass |-> "@me", cloud_charge |-> "-@qe", N_mp_soft_regen |-> "None",
   N_mp_after_soft_regen |-> "None", N_mp_async_regen |-> "None", N_mp_after_async_regen |-> "None", stopfile |-> "'stop'", filen_main_outp |-> "'Pyecltest.mat'",
   save_only |-> "None", flag_movie |-> "0", flag_sc_movie |-> "0", flag_cos_angle_hist |-> "True", cos_angle_width |-> "0.05", save_mp_state_time_file |-> "-1",
   flag_detailed_MP_info |-> "0", flag_hist_impact_seg |-> "1", flag_En_hist_seg |-> "False", flag_verbose_file |-> "False", flag_verbose_stdout |-> "False",
   dec_fac_secbeam_prof |-> "1", el_density_probes |-> "()", save_simulation_state_time_file |-> "-1", checkpoint_DT |-> "None", checkpoint_folder |-> "None",
   copy_main_outp_DT |-> "None", copy_main_outp_folder |-> "None", x_min_hist_det |-> "None", y_min_hist_det |-> "None", x_max_hist_det |-> "None", y_max_hist_det |-> "None",
   Dx_hist_det |-> "None", flag_lifetime_hist |-> "False", Nbin_lifetime_hist |-> "None", lifetime_hist_max |-> "None", Dt_lifetime_hist |-> "None", Dh_electric_energy |-> "None",
   sparse_solver |-> "'scipy_slu'", PyPICmode |-> "'FiniteDifferences_ShortleyWeller'", flag_reinterp_fields_at_substeps |-> "False", f_telescope |-> "None", target_grid |-> "None",
   N_nodes_discard |-> "None", N_min_Dh_main |-> "None", dec_fact_out |-> "1", save_mat_every |-> "1", t_ion |-> "-1", extract_sey |-> "True",
   step_by_step_custom_observables |-> "None", pass_by_pass_custom_observables |-> "None", save_once_custom_observables |-> "None", extract_ene_dist |-> "False",
   ene_dist_test_E_impact_eV |-> "None", Nbin_extract_ene |-> "None", factor_ene_dist_max |-> "None", flag_em_tracking |-> "False", cross_ion_definitions |-> "None"]
MachDefault == [
   chamb_type |-> "'ellip'", x_aper |-> "None", y_aper |-> "None", filename_chm |-> "None", filename_chm_photoem |-> "None", track_method |-> "'StrongBdip'", B |-> "0.0",
   bm_totlen |-> "-1", B_map_file |-> "None", fact_Bmap |-> "1.0", B0x |-> "None", B0y |-> "None", B0z |-> "None", B_zero_thrhld |-> "None", N_sub_steps |-> "1", B_multip |-> "[]",
   B_skew |-> "None", betafx |-> "None", betafy |-> "None", Dx |-> "0.0", Dy |-> "0.0", gas_ion_flag |-> "0", P_nTorr |-> "-1", sigma_ion_MBarn |-> "-1", Temp_K |-> "-1",
   unif_frac |-> "-1", E_init_ion |-> "-1", photoem_flag |-> "0", inv_CDF_refl_photoem_file |-> "-1", inv_CDF_all_photoem_file |-> "-1", k_pe_st |-> "-1", refl_frac |-> "-1",
   alimit |-> "-1", e_pe_sigma |-> "-1", e_pe_max |-> "-1", x0_refl |-> "-1", y0_refl |-> "-1", out_radius |-> "-1", phem_resc_fac |-> "0.9999",
   photoelectron_angle_distribution |-> "'undefined'", energy_distribution |-> "'gaussian'", flag_continuous_emission |-> "False", init_unif_flag |-> "0", Nel_init_unif |-> "None",
   E_init_unif |-> "0", x_max_init_unif |-> "None", x_min_init_unif |-> "None", y_max_init_unif |-> "None", y_min_init_unif |-> "None", filename_init_MP_state |-> "None",
   init_unif_edens_flag |-> "0", init_unif_edens |-> "None", E_init_unif_edens |-> "0.0", x_max_init_unif_edens |-> "None", x_min_init_unif_edens |-> "None",
   y_max_init_unif_edens |-> "None", y_min_init_unif_edens |-> "None", flag_assume_convex |-> "True"]
SecMandatory == {
   "E_th", "mufit", "scrub_en_th", "sigmafit"}
SecDefault == [
   Emax |-> "None", del_max |-> "None", R0 |-> "None", E0 |-> "None", s_param |-> "None", switch_model |-> "0", secondary_angle_distribution |-> "'undefined'",
   switch_no_increase_energy |-> "0", thresh_low_energy |-> "-1", sey_file |-> "None", flag_costheta_Emax_shift |-> "True", flag_costheta_delta_scale |-> "True",
   furman_pivi_surface |-> "None"]
BeamMandatory == {
   "b_spac", "beam_field_file", "energy_eV", "fact_beam", "filling_pattern_file", "flag_bunched_beam", "t_offs"}
BeamDefault == [
   q_part |-> "@qe", m0_part |-> "@mp", Dp_p |-> "0.0", nemittx |-> "None", nemitty |-> "None", x_beam_pos |-> "0.0", y_beam_pos |-> "0.0", sigmax |-> "-1", sigmay |-> "-1",
   save_beam_field_file_as |-> "None", Dh_beam_field |-> "None", Nx |-> "None", Ny |-> "None", nimag |-> "None", f_telescope_beam |-> "None", target_grid_beam |-> "None",
   N_nodes_discard_beam |-> "None", N_min_Dh_main_beam |-> "None", sigmaz |-> "-1", beam_long_prof_file |-> "None", Dx |-> "None", Dy |-> "None", betafx |-> "None",
   betafy |-> "None", coast_dens |-> "0.0"]
CloudMandatory == {
   "cloud_charge", "cloud_mass", "gas_ion_flag", "init_unif_edens_flag", "init_unif_flag", "photoem_flag", "switch_model"}
CloudOptional == {
   "save_only", "N_mp_max", "N_mp_regen", "N_mp_regen_low", "t_ON_regen_low", "N_mp_after_regen", "fact_split", "fact_clean", "nel_mp_ref_0", "Nx_regen", "Ny_regen", "Nvx_regen",
   "Nvy_regen", "Nvz_regen", "regen_hist_cut", "N_mp_soft_regen", "N_mp_after_soft_regen", "N_mp_async_regen", "N_mp_after_async_regen", "N_sub_steps", "P_nTorr", "sigma_ion_MBarn",
   "Temp_K", "unif_frac", "E_init_ion", "t_ion", "inv_CDF_refl_photoem_file", "inv_CDF_all_photoem_file", "k_pe_st", "refl_frac", "alimit", "e_pe_sigma", "e_pe_max", "x0_refl",
   "y0_refl", "out_radius", "phem_resc_fac", "photoelectron_angle_distribution", "energy_distribution", "flag_continuous_emission", "filename_chm_photoem", "Nel_init_unif",
   "E_init_unif", "x_max_init_unif", "x_min_init_unif", "y_max_init_unif", "y_min_init_unif", "filename_init_MP_state", "init_unif_edens", "E_init_unif_edens",
   "x_max_init_unif_edens", "x_min_init_unif_edens", "y_max_init_unif_edens", "y_min_init_unif_edens", "E_th", "sigmafit", "mufit", "Emax", "s_param", "del_max", "R0", "E0",
   "switch_no_increase_energy", "thresh_low_energy", "scrub_en_th", "secondary_angle_distribution", "sey_file", "flag_costheta_Emax_shift", "flag_costheta_delta_scale",
   "furman_pivi_surface", "Dx_hist", "r_center", "Dt_En_hist", "Nbin_En_hist", "En_hist_max", "flag_lifetime_hist", "Nbin_lifetime_hist", "lifetime_hist_max", "Dt_lifetime_hist",
   "flag_movie", "flag_sc_movie", "flag_cos_angle_hist", "cos_angle_width", "save_mp_state_time_file", "flag_detailed_MP_info", "flag_hist_impact_seg", "flag_En_hist_seg",
   "flag_verbose_file", "flag_verbose_stdout", "dec_fac_secbeam_prof", "el_density_probes", "save_simulation_state_time_file", "x_min_hist_det", "y_min_hist_det", "x_max_hist_det",
   "y_max_hist_det", "Dx_hist_det", "logfile_path", "progress_path"}
Default == SimDefault @@ MachDefault @@ SecDefault
Mandatory == SimMandatory \cup SecMandatory
Anywhere == {"pi"}       \* may be given, and repeated, anywhere

\* ---- complete decks of the test bench: what every file says unless the deck says otherwise
BaseSim == [machine_param_file |-> "'machine_parameters.input'", secondary_emission_parameters_file |-> "'secondary_emission_parameters.input'", beam_parameters_file |-> "'beam.beam'",
   logfile_path |-> "None", progress_path |-> "None", Dt |-> "1e-09", t_end |-> "2e-09", lam_th |-> "100.0", Dx_hist |-> "0.01", r_center |-> "0.01",
   Dt_En_hist |-> "2.5e-08", Nbin_En_hist |-> "10", En_hist_max |-> "1000.0", N_mp_max |-> "2000", N_mp_regen |-> "1500", N_mp_regen_low |-> "-1", N_mp_after_regen |-> "100",
   t_ON_regen_low |-> "10.0", fact_split |-> "1.5", fact_clean |-> "1e-06", regen_hist_cut |-> "0.0001", nel_mp_ref_0 |-> "100000.0", Nx_regen |-> "5", Ny_regen |-> "5",
   Nvx_regen |-> "5", Nvy_regen |-> "5", Nvz_regen |-> "5", Dt_sc |-> "1e-09", Dh_sc |-> "0.008", t_sc_ON |-> "0.0"]
BaseMach == [chamb_type |-> "'rect'", x_aper |-> "0.04", y_aper |-> "0.02", track_method |-> "'Boris'", betafx |-> "100.0", betafy |-> "80.0", bm_totlen |-> "17618", B |-> "0.5",
   B_zero_thrhld |-> "0.0001", P_nTorr |-> "30.0", sigma_ion_MBarn |-> "1.5", Temp_K |-> "300.0", unif_frac |-> "0.5", E_init_ion |-> "0.025",
   inv_CDF_refl_photoem_file |-> "'unif_no_file'", inv_CDF_all_photoem_file |-> "'unif_no_file'", k_pe_st |-> "0.0001", refl_frac |-> "0.2", alimit |-> "0.1", e_pe_sigma |-> "5.0", e_pe_max |-> "7.0",
   x0_refl |-> "-0.039", y0_refl |-> "0.0", out_radius |-> "0.09", photoelectron_angle_distribution |-> "'cosine_3D'",
   Nel_init_unif |-> "10000000.0", x_max_init_unif |-> "0.02", x_min_init_unif |-> "-0.02", y_max_init_unif |-> "0.01", y_min_init_unif |-> "-0.01",
   init_unif_edens_flag |-> "1", init_unif_edens |-> "10000000000.0", x_max_init_unif_edens |-> "0.02", x_min_init_unif_edens |-> "-0.02", y_max_init_unif_edens |-> "0.01", y_min_init_unif_edens |-> "-0.01"]
BaseSec == [Emax |-> "332.0", del_max |-> "1.7", R0 |-> "0.7", E_th |-> "35.0", sigmafit |-> "1.0828", mufit |-> "1.6636", scrub_en_th |-> "20.0", secondary_angle_distribution |-> "'cosine_3D'"]
BaseBeam == [energy_eV |-> "450000000000.0", sigmax |-> "0.001", sigmay |-> "0.002", beam_field_file |-> "'computeFD'", Dh_beam_field |-> "0.008", b_spac |-> "5e-09",
   fact_beam |-> "1000000000.0", flag_bunched_beam |-> "1", sigmaz |-> "0.1", t_offs |-> "2.5e-09", filling_pattern_file |-> "[1.0, 0.0, 1.0]"]
BaseCloud == [cloud_mass |-> "@me", cloud_charge |-> "-@qe", gas_ion_flag |-> "0", photoem_flag |-> "0", init_unif_flag |-> "1", init_unif_edens_flag |-> "0", switch_model |-> "0"]
NPass == 4               \* passes of the deck above, whatever Dt and t_end of the pool

\* other values a deck may give (the first ones are often the ones above)
Pool == [Dt |-> <<"1e-09", "5e-10">>, t_end |-> <<"2e-09", "3e-09">>, lam_th |-> <<"100.0", "1000.0">>, Dx_hist |-> <<"0.005", "0.02">>, r_center |-> <<"0.005", "0.002">>,
   Dt_En_hist |-> <<"1e-08", "5e-09">>, Nbin_En_hist |-> <<"20", "50">>, En_hist_max |-> <<"500.0", "2000.0">>, N_mp_max |-> <<"3000", "2500">>, N_mp_regen |-> <<"1400", "1900">>,
   N_mp_regen_low |-> <<"5", "20">>, N_mp_after_regen |-> <<"150", "300">>, t_ON_regen_low |-> <<"0.0", "1e-09">>, fact_split |-> <<"2.0", "1.2">>, fact_clean |-> <<"0.001", "1e-05">>,
   regen_hist_cut |-> <<"0.001", "0.01">>, nel_mp_ref_0 |-> <<"200000.0", "50000.0">>, Nx_regen |-> <<"6", "7">>, Ny_regen |-> <<"8", "9">>, Nvx_regen |-> <<"6", "11">>,
   Nvy_regen |-> <<"7", "12">>, Nvz_regen |-> <<"8", "13">>, Dt_sc |-> <<"2e-09", "None">>, Dh_sc |-> <<"0.01", "0.006">>, t_sc_ON |-> <<"1e-09", "2e-09">>,
   cloud_name |-> <<"'main'", "'first'">>, cloud_mass |-> <<"4.65e-26", "@mp">>, cloud_charge |-> <<"@qe", "-3e-19">>, N_mp_soft_regen |-> <<"1200", "None">>, N_mp_after_soft_regen |-> <<"600", "500">>,
   N_mp_async_regen |-> <<"1300", "None">>, N_mp_after_async_regen |-> <<"700", "650">>, stopfile |-> <<"'halt'", "'stop2'">>, filen_main_outp |-> <<"'out'", "'out.mat'">>,
   flag_cos_angle_hist |-> <<"False", "True">>, cos_angle_width |-> <<"0.1", "0.2">>, flag_detailed_MP_info |-> <<"1", "0">>, flag_hist_impact_seg |-> <<"0", "1">>,
   flag_En_hist_seg |-> <<"True", "False">>, flag_verbose_file |-> <<"True", "False">>, flag_verbose_stdout |-> <<"True", "False">>, dec_fac_secbeam_prof |-> <<"2", "1">>,
   checkpoint_DT |-> <<"1e-08", "-1">>, checkpoint_folder |-> <<"'ck'", "None">>, copy_main_outp_DT |-> <<"1e-08", "-1">>, copy_main_outp_folder |-> <<"'cp'", "None">>,
   x_min_hist_det |-> <<"-0.01", "-0.02">>, y_min_hist_det |-> <<"-0.01", "-0.02">>, x_max_hist_det |-> <<"0.01", "0.02">>, y_max_hist_det |-> <<"0.01", "0.02">>, Dx_hist_det |-> <<"0.002", "0.001">>,
   flag_lifetime_hist |-> <<"True", "False">>, Nbin_lifetime_hist |-> <<"20", "40">>, lifetime_hist_max |-> <<"1e-07", "2e-07">>, Dt_lifetime_hist |-> <<"1e-08", "2e-08">>,
   Dh_electric_energy |-> <<"0.01", "None">>, PyPICmode |-> <<"'FiniteDifferences_Staircase'", "'FFT_OpenBoundary'", "'FFT_PEC_Boundary'", "'Multigrid'">>,
   flag_reinterp_fields_at_substeps |-> <<"True", "False">>, dec_fact_out |-> <<"2", "3">>, save_mat_every |-> <<"2", "4", "3", "5">>, t_ion |-> <<"100.0", "5e-09">>, extract_sey |-> <<"False", "True">>,
   flag_em_tracking |-> <<"True", "False">>,
   chamb_type |-> <<"'ellip'", "'rect'", "'oval'">>, x_aper |-> <<"0.035", "0.045">>, y_aper |-> <<"0.018", "0.022">>, track_method |-> <<"'Boris'", "'StrongBdip'", "'StrongBgen'", "'BorisMultipole'", "'RungeKutta'">>,
   B |-> <<"-1", "0.1", "1.0">>, bm_totlen |-> <<"17618", "6283.0">>, B_map_file |-> <<"'analytic_quadrupole_unit_grad'", "None">>, fact_Bmap |-> <<"12.0", "0.5">>, B0x |-> <<"0.01", "0.02">>, B0y |-> <<"0.03", "0.5">>,
   B0z |-> <<"0.002", "0.001">>, N_sub_steps |-> <<"2", "3">>, B_multip |-> <<"[0.0, 12.0]", "[8.33]">>, B_skew |-> <<"[0.0, 3.0]", "[0.1]">>, betafx |-> <<"50.0", "None">>, betafy |-> <<"60.0", "None">>, Dx |-> <<"1.0", "2.0">>, Dy |-> <<"0.5", "0.2">>,
   gas_ion_flag |-> <<"1", "0">>, P_nTorr |-> <<"10.0", "5.0">>, sigma_ion_MBarn |-> <<"2.0", "1.0">>, Temp_K |-> <<"20.0", "5.0">>, unif_frac |-> <<"0.1", "0.9">>, E_init_ion |-> <<"0.1", "1.0">>,
   photoem_flag |-> <<"1", "'from_file'", "2", "0">>, k_pe_st |-> <<"0.001", "0.0005">>, refl_frac |-> <<"0.1", "0.5">>, alimit |-> <<"0.05", "0.2">>, e_pe_sigma |-> <<"2.0", "1.0">>, e_pe_max |-> <<"3.0", "1.0">>,
   x0_refl |-> <<"-0.03", "0.03">>, out_radius |-> <<"0.1", "0.2">>, phem_resc_fac |-> <<"0.999", "0.99">>, photoelectron_angle_distribution |-> <<"'normal_emission'", "'sideways'">>,
   energy_distribution |-> <<"'lognormal'", "'rect'", "'mono'", "'flat'">>, flag_continuous_emission |-> <<"True", "False">>, init_unif_flag |-> <<"1", "0">>, Nel_init_unif |-> <<"20000000.0", "5000000.0">>,
   E_init_unif |-> <<"1", "10.0">>, x_max_init_unif |-> <<"0.01", "0.03">>, init_unif_edens_flag |-> <<"0", "1">>, init_unif_edens |-> <<"20000000000.0", "5000000000.0">>, E_init_unif_edens |-> <<"1.0", "5.0">>,
   x_max_init_unif_edens |-> <<"0.01", "0.03">>, flag_assume_convex |-> <<"False", "True">>,
   Emax |-> <<"250.0", "280.0">>, del_max |-> <<"1.3", "2.0">>, R0 |-> <<"0.5", "1.0">>, E0 |-> <<"120.0", "200.0">>, s_param |-> <<"1.4", "1.3">>, E_th |-> <<"30.0", "50.0">>, sigmafit |-> <<"1.1", "0.9">>,
   mufit |-> <<"1.5", "1.8">>, scrub_en_th |-> <<"50.0", "0.0">>, switch_model |-> <<"'ECLOUD'", "'ACC_LOW'", "1", "'cos_low_ene'", "'flat_low_ene'", "'perfect_absorber'", "'ECLOUD_nunif'", "'ECLOUD3'">>,
   secondary_angle_distribution |-> <<"'normal_emission'", "'cosine_2D'", "'sideways'">>, switch_no_increase_energy |-> <<"2", "0">>, thresh_low_energy |-> <<"12.4", "5.0">>,
   flag_costheta_Emax_shift |-> <<"False", "True">>, flag_costheta_delta_scale |-> <<"False", "True">>]
BeamPool == [energy_eV |-> <<"7000000000000.0", "26000000000.0">>, sigmax |-> <<"-1", "0.0005", "0.003">>, sigmay |-> <<"-1", "0.0015", "0.003">>, beam_field_file |-> <<"'computeBE'", "'computeFD'", "-1">>,
   Dh_beam_field |-> <<"0.01", "None">>, fact_beam |-> <<"2000000000.0", "500000000.0">>, sigmaz |-> <<"0.2", "-1">>, t_offs |-> <<"1e-09", "2e-09">>, filling_pattern_file |-> <<"[1.0, 1.0, 0.0]", "[0.0, 1.0, 0.5]">>,
   q_part |-> <<"1.3e-17", "-@qe">>, m0_part |-> <<"3.34524385e-27", "@mp">>, Dp_p |-> <<"0.0003", "0.001">>, nemittx |-> <<"3.5e-06", "2e-06">>, nemitty |-> <<"3e-06", "1e-06">>, x_beam_pos |-> <<"0.001", "-0.002", "0.9", "0.0">>,
   y_beam_pos |-> <<"0.001", "-0.002">>, Nx |-> <<"20", "21">>, Ny |-> <<"20", "22">>, nimag |-> <<"5", "6">>, Dx |-> <<"0.7", "1.5", "0.0">>, Dy |-> <<"0.4", "0.3", "0.0">>, betafx |-> <<"30.0", "200.0">>, betafy |-> <<"40.0", "150.0">>,
   coast_dens |-> <<"1000000.0", "20000000.0">>]
=============================================================================
