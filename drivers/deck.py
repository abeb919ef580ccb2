"""Small input decks for the real simulation (all files are written in a scratch folder)."""
import os

SIM = dict(
    machine_param_file='machine_parameters.input', secondary_emission_parameters_file='secondary_emission_parameters.input',
    beam_parameters_file='beam.beam', logfile_path=None, progress_path=None, stopfile='stop',
    Dt=1e-9, t_end=2e-9, dec_fact_out=1, lam_th=1e2, Dx_hist=1e-2, r_center=1e-2,
    Dt_En_hist=25e-9, Nbin_En_hist=10, En_hist_max=1000., t_ion=100.,
    N_mp_max=2000, N_mp_regen=1500, N_mp_regen_low=-1, N_mp_after_regen=100, t_ON_regen_low=10., fact_split=1.5,
    fact_clean=1e-6, regen_hist_cut=1e-4, N_mp_soft_regen=1200, N_mp_after_soft_regen=600, nel_mp_ref_0=1e5,
    Nx_regen=5, Ny_regen=5, Nvx_regen=5, Nvy_regen=5, Nvz_regen=5,
    Dt_sc=1e-9, Dh_sc=8e-3, t_sc_ON=0., sparse_solver='scipy_slu', flag_hist_impact_seg=1)
MACH = dict(chamb_type='rect', x_aper=4e-2, y_aper=2e-2, track_method='Boris', B0x=0., B0y=0., B0z=0., N_sub_steps=1,
            sigma_placeholder=None, betafx=100., betafy=100.)
SEC = dict(Emax=332., del_max=1.7, R0=0.7, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636,
           switch_no_increase_energy=0, thresh_low_energy=-1, scrub_en_th=20., secondary_angle_distribution='cosine_3D')
BEAM = dict(energy_eV=4.5e11, nemittx=None, nemitty=None, Dp_p=0., sigmax=1e-3, sigmay=1e-3, beam_field_file='computeFD',
            Dh_beam_field=8e-3, b_spac=5e-9, fact_beam=1e9, coast_dens=0., flag_bunched_beam=1, sigmaz=0.1, t_offs=2.5e-9,
            filling_pattern_file=[1., 0., 1.], beam_long_prof_file=None)


def write(folder, name, d):
    with open(os.path.join(folder, name), 'w') as f:
        for k, v in d.items():
            if k != 'sigma_placeholder':
                f.write('%s = %r\n' % (k, v))


def make(folder, sim={}, mach={}, sec={}, beam={}, extra={}):
    """extra: {filename: dict} for secondary beams / additional clouds.  A value of DROP removes a key."""
    os.makedirs(folder, exist_ok=True)
    for name, base, over in (('simulation_parameters.input', SIM, sim), ('machine_parameters.input', MACH, mach),
                             ('secondary_emission_parameters.input', SEC, sec), ('beam.beam', BEAM, beam)):
        d = dict(base)
        d.update(over)
        write(folder, name, {k: v for k, v in d.items() if v is not DROP})
    for name, d in extra.items():
        write(folder, name, d)
    return folder


class _Drop(object):
    pass


DROP = _Drop()
