"""The emission models with fixed settings."""
import numpy as np
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD
from PyECLOUD.sec_emission_model_accurate_low_ene import SEY_model_acc_low_ene
from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif, SEY_model_ECLOUD_non_unif_charging
from PyECLOUD.sec_emission_model_cos_low_ener import SEY_model_cos_le
from PyECLOUD.sec_emission_model_flat_low_ener import SEY_model_flat_le
from PyECLOUD.sec_emission_model_from_file import SEY_model_from_file
from PyECLOUD.sec_emission_model_furman_pivi import SEY_model_furman_pivi
from PyECLOUD.sec_emission_model_perfect_absorber import SEY_model_perfect_absorber
from PyECLOUD import electron_emission

electron_emission.time.sleep = lambda s: None     # (the cosine_2D distribution warns for three seconds)

SURFACE = {
    'use_modified_sigmaE': False, 'use_ECLOUD_theta0_dependence': False, 'use_ECLOUD_energy': False, 'conserve_energy': False,
    'exclude_rediffused': False, 'choice': 'poisson', 'M_cut': 10,
    'p_n': np.array([2.5, 3.3, 2.5, 2.5, 2.8, 1.3, 1.5, 1.5, 1.5, 1.5]), 'eps_n': np.array([1.5, 1.75, 1., 3.75, 8.5, 11.5, 2.5, 3., 2.5, 3.]),
    'p1EInf': 0.02, 'p1Ehat': 0.496, 'eEHat': 0., 'w': 60.86, 'p': 1., 'e1': 0.26, 'e2': 2., 'sigmaE': 2.,
    'p1RInf': 0.2, 'eR': 0.041, 'r': 0.104, 'q': 0.5, 'r1': 0.26, 'r2': 2.,
    'deltaTSHat': 1.6, 'eHat0': 276.8, 's': 1.54, 't1': 0.66, 't2': 0.8, 't3': 0.7, 't4': 1.}


def table(emax=400., n=201):
    e = np.linspace(0., emax, n)
    return dict(energy_eV=e, sey_true=1.5 * e / 200. * np.exp(1 - e / 200.), sey_elast=.7 * np.exp(-e / 20.), extrapolate_grad_true=np.array(0.), extrapolate_const_true=np.array(1.),
                extrapolate_grad_elast=np.array(0.), extrapolate_const_elast=np.array(0.))


def energies(noinc, eth, angle):
    return dict(E_th=eth, sigmafit=1.0828, mufit=1.6636, switch_no_increase_energy=noinc, thresh_low_energy=1., secondary_angle_distribution=angle)


def segments(n, charging=False):
    """What a polygonal chamber description says about its segments."""
    j = np.arange(n)
    d = dict(del_max_segments=np.where(j % 3 == 2, -1., 1. + .2 * (j % 3)), R0_segments=np.where(j % 4 == 3, -1., .5 + .1 * (j % 4)), Emax_segments=np.where(j % 5 == 4, -1., 200. + 20. * (j % 5)))
    if charging:
        d.update(flag_charging=(j % 2 == 0).astype(int), Q_max_segments=1e-9 * np.ones(n), EQ_segments=20. * np.ones(n), tau_segments=1e-3 * np.ones(n))
    return d


def make(name, chamb, noinc=0, eth=35., angle='cosine_3D'):
    k = energies(noinc, eth, angle)
    if name.startswith('ecloud'):
        k['secondary_angle_distribution'] = {'ecloud3d': 'cosine_3D', 'ecloud2d': 'cosine_2D', 'ecloudn': 'normal_emission'}[name]
        return SEY_model_ECLOUD(230., 1.7, .7, **k)
    if name == 'absorber':
        return SEY_model_perfect_absorber()
    if name.startswith('fp'):
        return SEY_model_furman_pivi(dict(SURFACE, exclude_rediffused=name == 'fp_norediff'), **k)
    if name == 'acc':
        return SEY_model_acc_low_ene(230., 1.7, .7, **k)
    if name == 'cos':
        return SEY_model_cos_le(230., 1.7, .7, **k)
    if name == 'flat':
        return SEY_model_flat_le(230., 1.7, .7, **k)
    if name == 'file':
        return SEY_model_from_file(table(), True, True, **k)
    if name == 'nunif':
        return SEY_model_ECLOUD_non_unif(chamb, 230., 1.7, .7, **k)
    if name == 'charging':
        return SEY_model_ECLOUD_non_unif_charging(chamb, 230., 1.7, .7, **k)
    raise ValueError(name)
