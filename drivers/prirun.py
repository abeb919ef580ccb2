"""Small real simulations with primary sources: who is called when, for which beam."""
import os
import shutil
import numpy as np
import common
import deck
from common import q, quiet
from PyECLOUD import gas_ionization_class as gic
from PyECLOUD import gen_photoemission_class as gpc
import PyECLOUD.buildup_simulation as bs
import inspect

NS = 1e-9
NOW = {}
CLOUD = dict(cloud_mass=1.67e-27, cloud_charge=1.602176565e-19, photoem_flag=0, init_unif_flag=0, init_unif_edens_flag=0, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636,
             Emax=332., del_max=1.7, R0=.7, scrub_en_th=20., secondary_angle_distribution='cosine_3D', N_mp_max=20000, N_mp_regen=15000, N_mp_soft_regen=None, N_mp_after_soft_regen=None)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def hook(cls, f):
    orig = cls.__dict__.get('generate')
    if orig is None or hasattr(orig, '_hooked'):
        return
    sig = inspect.signature(orig)

    def generate(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        f(self, list(b.arguments.values())[1:])
        return orig(self, *a, **k)
    generate._hooked = True
    cls.generate = generate


def on_gas(g, A):
    sim = NOW['sim']
    MP, lam, dt, sx, sy, x, y = A[:7]
    beams = [sim.beamtim] + list(getattr(sim, 'sec_beams_list', None) or [])
    bt = [j + 1 for j, b in enumerate(beams) if close(sx, b.sigmax) and close(sy, b.sigmay) and close(lam, b.lam_t_curr) and close(dt, b.Dt_curr) and close(x, b.x_beam_pos) and close(y, b.y_beam_pos)]
    cl = [j + 1 for j, c in enumerate(sim.cloud_list) if c.MP_e is MP and c.resgasion is g]
    NOW['ev']['gas'].append([(cl + [0])[0], (bt + [0])[0]])


def on_photo(g, A):
    sim = NOW['sim']
    MP, lam, dt = A[:3]
    beams = [sim.beamtim] + list(getattr(sim, 'sec_beams_list', None) or [])
    cl = [j + 1 for j, c in enumerate(sim.cloud_list) if c.MP_e is MP and c.phemiss is g]
    NOW['ev']['pho'].append([(cl + [0])[0], int(close(lam, sum(b.lam_t_curr for b in beams)) and close(dt, sim.beamtim.Dt_curr))])


def one(c, n):
    fo = os.path.abspath('prirun')
    shutil.rmtree(fo, ignore_errors=True)
    os.makedirs(fo)
    gas = dict(P_nTorr=1e3, sigma_ion_MBarn=2., Temp_K=300., unif_frac=.3, E_init_ion=1.)
    pho = dict(photoem_flag=1, inv_CDF_refl_photoem_file='unif_no_file', k_pe_st=2e-5, refl_frac=.2, e_pe_sigma=5., e_pe_max=7., alimit=.05, x0_refl='right',
               y0_refl=0, out_radius=.06, phem_resc_fac=.9999, energy_distribution='gaussian', photoelectron_angle_distribution='cosine_3D', flag_continuous_emission=False)
    S = dict(extract_sey=False, t_end=c['steps'] * NS, t_ion=(c['tion'][0] + .5) * NS if c['tion'][0] >= 0 else -1., N_mp_max=20000, N_mp_regen=15000, filen_main_outp=os.path.join(fo, 'out.mat'), Dt_sc=5 * NS, lam_th=1.)
    mach = dict(init_unif_flag=1, Nel_init_unif=1e6, E_init_unif=1., x_max_init_unif=.01, x_min_init_unif=-.01, y_max_init_unif=.01, y_min_init_unif=-.01, gas_ion_flag=int(1 in c['gas']))
    for j, src in ((gas, 'gas'), (pho, 'photo')):
        if 1 in c[src]:
            mach.update(j)
    extra = {}
    if c['nc'] == 2:
        d = dict(CLOUD, gas_ion_flag=int(2 in c['gas']), t_ion=(c['tion'][1] + .5) * NS if c['tion'][1] >= 0 else -1.)
        d.update(gas if 2 in c['gas'] else {})
        d.update(pho if 2 in c['photo'] else {})
        extra['ions.cloud'] = d
        S['additional_clouds_file_list'] = ['ions.cloud']
    beam = dict(filling_pattern_file=[1., 1., 1., 0.], t_offs=2.5 * NS, x_beam_pos=1e-3, y_beam_pos=-2e-3, sigmay=2e-3)
    if c['nb'] == 2:
        extra['b2.beam'] = dict(deck.BEAM, filling_pattern_file=[1., 0., 1., 1.], t_offs=1.5 * NS, sigmax=3e-3, sigmay=4e-3, x_beam_pos=-3e-3, y_beam_pos=4e-3, fact_beam=7e8)
        S['secondary_beams_file_list'] = ['b2.beam']
    deck.make(fo, sim=S, mach=mach, beam=beam, extra=extra)
    ev = []
    with quiet():
        sim = NOW['sim'] = bs.BuildupSimulation(pyecl_input_folder=fo)
        hook(gic.residual_gas_ionization, on_gas)
        for cl in sim.cloud_list:
            if cl.phemiss is not None:
                for k in type(cl.phemiss).__mro__:
                    hook(k, on_photo)
        for j in range(c['steps']):
            if sim.beamtim.end_simulation():
                break
            sim.beamtim.next_time_step()
            for b in getattr(sim, 'sec_beams_list', None) or []:
                b.next_time_step()
            NOW['ev'] = dict(op='run', t=q(sim.beamtim.tt_curr, NS / 10), gas=[], pho=[])
            sim.sim_time_step()
            ev.append(NOW['ev'])
    shutil.rmtree(fo, ignore_errors=True)
    return dict(cfg=c, ev=ev)


def main(spec):
    np.random.seed(spec['seed'])
    return dict(traces=[one(c, n) for n, c in enumerate(spec['configs'])])


if __name__ == '__main__':
    common.main(main)
