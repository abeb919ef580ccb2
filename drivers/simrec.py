"""Small real simulations on a prescribed time axis, with everything the output should contain recorded at every step."""
import inspect
import os
import numpy as np
import scipy.io as sio
import deck
from common import q, quiet
from PyECLOUD.buildup_simulation import BuildupSimulation
from PyECLOUD import impact_management_class as imc
from PyECLOUD import pyecloud_saver as psv
from PyECLOUD import cross_ionization as cio
from scipy.constants import e as qe, m_e, m_p

TK = 2.**-32          # one tick: times are exact in binary


def profile(fn, ticks, lam):
    sio.savemat(fn, dict(t=np.array(ticks) * TK, lam_t_array=np.array(lam, float)), oned_as='row')


CLOUD2 = dict(cloud_mass=m_p, cloud_charge=qe, gas_ion_flag=0, photoem_flag=0, init_unif_flag=1, init_unif_edens_flag=0,
              switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636, Emax=332., del_max=1.7, R0=0.7, scrub_en_th=20.,
              secondary_angle_distribution='cosine_3D',
              Nel_init_unif=1.1e6, E_init_unif=2e5, x_max_init_unif=3e-2, x_min_init_unif=-1e-2, y_max_init_unif=1e-2,
              y_min_init_unif=-1.5e-2, N_mp_max=3000, N_mp_regen=2500, N_mp_soft_regen=None, N_mp_after_soft_regen=None)


def build(folder, ticks, B, dtref, lam=None, seed=0, clouds=1, sim={}, mach={}, sec={}, beam={}, cloud2={}, extra={},
          over={}, sub=4):
    """A real simulation whose steps start at the given ticks, with bunch passages every B ticks."""
    lam = list(lam if lam is not None else [0.] * len(ticks))
    S = dict(Dt=dtref * TK, t_end=0., lam_th=1e2, t_ion=-1., extract_sey=False, N_mp_max=3000, N_mp_regen=2500,
             N_mp_soft_regen=None, N_mp_after_soft_regen=None, nel_mp_ref_0=1e4, Dt_sc=None, logfile_path='log.txt', stopfile='stop_none',
             Dx_hist=1e-2)
    if clouds == 2:
        S['additional_clouds_file_list'] = ['ions.cloud']
        extra = dict(extra)
        extra['ions.cloud'] = dict(CLOUD2, **cloud2)
    S.update(sim)
    M = dict(track_method='Boris', N_sub_steps=sub, init_unif_flag=1, Nel_init_unif=1e6, E_init_unif=300., x_max_init_unif=3e-2,
             x_min_init_unif=-3e-2, y_max_init_unif=1.5e-2, y_min_init_unif=-1.5e-2)
    M.update(mach)
    Bm = dict(flag_bunched_beam=0, beam_long_prof_file='prof.mat', sigmaz=-1, fact_beam=1., b_spac=B * TK, t_offs=0.,
              filling_pattern_file=[1.])
    Bm.update(beam)
    deck.make(folder, sim=S, mach=M, sec=sec, beam=Bm, extra=extra)
    profile(os.path.join(folder, 'prof.mat'), ticks, lam)
    if seed is not None:
        np.random.seed(seed)
    with quiet():
        return BuildupSimulation(pyecl_input_folder=folder, **over)


def lin_hist(x, w, bias, d, n):
    """Reference: linear (cloud-in-cell) histogram."""
    h = np.zeros(n)
    fi = (np.asarray(x, float) - bias) / d
    i = np.floor(fi).astype(int)
    f = fi - i
    ok = i < n - 1
    np.add.at(h, i[ok], (w * (1 - f))[ok])
    np.add.at(h, i[ok] + 1, (w * f)[ok])
    h[n - 1] += np.sum(np.asarray(w)[~ok])          # the last bin collects everything beyond
    return h


PROJ = np.random.RandomState(7).uniform(-1, 1, (4, 20000))


def digest(a):
    """A few random projections of an array (floats)."""
    a = np.asarray(a, float).ravel()
    if a.size == 0:
        return [0., 0., 0., 0.]
    reps = int(np.ceil(a.size / 20000.))
    P = np.tile(PROJ, reps)[:, :a.size] if reps > 1 else PROJ[:, :a.size]
    return [float(v) for v in P.dot(a)]


ACC = ['nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'En_hist_line', 'cos_angle_hist', 'lifetime_hist_line',
       'nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg', 'seg_En_hist_lines']
LAST = ['Nel_impact_last_step', 'Nel_emit_last_step', 'En_imp_last_step_eV', 'En_emit_last_step_eV']
# what each channel of the output contains: output key -> (kind, source)
CHAN = dict(
    sbs=dict(i=['lam_t_array', 'Nel_timep', 'En_kin_eV_time', 'cen_density', 'N_mp_time', 'nel_mp_ref_time', 'el_dens_at_probes',
                'En_electric_eV_time', 'sbs_custom'],
             a=['Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time', 'Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion']),
    pbp=dict(i=['nel_hist', 'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass', 'N_mp_ref_pass', 'nel_hist_det', 'pbp_custom'],
             a=['nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'nel_hist_impact_seg', 'nel_hist_emit_seg',
                'energ_eV_impact_seg']),
    enh=dict(i=['all_Ekin_hist'], a=['En_hist', 'cos_angle_hist', 'En_hist_seg']),
    life=dict(i=[], a=['lifetime_hist']))
SRC = dict(Nel_imp_time='Nel_impact_last_step', Nel_emit_time='Nel_emit_last_step', En_imp_eV_time='En_imp_last_step_eV',
           En_emit_eV_time='En_emit_last_step_eV', En_hist='En_hist_line', lifetime_hist='lifetime_hist_line',
           En_hist_seg='seg_En_hist_lines')
TIMES = dict(sbs='t', pbp='t_hist', enh='t_En_hist', life='t_lifetime_hist')


def arr(o, name):
    v = getattr(o, name, None)
    return None if v is None else np.array(v, float).ravel().copy()


ACTIVE = []
_bt0 = imc.impact_management.backtrack_and_second_emiss
_w0 = psv.pyecloud_saver.witness


def _bt(im, *a, **kw):
    for rec in ACTIVE:
        k, c = rec.cloud_of('impact_man', im)
        if c is not None:
            pre = {n: arr(im, n) for n in ACC}
            r = _bt0(im, *a, **kw)
            inc = {n: arr(im, n) - pre[n] for n in ACC if pre[n] is not None}
            for n in LAST:
                inc[n] = np.array([float(getattr(im, n))])
            old = rec.inc.get(k)
            rec.inc[k] = inc if old is None else {n: old[n] + inc[n] for n in inc}
            return r
    return _bt0(im, *a, **kw)


def _witness(sv, MP_e, beamtim, spacech_ele, *a, **kw):
    for rec in ACTIVE:
        k, c = rec.cloud_of('pyeclsaver', sv)
        if c is not None:
            rec._snap(k, c, MP_e, beamtim, spacech_ele)
            r = _w0(sv, MP_e, beamtim, spacech_ele, *a, **kw)
            if k == len(rec.sim.cloud_list) - 1 and rec.after is not None:
                rec.after(rec.steps[-1])
            return r
    return _w0(sv, MP_e, beamtim, spacech_ele, *a, **kw)


_cg0 = cio.Cross_Ionization.generate


def _cg(ci, Dt, cloud_list, *a, **kw):
    """What cross-ionization adds to each cloud, and what it takes from the gas (flat cross sections of a dense gas)."""
    for rec in ACTIVE:
        if rec.sim.cloud_list and getattr(rec.sim, 'cross_ion', None) is ci:
            pre, use = [], {}
            for c in rec.sim.cloud_list:
                M = c.MP_e
                n = M.N_mp
                pre.append((n, float(np.sum(M.nel_mp[:n]))))
                v = np.sqrt(M.vx_mp[:n]**2 + M.vy_mp[:n]**2 + M.vz_mp[:n]**2)
                e = .5 * M.mass / qe * v * v
                for P in rec.xion.get(c.name, {}).values():
                    d = float(np.sum(np.where((e >= XE[0]) & (e <= XE[-1]), XS * 1e-4 * P['target_density'] * v * Dt * M.nel_mp[:n], 0.)))
                    for nm in P['products']:
                        use[nm] = use.get(nm, 0.) + d
            r = _cg0(ci, Dt, cloud_list, *a, **kw)
            for k, c in enumerate(rec.sim.cloud_list):
                M = c.MP_e
                inc = dict(Nel_cross_ion=float(np.sum(M.nel_mp[pre[k][0]:M.N_mp])), N_mp_cross_ion=float(M.N_mp - pre[k][0]), DN_cross_ion=use.get(c.name, 0.))
                old = rec.inc.setdefault(k, {})
                for nm in inc:
                    old[nm] = old.get(nm, 0.) + np.array([inc[nm]])
            return r
    return _cg0(ci, Dt, cloud_list, *a, **kw)


_cg.__signature__ = inspect.signature(_cg0)
cio.Cross_Ionization.generate = _cg
XE = np.logspace(-3, 6, 19)
XS = 1e-16


def gases(rng, names):
    """Cross-ionization processes between two clouds, with a flat cross section."""
    d = {}
    for j, nm in enumerate(names):
        for m in range(rng.randint(j, 3) if j else rng.randint(1, 3)):
            y = 2e-5 * (1 + rng.rand())
            d.setdefault(nm, {})['%s_%d' % (nm, m)] = dict(target_density=y * 1e25, products=[names[i] for i in ([0, 1], [1], [1, 0], [0])[rng.randint(0, 4)]],
                                                           cross_section='flat.mat', E_eV_init=float(rng.choice([0., 3.])), extract_sigma=False,
                                                           generate_equally=bool(rng.rand() < .5))
    return d


_bt.__signature__ = inspect.signature(_bt0)
_witness.__signature__ = inspect.signature(_w0)
imc.impact_management.backtrack_and_second_emiss = _bt
psv.pyecloud_saver.witness = _witness


class Recorder(object):
    """Wraps the public seams between the simulation, its impact managers and its savers."""

    def __init__(self, sim, probes=(), det=None, custom=False, energy=False, films=False, xion=None):
        self.xion = xion or {}
        self.sim, self.probes, self.det, self.custom, self.energy, self.films = sim, probes, det, custom, energy, films
        self.steps = []         # one dict per step: {t, new, pass, sc, clouds: [ {chan: {i: {key: array}, a: {key: array}}} ]}
        self.cur = None
        self.after = None       # called after every step
        self.inc = {}
        ACTIVE.append(self)

    def release(self):
        ACTIVE.remove(self)

    def cloud_of(self, attr, obj):
        for k, c in enumerate(self.sim.cloud_list):
            if getattr(c, attr) is obj:
                return k, c
        return None, None

    def _snap(self, k, c, MP, bt, sc):
        if k == 0:
            self.steps.append(dict(t=q(bt.tt_curr, TK), new=bool(bt.flag_new_bunch_pass), sc=bool(sc.last_recomputation_check),
                                   rho=digest(sc.rho) if self.films else None, efx=digest(sc.efx) if self.films else None,
                                   efy=digest(sc.efy) if self.films else None, clouds=[], **{'pass': int(bt.pass_numb)}))
        n = MP.N_mp
        x, y, w = MP.x_mp[:n], MP.y_mp[:n], MP.nel_mp[:n]
        v2 = MP.vx_mp[:n]**2 + MP.vy_mp[:n]**2 + MP.vz_mp[:n]**2
        ek = 0.5 * MP.mass / qe * v2
        im = c.impact_man
        rc = c.pyeclsaver.r_center
        i = dict(lam_t_array=[bt.lam_t_curr], Nel_timep=[w.sum()], En_kin_eV_time=[(ek * w).sum()],
                 cen_density=[w[x**2 + y**2 < rc**2].sum() / (np.pi * rc**2)], N_mp_time=[n], nel_mp_ref_time=[MP.nel_mp_ref],
                 el_dens_at_probes=[w[(x - p['x'])**2 + (y - p['y'])**2 < p['r_obs']**2].sum() / (np.pi * p['r_obs']**2) for p in self.probes],
                 nel_hist=lin_hist(x, w, im.bias_x_hist, im.Dx_hist, im.Nxg_hist),
                 N_mp_impact_pass=[getattr(im.chamb, 'N_mp_impact', 0)], N_mp_corrected_pass=[getattr(im.chamb, 'N_mp_corrected', 0)],
                 N_mp_pass=[n], N_mp_ref_pass=[MP.nel_mp_ref],
                 all_Ekin_hist=lin_hist(ek, w, 0., im.DEn_hist, im.Nbin_En_hist),
                 nel_hist_det=[], sbs_custom=[], pbp_custom=[], En_electric_eV_time=[])
        if self.det:
            d = self.det
            m = (x > d[0]) & (x < d[1]) & (y > d[2]) & (y < d[3])
            g = np.arange(d[0] - d[4], d[1] + d[4] + 0.1 * d[4], d[4])
            i['nel_hist_det'] = lin_hist(x[m], w[m], g[0], d[4], len(g))
        if self.custom:
            i['sbs_custom'] = [observe_sbs(self.sim)]
            i['pbp_custom'] = [observe_pbp(self.sim)]
        if self.energy:
            i['En_electric_eV_time'] = [sc.get_potential_electric_energy()]
        inc = self.inc.pop(k, {})
        a = {}
        for ch in CHAN:
            for key in CHAN[ch]['a']:
                s = SRC.get(key, key)
                a[key] = inc.get(s, np.zeros(0))
        rho = digest(c.rho) if self.films and c.rho is not None else None
        self.steps[-1]['clouds'].append(dict(i={kk: np.array(vv, float).ravel() for kk, vv in i.items()}, a=a, alive=n > 0, rho=rho,
                                             mp=[n] + digest(x) + digest(w) + digest(MP.vx_mp[:n])))


def observe_sbs(sim):
    return float(sum(np.sum(c.MP_e.x_mp[:c.MP_e.N_mp]) for c in sim.cloud_list))


def observe_pbp(sim):
    return float(sum(np.sum(np.abs(c.MP_e.y_mp[:c.MP_e.N_mp])) for c in sim.cloud_list))


def observe_once(sim):
    return np.array([1.5, 2.5])


def loadmat(fn):
    return sio.loadmat(fn, squeeze_me=False)


SCALAR = set(['lam_t_array', 'Nel_timep', 'En_kin_eV_time', 'cen_density', 'N_mp_time', 'nel_mp_ref_time', 'En_electric_eV_time', 'sbs_custom',
              'Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time', 'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass',
              'N_mp_ref_pass', 'pbp_custom', 'Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion', 't', 't_hist', 't_En_hist', 't_lifetime_hist'])


def column(d, key):
    """Output array as rows, one per sample."""
    v = np.asarray(d[key], float)
    if v.size == 0:
        return np.zeros((0, 0))
    if key in SCALAR:
        return v.reshape(-1, 1)
    if key == 'el_dens_at_probes':      # (probe, sample)
        return np.atleast_2d(v).T
    if key == 'En_hist_seg':            # (segment, sample, bin)
        return np.transpose(v, (1, 0, 2)).reshape(v.shape[1], -1)
    return v.reshape(v.shape[0], -1)
