"""Real simulations on TLC's schedules of runs; every phase of every step is recorded at the public seams between the objects."""
import glob
import inspect
import os
import shutil
import numpy as np
import scipy.io as sio
import common
import deck
import simrec as sr
from common import q, quiet
from PyECLOUD import buildup_simulation as bs
from PyECLOUD import beam_and_timing as bat
from PyECLOUD import space_charge_class as scc
from PyECLOUD import MP_system as mps
from PyECLOUD import impact_management_class as imc
from PyECLOUD import pyecloud_saver as psv
from PyECLOUD import gas_ionization_class as gic
from PyECLOUD import gen_photoemission_class as gpc
from PyECLOUD import cross_ionization as cion

T = sr.TK
NOW = dict(rec=None, depth=0)
ORIG = {}


def args_of(f, a, kw):
    b = inspect.signature(f).bind(*a, **kw)
    b.apply_defaults()
    return b.arguments


def P(A, i):
    """The i-th argument (whatever its name)."""
    v = list(A.values())
    return v[i] if i < len(v) else None


def wrap(cls, name, before=None, after=None, nest=False):
    """Calls before(rec, self, arguments) and after(rec, self, arguments, before's answer) around a method of the package."""
    f = cls.__dict__.get(name)
    if f is None or (cls, name) in ORIG:
        return
    ORIG[(cls, name)] = f

    def g(self, *a, **kw):
        rec = NOW['rec']
        if rec is None or (rec.inside and not nest):
            return f(self, *a, **kw)
        A = args_of(f, (self,) + a, kw)
        if not nest:
            rec.inside = True
        try:
            k = before(rec, self, A) if before else None
            r = f(self, *a, **kw)
            if after:
                after(rec, self, A, k)
        finally:
            if not nest:
                rec.inside = False
        return r
    g.__name__ = name
    setattr(cls, name, g)


class Rec(object):
    def __init__(self, sim):
        self.ev, self.inside, self.sim = [], False, sim
        self.start = {}         # position and velocity of each cloud at the beginning of the step
        self.last = {}
        self.args = {}

    def say(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def cloud(self, **kw):
        for k, c in enumerate(self.sim.cloud_list):
            for a, o in kw.items():
                if getattr(c, a) is o:
                    return k + 1
        return 0

    def beams(self):
        return [self.sim.beamtim] + list(self.sim.sec_beams_list)

    def beam(self, b):
        return ([j + 1 for j, o in enumerate(self.beams()) if o is b] + [0])[0]


def orig(obj, name):
    for c in type(obj).__mro__:
        if (c, name) in ORIG:
            return ORIG[(c, name)].__get__(obj)
    return getattr(obj, name)


def state(M):
    n = M.N_mp
    return [np.array(a[:n]) for a in (M.x_mp, M.y_mp, M.z_mp, M.vx_mp, M.vy_mp, M.vz_mp)]


def fields(rec, M):
    """The fields the macroparticles are in: of the clouds, of the beams."""
    sc = rec.sim.spacech_ele
    n = M.N_mp
    z = np.zeros(n)
    if rec.sim.flag_em_tracking:
        F = [np.array(a, float) + z for a in orig(sc, 'get_sc_em_field')(M)]
    else:
        F = [np.array(a, float) + z for a in orig(sc, 'get_sc_eletric_field')(M)] + [z, z, z]
    B = [z, z]
    for b in rec.beams():
        e = orig(b, 'get_beam_eletric_field')(M)
        B = [B[0] + np.array(e[0], float), B[1] + np.array(e[1], float)]
    return F, B


def off(a, b, scale):
    """Largest difference in millionths of the scale (which each entry of a and b contributes to)."""
    a, b = np.asarray(a, float) + np.zeros(np.shape(b)), np.asarray(b, float)
    if b.size == 0:
        return 0
    d = np.max(np.abs(a - b))
    if not np.isfinite(d):
        return 999999999
    return q(d / max(np.max(np.abs(b)), scale, 1e-300), 1e-6) if d > 0 else 0


def pre_move(rec, dyn, A):
    M = P(A, 1)
    c = rec.cloud(MP_e=M)
    s = state(M)
    F, B = fields(rec, M)
    kick = rec.args.get('kick')
    E = [P(A, 2), P(A, 3)]
    Bn = [P(A, j) for j in (5, 6, 7)]
    full = [F[0] + B[0], F[1] + B[1]]
    big = max([np.max(np.abs(v)) for v in F[:2] + B if v.size] + [0.])
    want = F[:2] if kick else full
    dev = max(off(e, w, big) for e, w in zip(E, want))
    devB = max(off(0. if b is None else b, w, 0.) for b, w in zip(Bn, F[2:]))
    devz = off(P(A, 4), np.zeros(len(s[0])), 0.)
    was = rec.last.get(c)
    if was is None or len(was[0]) != len(s[0]):
        still = 999999999
    else:
        v = [a - b for a, b in zip(s, was)]
        if kick and not rec.kicked.get(c):
            fac = rec.args['dtk'] * M.charge / M.mass
            v[3], v[4] = v[3] - B[0] * fac, v[4] - B[1] * fac
            ref = max([1e-9 * np.max(np.abs(w)) if w.size else 0. for w in (was[3], was[4])])
            still = max([q(np.max(np.abs(u)) / max(np.max(np.abs(B[j] * fac)), ref, 1e-300), 1e-6) if u.size else 0 for j, u in enumerate(v[3:5])] +
                        [0 if not np.any(v[j]) else 999999999 for j in (0, 1, 2, 5)])
        else:
            still = 0 if not any(np.any(u) for u in v) else 999999999
    rec.kicked[c] = True
    return c, dev + devB + devz, still


def post_move(rec, dyn, A, k):
    c, dev, still = k
    if P(A, 8) is not None:
        n, dt = P(A, 9), P(A, 8) * P(A, 9)
    elif len(A) > 8:
        n, dt = dyn.N_sub_steps, dyn.Dt
    else:
        n, dt = 1, dyn.Dt
    whole = rec.args['dtk'] if rec.args.get('cust') else rec.sim.beamtim.Dt_curr
    rec.last[c] = state(P(A, 1))
    rec.say('move', c=c, ppm=q(dt / whole, 1e-6), n=int(n), fld=dev, still=still)


def pre_step(rec, sim, A):
    bt = A['beamtim_obj'] if A['beamtim_obj'] is not None else sim.beamtim
    rec.last = {k + 1: state(c.MP_e) for k, c in enumerate(sim.cloud_list)}
    rec.start = dict(rec.last)
    rec.kicked = {}
    cust = A['N_sub_steps_custom'] is not None
    rec.args = dict(kick=A['kick_mode_for_beam_field'], cust=cust, dtk=A['Dt_substep_custom'] * A['N_sub_steps_custom'] if cust else 0)
    rec.say('begin', t=q(bt.tt_curr, T), new=bool(bt.flag_new_bunch_pass), kick=bool(A['kick_mode_for_beam_field']), skipc=bool(A['skip_MP_cleaning']),
            skipr=bool(A['skip_MP_regen']), empty=[k for k in rec.last if len(rec.last[k][0]) == 0])


def pre_impact(rec, im, A):
    c = rec.cloud(impact_man=im)
    M = P(A, 2)
    o = P(A, 1)
    o = [o.x_mp, o.y_mp, o.z_mp] if hasattr(o, 'x_mp') else list(o)[:3]
    s = rec.start[c]
    now = state(M)
    same = all(np.array_equal(np.asarray(a)[:len(b)], b) for a, b in zip(o, s)) and len(s[0]) == M.N_mp
    held = all(np.array_equal(a, b) for a, b in zip(now, rec.last[c]))
    rec.say('impact', c=c, t=q(P(A, 3), T), old=bool(same), mine=rec.cloud(MP_e=M) == c, held=bool(held))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def pre_gas(rec, g, A):
    bt = [j + 1 for j, b in enumerate(rec.beams()) if close(P(A, 4), b.sigmax) and close(P(A, 5), b.sigmay) and close(P(A, 2), b.lam_t_curr) and
          close(P(A, 3), b.Dt_curr) and close(P(A, 6), b.x_beam_pos) and close(P(A, 7), b.y_beam_pos)]
    rec.say('gas', c=rec.cloud(resgasion=g), b=(bt + [0])[0], mine=rec.cloud(MP_e=P(A, 1)) == rec.cloud(resgasion=g))


def pre_photo(rec, g, A):
    lam = sum(b.lam_t_curr for b in rec.beams())
    rec.say('photo', c=rec.cloud(phemiss=g), ok=bool(close(P(A, 2), lam) and close(P(A, 3), rec.sim.beamtim.Dt_curr)),
            mine=rec.cloud(MP_e=P(A, 1)) == rec.cloud(phemiss=g))


def pre_wit(rec, sv, A):
    rec.say('wit', c=rec.cloud(pyeclsaver=sv), mine=rec.cloud(MP_e=P(A, 1)) == rec.cloud(pyeclsaver=sv) and P(A, 4) is rec.sim.cloud_list[rec.cloud(pyeclsaver=sv) - 1].impact_man)


def post_wit(rec, sv, A, k):
    if rec.cloud(pyeclsaver=sv) == len(rec.sim.cloud_list):
        rec.rng = np.random.get_state()
        rec.rngs[q(rec.sim.beamtim.tt_curr, T)] = rec.rng


def patch(sim):
    wrap(bs.BuildupSimulation, 'sim_time_step', pre_step, lambda rec, s, A, k: rec.say('end'), nest=True)
    wrap(bat.beam_and_timing, 'next_time_step', None, lambda rec, b, A, k: rec.say('tick', b=rec.beam(b)))
    for cls in set(type(sim.spacech_ele).__mro__):
        for m in ('recompute_spchg_efield', 'recompute_spchg_emfield'):
            wrap(cls, m, lambda rec, s, A: rec.say('dep', c=rec.cloud(MP_e=P(A, 1))))
        for m in ('get_sc_em_field', 'get_sc_eletric_field'):
            wrap(cls, m)
    wrap(bat.beam_and_timing, 'get_beam_eletric_field')
    for c in sim.cloud_list:
        for cls in type(c.dynamics).__mro__:
            for m in ('step', 'stepcustomDt'):
                wrap(cls, m, pre_move, post_move)
        for cls in type(c.impact_man.sey_mod).__mro__:
            wrap(cls, 'SEY_model_evol', lambda rec, s, A: rec.say('sey', c=[k + 1 for k, d in enumerate(rec.sim.cloud_list) if d.impact_man.sey_mod is s][0],
                                                                  ok=bool(close(P(A, 1), rec.sim.beamtim.Dt_curr))))
        if c.phemiss is not None:
            for cls in type(c.phemiss).__mro__:
                wrap(cls, 'generate', pre_photo)
    wrap(imc.impact_management, 'backtrack_and_second_emiss', pre_impact)
    wrap(gic.residual_gas_ionization, 'generate', pre_gas)
    wrap(cion.Cross_Ionization, 'generate', lambda rec, s, A: rec.say('cross', ok=bool(close(P(A, 1), rec.sim.beamtim.Dt_curr)) and
                                                                    len(P(A, 2)) == len(rec.sim.cloud_list)))
    wrap(psv.pyecloud_saver, 'witness', pre_wit, post_wit)
    for m, op in (('clean_small_MPs', 'clean'), ('check_for_regeneration', 'regen'), ('check_for_soft_regeneration', 'soft'), ('check_for_async_regeneration', 'async')):
        wrap(mps.MP_system, m, (lambda op: lambda rec, M, A: rec.say(op, c=rec.cloud(MP_e=M)))(op))


def make(fo, f, times, plan, seed, state_at=None):
    shutil.rmtree(fo, ignore_errors=True)
    os.makedirs(fo)
    rng = np.random.RandomState(seed)
    ticks = list(times) + [times[-1] + (1 if f['unif'] else 3)]
    n = len(ticks)
    S = dict(Dt_sc=2 * T if f['em'] else (None if rng.rand() < .5 else 2 * T), t_sc_ON=0., N_mp_regen=80 if rng.rand() < .4 else 2500, N_mp_after_regen=60, fact_clean=.9 if rng.rand() < .4 else 1e-6,
             logfile_path=os.path.join(fo, 'log'), filen_main_outp=os.path.join(fo, 'out.mat'), Dh_sc=8e-3, flag_em_tracking=bool(f['em']),
             t_ion=f['tion'] * T if f['tion'] >= 0 else -1., cloud_name='electron', flag_reinterp_fields_at_substeps=bool(f['reinterp']))
    if state_at is not None:
        S['save_simulation_state_time_file'] = [state_at * T]
    nel = 1e4 * (12 if f['small'] else 60)
    gas = dict(P_nTorr=1e3, sigma_ion_MBarn=2., Temp_K=300., unif_frac=.3, E_init_ion=1.)
    pho = dict(photoem_flag=1, inv_CDF_refl_photoem_file='unif_no_file', k_pe_st=2e-5, refl_frac=.2, e_pe_sigma=5., e_pe_max=7., alimit=.05, x0_refl='right',
               y0_refl=0, out_radius=.06, phem_resc_fac=.9999, energy_distribution='gaussian', photoelectron_angle_distribution='cosine_3D',
               flag_continuous_emission=False)
    asy = dict(N_mp_async_regen=50, N_mp_after_async_regen=30)
    extra = {}
    for c, name in ((2, 'ions.cloud'), (3, 'more.cloud')):
        if f['nc'] >= c:
            extra[name] = dict(sr.CLOUD2, Nel_init_unif=nel * (.7 if c == 2 else 0 if f['small'] else .4), cloud_charge=1.602176565e-19 * (1 if c == 2 else -2),
                               gas_ion_flag=int(c in f['gas']))
            extra[name].update(gas if c in f['gas'] else {})
            extra[name].update(pho if c in f['photo'] else {})
            if c in f['async']:
                extra[name].update(asy)
            extra[name]['t_ion'] = S['t_ion']
    if extra:
        S['additional_clouds_file_list'] = sorted(extra)
    if 1 in f['async']:
        S.update(asy)
    if f['cross']:
        en = np.linspace(0., 2000., 401)
        sio.savemat(os.path.join(fo, 'xs.mat'), dict(energy_eV=en, cross_section_cm2=1e-16 * np.exp(-en / 500.)), oned_as='row')
        S['cross_ion_definitions'] = {'electron': {'ionise': dict(target_density=1e19, products=['ions', 'electron'], cross_section='xs.mat',
                                                                  E_eV_init=1., extract_sigma=False)}}
    for b in range(2, f['nb'] + 1):
        nm = 'second%d' % b
        sr.profile(os.path.join(fo, nm + '.mat'), ticks, rng.randint(0, 1000, n) * 1e8)
        extra[nm + '.beam'] = dict(deck.BEAM, flag_bunched_beam=0, beam_long_prof_file=nm + '.mat', sigmaz=-1, fact_beam=.5, b_spac=f['b'] * T, t_offs=0.,
                                   filling_pattern_file=[1.], sigmax=1e-3 * (1 + .3 * b), sigmay=1e-3 * (1 + .2 * b))
        S.setdefault('secondary_beams_file_list', []).append(nm + '.beam')
    mach = dict(Nel_init_unif=nel, track_method=f['track'], gas_ion_flag=int(1 in f['gas']), B0x=0., B0y=0., B0z=0.)
    mach.update(gas if 1 in f['gas'] else {})
    mach.update(pho if 1 in f['photo'] else {})
    if f['track'] == 'StrongBdip':
        mach.update(B=.5)
    if f['track'] == 'StrongBgen':
        mach.update(B0y=.5, B_map_file=None, fact_Bmap=1., B_zero_thrhld=1e-3)
    if f['track'] == 'BorisMultipole':
        mach.update(B_multip=[0.])
    over = {} if f['saver'] else dict(skip_pyeclsaver=True)
    return sr.build(fo, ticks, f['b'], f['dtref'], list(rng.randint(0, 1000, n) * 1e8), seed=seed, sim=S, mach=mach, extra=extra, sub=f['sub'], over=over)


def digest(sim):
    out = []
    for c in sim.cloud_list:
        M = c.MP_e
        n = M.N_mp
        out.append([n] + sr.digest(M.x_mp[:n]) + sr.digest(M.y_mp[:n]) + sr.digest(M.z_mp[:n]) + sr.digest(M.vx_mp[:n]) + sr.digest(M.vy_mp[:n]) +
                   sr.digest(M.vz_mp[:n]) + sr.digest(M.nel_mp[:n]))
    return out


def run(conf, seed):
    f, times, plan = conf['f'], conf['times'], conf['plan']
    cfg = dict(nc=f['nc'], nb=f['nb'], gas=f['gas'], photo=f['photo'], cross=f['cross'], saver=list(range(1, f['nc'] + 1)) if f['saver'] else [],
               async_=f['async'], tion=f['tion'], times=times, reinterp=f['reinterp'])
    cfg['async'] = cfg.pop('async_')
    fo = os.path.abspath('sim')
    plain = True
    final = None
    with quiet():
        at = [p['tend'] for p in plan if p['op'] == 'reload']
        sim = make(fo, f, times, plan, seed, at[0] if at else None)
        patch(sim)
        rec = NOW['rec'] = Rec(sim)
        rec.rngs = {}
        np.random.seed(seed + 1)
        try:
            for p in plan:
                if p['op'] == 'run':
                    rec.say('call', kind='run', tend=p['tend'])
                    # in between two steps, or exactly at one
                    sim.run(t_end_sim=None if p['tend'] < 0 else (p['tend'] - (.5 if p['half'] and p['tend'] > 0 else 0)) * T)
                    rec.say('ret')
                elif p['op'] == 'man':
                    plain = False
                    rec.say('call', kind='manual', tend=-1)
                    for j in range(p['n']):
                        for b in rec.beams():
                            b.next_time_step()
                        kw = {}
                        if p['cust']:
                            kw = dict(Dt_substep_custom=sim.beamtim.Dt_curr / (4 if p['kick'] else 3), N_sub_steps_custom=3)
                        sim.sim_time_step(kick_mode_for_beam_field=p['kick'], skip_MP_cleaning=p['skipc'], skip_MP_regen=p['skipr'],
                                          force_recompute_space_charge=p['force'], **kw)
                    rec.say('ret')
                else:
                    NOW['rec'] = None
                    tt = q(sim.beamtim.tt_curr, T)
                    fs = glob.glob(os.path.join(fo, '*.pkl'))
                    keep = os.path.join(os.path.dirname(fo), 'kept.pkl')
                    shutil.copy(fs[0], keep)
                    sim = make(fo, f, times, plan, seed + 7)
                    np.random.set_state(rec.rngs[tt])
                    sim.load_state(keep)
                    got = q(sim.beamtim.tt_curr, T)
                    rec.sim = sim
                    NOW['rec'] = rec
                    rec.say('reload', t=got, was=tt)
        finally:
            NOW['rec'] = None
        ev = rec.ev
        final = None
        if plain:
            # the same without interruption
            ref = make(fo, f, times, plan, seed)
            np.random.seed(seed + 1)
            ref.run()
            a, b = digest(sim), digest(ref)
            u = [[max(abs(y), 1e-12 * max(abs(z) for z in r[1:] + [1e-300])) for y in r] for r in b]
            final = dict(op='final', n=[r[0] for r in a], m=[r[0] for r in b], dev=[max([q((x - y) / w, 1e-6) for x, y, w in zip(r, s, v)] + [0], key=abs)
                                                                                  if r[0] == s[0] else 999999999 for r, s, v in zip(a, b, u)])
    if final:
        ev.append(final)
    shutil.rmtree(fo, ignore_errors=True)
    return dict(cfg=cfg, ev=ev)


def main(spec):
    return dict(traces=[run(c, spec['seed'] + j) for j, c in enumerate(spec['configs'])], inputs=[dict(index=j, **c) for j, c in enumerate(spec['configs'])])


if __name__ == '__main__':
    common.main(main)
