"""The real trackers on lattice configurations (integers in, multiples of 1e-4 of a lattice unit out)."""
import math
import os
import shutil
import numpy as np
import scipy.io as sio
import common
import deck
from common import q, quiet
from PyECLOUD.MP_system import MP_system
from PyECLOUD.dynamics_Boris_f2py import pusher_Boris
from PyECLOUD.dynamics_Boris_multipole import pusher_Boris_multipole
from PyECLOUD.dynamics_dipole import pusher_dipole_magnet
from PyECLOUD.dynamics_strong_B_generalized import pusher_strong_B_generalized
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.buildup_simulation import BuildupSimulation

CH = ellip_cham_geom_object(1., 1., flag_verbose_file=False)
ME, QE = 9.10938291e-31, 1.602176565e-19
V = 1e6
TAU = 2e-11
B1 = 1e-2            # unit field of the strong-field trackers
TH = 1e-3            # below this fraction of the unit the field counts as zero
QUAD = 'analytic_qaudrupole_unit_grad'


def units(c):
    """(length, field, substep or step) of a configuration."""
    if c['meth'] in ('boris', 'multi'):
        return V * TAU, 2 * ME / (QE * TAU * c['h']), TAU
    w = QE / ME * B1
    return V / w, B1, c['k'] * np.pi / 2 / w


def efield(c, g, B0, tau):
    if c['meth'] in ('boris', 'multi'):
        return np.asarray(g, float) * V * 2 * c['m'] * ME / (c['q'] * QE * tau)
    return np.asarray(g, float) * V * B0


def bmap(c, L, B0, fact, z):
    f = c['f']
    K = f['K']
    xx = 2 * L * np.arange(-K, K + 1)
    d = dict(xx=xx, yy=xx, Bx=np.array(f['mx'], float) * B0 / fact, By=np.array(f['my'], float) * B0 / fact)
    if z:
        d['Bz'] = np.array(f['mz'], float) * B0 / fact
    fn = os.path.abspath('map.mat')
    sio.savemat(fn, d, oned_as='row')
    return fn


def settings(c, n, r):
    """Keyword settings of the tracker, by the names they have in the input files."""
    f = c['f']
    L, B0, dt = units(c)
    b = [v * B0 for v in f['b0']]
    s = dict(Dt=dt * n, N_sub_steps=n, B0x=b[0], B0y=b[1], B0z=b[2], B_map_file=None, fact_Bmap=1., B_zero_thrhld=TH * B0, B_multip=None, B_skew=None, B=b[1])
    if f['kind'] == 'multi' and c['meth'] != 'multi':
        # (not the very same string object as in the code)
        s.update(B_map_file=''.join(list(QUAD)), fact_Bmap=f['b'][1] * B0 / L)
    elif f['kind'] == 'multi':
        coef = lambda a: [v * math.factorial(j) * B0 / L**j for j, v in enumerate(a)]
        s['B_multip'] = coef(f['b'])
        s['B_skew'] = coef(f['s']) if len(f['s']) else None
        for j, k in enumerate(('B0x', 'B0y', 'B0z')):
            if f['b0'][j] == 0 and r.random_sample() < .5:
                s[k] = None
    elif f['kind'] == 'map':
        fact = r.choice([1., 2.5, -3.])
        s.update(B_map_file=bmap(c, L, B0, fact, c['meth'] == 'boris' and np.any(f['mz'])), fact_Bmap=fact)
    return s


NAME = dict(boris='Boris', multi='BorisMultipole', dip='StrongBdip', gen='StrongBgen')


def make(meth, s, deck_=False):
    with quiet():
        if deck_:
            fo = os.path.abspath('sim')
            shutil.rmtree(fo, ignore_errors=True)
            use = dict(boris=['B0x', 'B0y', 'B0z', 'B_map_file', 'fact_Bmap'], multi=['B0x', 'B0y', 'B0z', 'B_multip', 'B_skew'], dip=['B'],
                       gen=['B0x', 'B0y', 'B_map_file', 'fact_Bmap', 'B_zero_thrhld'])[meth]
            drop = dict(B0x=deck.DROP, B0y=deck.DROP, B0z=deck.DROP)
            m = dict(drop, track_method=NAME[meth], N_sub_steps=s['N_sub_steps'], **{})
            m.update({k: (deck.DROP if s[k] is None and k not in ('B_map_file',) else s[k]) for k in use})
            deck.make(fo, sim=dict(Dt=s['Dt'], logfile_path=os.path.join(fo, 'log'), Dt_sc=None, t_end=2e-9), mach=m,
                      beam=dict(flag_bunched_beam=1, sigmaz=.03, b_spac=4e-9, t_offs=2e-9, filling_pattern_file=[1.]))
            try:
                return BuildupSimulation(pyecl_input_folder=fo, skip_pyeclsaver=True).cloud_list[0].dynamics
            finally:
                shutil.rmtree(fo, ignore_errors=True)
        if meth == 'boris':
            return pusher_Boris(s['Dt'], s['B0x'], s['B0y'], s['B0z'], s['B_map_file'], s['fact_Bmap'], N_sub_steps=s['N_sub_steps'])
        if meth == 'multi':
            return pusher_Boris_multipole(s['Dt'], N_sub_steps=s['N_sub_steps'], B_multip=s['B_multip'], B_skew=s['B_skew'], B0x=s['B0x'],
                                          B0y=s['B0y'], B0z=s['B0z'])
        if meth == 'dip':
            return pusher_dipole_magnet(s['Dt'], s['B'])
        return pusher_strong_B_generalized(s['Dt'], s['B0x'], s['B0y'], s['B_map_file'], s['fact_Bmap'], s['B_zero_thrhld'])


def cloud(x, v, charge=-QE, mass=ME, cap=12):
    with quiet():
        M = MP_system(cap, 1., 1.5, 0., -1, 10**9, 10**6, .5, 5, 5, 5, 5, 5, 1e-4, CH, N_mp_soft_regen=None, N_mp_after_soft_regen=None,
                      charge=charge, mass=mass, flag_lifetime_hist=True, name='c')
    n = len(x)
    M.N_mp = n
    for a, b, j in ((M.x_mp, M.vx_mp, 0), (M.y_mp, M.vy_mp, 1), (M.z_mp, M.vz_mp, 2)):
        if n:
            a[:n], b[:n] = np.asarray(x, float)[:, j], np.asarray(v, float)[:, j]
    M.nel_mp[:n] = 1. + np.arange(n)
    M.t_last_impact[:n] = 3. + np.arange(n)
    return M


def get(M):
    n = M.N_mp
    return (np.column_stack([M.x_mp[:n], M.y_mp[:n], M.z_mp[:n]]), np.column_stack([M.vx_mp[:n], M.vy_mp[:n], M.vz_mp[:n]]))


def config(c, r):
    L, B0, dt = units(c)
    leap = c['meth'] in ('boris', 'multi')
    made = {}
    ev = []
    for call in c['calls']:
        n = call['n']
        own = call['own'] or not leap
        key = n if own else 0
        if key not in made:
            made[key] = make(c['meth'], settings(c, n if own else 3, r), deck_=c['deck'])
        dyn = made[key]
        ps = call['parts']
        M = cloud([[w * L for w in p['x']] for p in ps], [[w * V for w in p['v']] for p in ps], charge=c['q'] * QE, mass=c['m'] * ME)
        E = efield(c, [p['g'] for p in ps], B0, dt).reshape(-1, 3)
        a = [E[:, 0].copy(), E[:, 1].copy()]
        kw = dict(Ez_n=0)
        if c['custom']:
            B = np.array([p['c'] for p in ps], float).reshape(-1, 3) * B0
            kw.update(Bx_n=B[:, 0].copy(), By_n=B[:, 1].copy(), Bz_n=B[:, 2].copy())
        elif leap:      # as the simulation calls it
            kw.update(Bx_n=np.asarray([0.]), By_n=np.asarray([0.]), Bz_n=np.asarray([0.]))
        with quiet():
            M = dyn.step(M, *a, **kw) if own else dyn.stepcustomDt(M, *a, Dt_substep=dt, N_sub_steps=n, **kw)
        x, v = get(M)
        k = len(ps)
        same = bool(M.N_mp == k and np.all(M.nel_mp[:k] == 1. + np.arange(k)) and np.all(M.t_last_impact[:k] == 3. + np.arange(k))
                    and np.all(M.x_mp[k:] == 0) and np.all(M.vx_mp[k:] == 0))
        ev.append(dict(op='call', n=n, parts=ps, same=same,
                       out=[dict(x=[q(w, L * 1e-4) for w in x[j]], v=[q(w, V * 1e-4) for w in v[j]]) for j in range(len(x))]))
    return dict(cfg={k: c[k] for k in c if k not in ('calls', 'deck', 'custom')}, ev=ev)


def dif(a, b, scale):
    """Millionths of the scale, one per macroparticle."""
    d = np.max(np.abs(np.asarray(a) - np.asarray(b)), axis=1) if len(a) else np.zeros(0)
    return [min(q(w, scale * 1e-6), 999999999) for w in d]


def agree(r):
    """Different ways to compute the same motion."""
    ev = []
    L, tau = 1e-3, 1e-11
    n = r.randint(1, 9)
    x, v = r.uniform(-L, L, (n, 3)), r.normal(0, V, (n, 3))
    E = r.normal(0, 2e4, (2, n))
    charge, mass = [(-QE, ME), (QE, 1836 * ME), (-QE, 3 * ME)][r.randint(3)]
    b = r.normal(0, .3, 3)
    g = r.normal(0, 200.)

    def go(dyn, x, v, E, charge=charge, mass=mass, how=None):
        M = cloud(x, v, charge, mass, cap=20)
        kw = dict(Ez_n=0, Bx_n=np.asarray([0.]), By_n=np.asarray([0.]), Bz_n=np.asarray([0.]))
        with quiet():
            M = dyn.step(M, E[0].copy(), E[1].copy(), **kw) if how is None else \
                dyn.stepcustomDt(M, E[0].copy(), E[1].copy(), Dt_substep=how[0], N_sub_steps=how[1], **kw)
        return get(M)

    def both(p, o, tol):
        lx = max(np.max(np.abs(v)) * tau, 1e-30)
        ev.append(dict(op='agree', dif=dif(p[0], o[0], lx) + dif(p[1], o[1], np.max(np.abs(v))), tol=tol))

    ns = int(r.choice([1, 2, 3, 10]))
    st = dict(Dt=tau, N_sub_steps=ns, B0x=b[0], B0y=b[1], B0z=b[2], B_map_file=QUAD, fact_Bmap=g, B_multip=[0., g], B_skew=None)
    bo, mu = make('boris', st), make('multi', st)
    ref = go(bo, x, v, E)
    both(ref, go(mu, x, v, E), 1)
    # one macroparticle at a time, any number of substeps in one call or in many
    j = r.randint(n)
    one = go(bo, x[j:j + 1], v[j:j + 1], E[:, j:j + 1])
    both((ref[0][j:j + 1], ref[1][j:j + 1]), one, 1)
    one = go(mu, x[j:j + 1], v[j:j + 1], E[:, j:j + 1])
    both((ref[0][j:j + 1], ref[1][j:j + 1]), one, 1)
    for dyn in (bo, mu):
        w = (x, v)
        for _ in range(ns):
            w = go(dyn, w[0], w[1], E, how=(tau / ns, 1))
        both(ref, w, 1)
        both(ref, go(dyn, x, v, E, how=(tau / ns, ns)), 1)
    # the strong-field trackers, in a uniform field
    st = dict(Dt=tau, N_sub_steps=1500, B0x=0., B0y=b[1], B0z=0., B_map_file=None, fact_Bmap=1., B_zero_thrhld=1e-9, B=b[1])
    el = dict(charge=-QE, mass=ME)
    ref = go(make('boris', st), x, v, E, **el)
    both(ref, go(make('dip', st), x, v, E, **el), 2000)
    st['B0x'] = b[0]
    ref = go(make('boris', st), x, v, E, **el)
    both(ref, go(make('gen', st), x, v, E, **el), 2000)
    # and where it changes from place to place
    st.update(B_map_file=QUAD, fact_Bmap=g)
    s2 = go(make('gen', st), x, v, E, **el)
    s1 = [[], []]
    for j in range(n):
        s = dict(st, B_map_file=None, B0x=b[0] + g * x[j, 1], B0y=b[1] + g * x[j, 0])
        a = go(make('boris', s), x[j:j + 1], v[j:j + 1], E[:, j:j + 1], **el)
        s1[0].append(a[0][0])
        s1[1].append(a[1][0])
    both(s1, s2, 2000)
    # a very weak field does next to nothing
    w = dict(st, B_map_file=None, B0x=0., B0y=1e-7, B=1e-7, N_sub_steps=10, B_zero_thrhld=1e-6)
    ref = go(make('boris', dict(w, B0y=0., N_sub_steps=1500)), x, v, E, **el)
    both(ref, go(make('dip', w), x, v, E, **el), 2000)
    both(ref, go(make('gen', w), x, v, E, **el), 2000)
    return dict(cfg=dict(meth='agree'), ev=ev)


def refuse():
    ev = []

    def bad(f):
        try:
            f()
            ev.append(dict(op='refuse', refused=False))
        except Exception as e:
            ev.append(dict(op='refuse', refused=True))

    s = dict(Dt=1e-11, N_sub_steps=2, B0x=0., B0y=.1, B0z=0., B_map_file=None, fact_Bmap=1., B_zero_thrhld=1e-9, B=.1, B_multip=[0., 1.], B_skew=None)
    mu = make('multi', s)
    bad(lambda: mu.step(cloud([[0, 0, 0.]], [[1., 0, 0]]), np.zeros(1), np.zeros(1), Ez_n=1.))
    import simrec as sr
    for meth, kw in (('StrongBdip', dict(clouds=2)), ('StrongBgen', dict(clouds=2)), ('Boris', dict(sim=dict(flag_em_tracking=True, Dt_sc=1e-9))),
                     ('StrongBdip', dict(sim=dict(flag_em_tracking=True, Dt_sc=1e-9))), ('Leapfrog', {})):
        def f():
            fo = os.path.abspath('sim')
            shutil.rmtree(fo, ignore_errors=True)
            sr.build(fo, [0, 1, 2], 8, 1, mach=dict(track_method=meth, B=.1, B_map_file=None, fact_Bmap=1., B_zero_thrhld=1e-9), **kw)
        bad(f)
    return dict(cfg=dict(meth='refuse'), ev=ev)


def main(spec):
    traces, inputs = [], []
    for j, c in enumerate(spec['configs']):
        traces.append(config(c, np.random.RandomState(spec['seed'] + j)))
        inputs.append(c)
    for j in range(spec['agree']):
        traces.append(agree(np.random.RandomState(spec['seed'] + 7000 + j)))
        inputs.append(dict(agree=spec['seed'] + 7000 + j))
    if spec.get('refuse'):
        traces.append(refuse())
        inputs.append('refuse')
    return dict(traces=traces, inputs=inputs)


if __name__ == '__main__':
    common.main(main)
