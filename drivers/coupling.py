"""The coupled-beam interface (PyEC4PyHT) with stand-in bunches: TLC's histories of passages, resets, twins and frozen maps."""
import inspect
import os
import shutil
import numpy as np
import scipy.io as sio
import common
import deck
from common import q, quiet
from PyECLOUD import PyEC4PyHT
from PyECLOUD.buildup_simulation import BuildupSimulation
from PyECLOUD.MP_system import MP_system as MPs

clight, QE, MP = 299792458., 1.602176565e-19, 1.672621777e-27
U = 1e-10           # unit of time
SHORT = 1 - 1e-9    # keeps durations off the thresholds
ATTRS = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')
TX, TY = np.array([1e-3, -7e-3, 2e-2, -3e-2]), np.array([2e-3, 9e-3, -1e-2, -5e-3])
LC = 1e4            # length of the interaction
NOW = {}


class Beam(object):
    """What the interface needs of a bunch (or of one slice of a bunch)."""

    def __init__(self, x, y, xp, yp, per, charge, bins=None, idx=None, info=None):
        self.x, self.y, self.xp, self.yp = x, y, xp, yp
        self.z = self.dp = x * 0
        self.particlenumber_per_mp, self.charge, self.mass = per, charge, MP
        self.gamma = 27.
        self.beta = np.sqrt(1 - 1 / self.gamma**2)
        self.p0 = self.mass * self.gamma * self.beta * clight
        self.macroparticlenumber = len(x)
        self.bins, self.idx, self.cleaned = bins, idx, 0
        if info is not None:
            self.slice_info = info

    def clean_slices(self):
        self.cleaned += 1

    def get_slices(self, slicer):
        return self

    @property
    def n_slices(self):
        return len(self.idx)

    @property
    def z_bins(self):
        return self.bins

    def particle_indices_of_slice(self, i):
        return self.idx[i]


def make_beam(c, b, rng):
    """B[0] is the head."""
    B = c['beams'][b]
    n = sum(s['n'] for s in B)
    tot = n + 2     # two particles outside all slices
    r = dict(x=rng.uniform(-1.5e-2, 1.5e-2, tot), y=rng.uniform(-8e-3, 8e-3, tot), B=B, per=1e9 * (1 + b), charge=QE * (1 + b % 2))
    order = rng.permutation(tot)
    r['ix'], k = [], 0
    for s in B:
        r['ix'].append(order[k:k + s['n']])
        k += s['n']
    g = 27.
    r['dz'] = [s['d'] * U * SHORT * np.sqrt(1 - 1 / g**2) * clight for s in B]
    r['xp'], r['yp'] = rng.uniform(-1e-3, 1e-3, tot), rng.uniform(-1e-3, 1e-3, tot)
    return r


def ident(sim):
    """The number of this cloud; two clouds have the same number when they agree (sums may differ by rounding)."""
    M = sim.cloud_list[0].MP_e
    n = int(M.N_mp)
    new = [np.array([n, float(M.nel_mp_ref)])] + [np.array(getattr(M, a)[:n]) for a in ATTRS] + ([np.where(M.nel_mp[:n] > 0, M.t_last_impact[:n], 0.)] if M.flag_lifetime_hist else [])
    for i, old in enumerate(NOW['ids']):
        if len(old[2]) == n and all(close(a, b, 1e-10) for a, b in zip(new, old)):
            return i + 1
    NOW['ids'].append(new)
    return len(NOW['ids'])


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(np.max(np.abs(b)) if b.size else 0., 1e-300)))


def solve(pic, x, y, nel, charge, tx, ty):
    st = pic.get_state_object()
    st.scatter(x, y, nel, charge=charge)
    pic.solve_states([st])
    return st.gather(np.asarray(tx, float), np.asarray(ty, float))


def beam_ref(k):
    """Field at the test points, line density, centre and size of slice k."""
    r = NOW['beam']
    if k not in r.setdefault('ref', {}):
        ix = r['ix'][k]
        if len(ix) == 0:
            r['ref'][k] = None
        else:
            e = NOW['c']
            x, y = r['x'][ix] + e['off'][0] * 1e-4, r['y'][ix] + e['off'][1] * 1e-4
            E = solve(NOW['pic'], x, y, 0 * x + r['per'] / r['dz'][k], r['charge'], TX, TY)
            r['ref'][k] = (E, r['per'] * len(ix) / r['dz'][k], np.mean(x), np.mean(y), np.std(x), np.std(y))
    return r['ref'][k]


def cloud_field(M, tx, ty):
    n = M['n']
    return solve(NOW['pic'], M['x'][:n], M['y'][:n], M['w'][:n], M['q'], tx, ty)


class Probe(object):
    pass


def before(M):
    """The cloud at the end of the step, before any cleaning or regeneration: the one the fields and the output belong to."""
    if NOW.get('pre') is None and 'sims' in NOW:
        NOW['pre'] = dict(n=int(M.N_mp), x=M.x_mp.copy(), y=M.y_mp.copy(), w=M.nel_mp.copy(), q=M.charge)


def tap(name):
    orig = getattr(MPs, name)

    def f(self, *a, **kw):
        before(self)
        return orig(self, *a, **kw)
    setattr(MPs, name, f)


for nm in ('clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
    if hasattr(MPs, nm):
        tap(nm)
SIG = inspect.signature(BuildupSimulation.sim_time_step)
ORIG = BuildupSimulation.sim_time_step


def sim_time_step(self, *a, **kw):
    if 'sims' not in NOW or not any(s is self for s in NOW['sims']):
        return ORIG(self, *a, **kw)
    b = SIG.bind(self, *a, **kw)
    b.apply_defaults()
    A = b.arguments
    bt = A['beamtim_obj']
    p = Probe()
    p.N_mp, p.x_mp, p.y_mp = len(TX), TX.copy(), TY.copy()
    Ex, Ey = bt.get_beam_eletric_field(p)
    Ex, Ey = np.asarray(Ex) + 0 * TX, np.asarray(Ey) + 0 * TX
    match = []
    if np.all(Ex == 0) and np.all(Ey == 0) and bt.lam_t_curr == 0:
        match.append(0)
    for k in range(len(NOW['beam']['B'])):
        R = beam_ref(k)
        if R is not None and close(Ex, R[0][0]) and close(Ey, R[0][1]) and close([bt.lam_t_curr], [R[1]]) and close([bt.x_beam_pos, bt.y_beam_pos], [R[2], R[3]]) \
                and abs(bt.sigmax - R[4]) <= 1e-7 * abs(R[4]) + 1e-12 and abs(bt.sigmay - R[5]) <= 1e-7 * abs(R[5]) + 1e-12:
            match.append(k + 1)
    n_sub, dts = A['N_sub_steps_custom'], A['Dt_substep_custom']
    e = dict(op='step', c=[s is self for s in NOW['sims']].index(True) + 1, before=ident(self), match=match, dt=q(bt.Dt_curr, U / 1000), n=int(n_sub), fit=bool(close([n_sub * dts], [bt.Dt_curr])),
             np=bool(bt.flag_new_bunch_pass), pas=int(bt.pass_numb), force=bool(A['force_recompute_space_charge']), clean=not A['skip_MP_cleaning'], regen=not A['skip_MP_regen'],
             t=q(bt.tt_curr, U / 1000), kick=bool(A['kick_mode_for_beam_field']), again=bool(A['force_reinterp_fields_at_substeps']))
    NOW['pre'] = None
    np.random.seed(7)   # the same cloud and slice give the same outcome
    out = ORIG(self, *a, **kw)
    e['after'] = ident(self)
    M = self.cloud_list[0].MP_e
    if NOW['pre'] is None:
        before(M)
    pre = NOW['pre']
    e['nel'] = q(np.sum(pre['w'][:pre['n']]) / 1e3)
    snap = dict(n=int(M.N_mp), x=M.x_mp.copy(), y=M.y_mp.copy(), w=M.nel_mp.copy(), q=M.charge, vx=M.vx_mp.copy(), vy=M.vy_mp.copy(), obs={}, pre=pre)
    sc = self.spacech_ele
    for nm, at in (('rho_ele', 'rho'), ('phi_ele', 'phi'), ('Ex_ele', 'efx'), ('Ey_ele', 'efy')):
        if getattr(sc, at, None) is not None:
            snap['obs'][nm] = np.array(getattr(sc, at))
    snap['match'], snap['beam'] = match, NOW['beam']
    NOW['snaps'].append(snap)
    NOW['ev'].append(e)
    return out


BuildupSimulation.sim_time_step = sim_time_step
FLAGS = {'rho': 'save_ele_distributions_last_track', 'pot': 'save_ele_potential', 'E': 'save_ele_field', 'potE': 'save_ele_potential_and_field', 'pos': 'save_ele_MP_position',
         'vel': 'save_ele_MP_velocity', 'size': 'save_ele_MP_size', 'brho': 'save_beam_distributions_last_track', 'bE': 'save_beam_field'}
LISTS = {'rho': [('rho_ele_last_track', 'rho_ele')], 'pot': [('phi_ele_last_track', 'phi_ele')], 'E': [('Ex_ele_last_track', 'Ex_ele'), ('Ey_ele_last_track', 'Ey_ele')],
         'potE': [('phi_ele_last_track', 'phi_ele'), ('Ex_ele_last_track', 'Ex_ele'), ('Ey_ele_last_track', 'Ey_ele')], 'pos': [('x_MP_last_track', 'x'), ('y_MP_last_track', 'y'), ('N_MP_last_track', 'n')],
         'vel': [('vx_MP_last_track', 'vx'), ('vy_MP_last_track', 'vy'), ('N_MP_last_track', 'n')], 'size': [('nel_MP_last_track', 'w'), ('N_MP_last_track', 'n')]}


def observed(ec, c, name, snaps, back):
    """Number of recorded moments that agree with what was there (the last moment comes first); -1 when one does not."""
    S = snaps[::-1] if back else snaps
    if name == 'probes':
        L = [ec.Ex_ele_last_track_at_probes, ec.Ey_ele_last_track_at_probes]
        if any(len(w) != len(S) for w in L):
            return -1
        px, py = [w[0] * 1e-3 for w in c['probes']], [w[1] * 1e-3 for w in c['probes']]
        for j, s in enumerate(S):
            E = cloud_field(s['pre'], px, py)
            if not (close(L[0][j], E[0]) and close(L[1][j], E[1])):
                return -1
        return len(S)
    if name in ('brho', 'bE'):
        got = ec.rho_beam_last_track if name == 'brho' else ec.Ex_beam_last_track
        if len(got) != len(S):
            return -1
        for j, s in enumerate(S):
            ks = [k for k in s['match'] if k]
            if not ks:
                if np.max(np.abs(got[j])) != 0:
                    return -1
                continue
            r, k = s['beam'], ks[0] - 1
            ix = r['ix'][k]
            x, y = r['x'][ix] + c['off'][0] * 1e-4, r['y'][ix] + c['off'][1] * 1e-4
            st = NOW['pic'].get_state_object()
            st.scatter(x, y, 0 * x + r['per'] / r['dz'][k], charge=r['charge'])
            NOW['pic'].solve_states([st])
            if not close(got[j], st.rho if name == 'brho' else st.efx):
                return -1
        return len(S)
    for at, key in LISTS[name]:
        got = getattr(ec, at)
        if len(got) != len(S):
            return -1
        for j, s in enumerate(S):
            w = s['obs'].get(key) if key in s['obs'] else s.get(key)
            if w is None:
                continue
            g = got[j]
            if key in ('x', 'y', 'vx', 'vy', 'w'):
                g, w = g[:s['n']], w[:s['n']]
            if not np.array_equal(g, w):
                return -1
    return len(S)


def kicks(d, ix, fact, fields, off):
    """Which recorded clouds gave this change of direction (0: none did)."""
    if np.all(d[ix] == 0):
        return [0]
    return [j + 1 for j, E in enumerate(fields) if close(d[ix], fact * E[ix], 1e-6)]


def one(c, n, seed):
    rng = np.random.RandomState(seed)
    fo = os.path.abspath('cpl')
    shutil.rmtree(fo, ignore_errors=True)
    os.makedirs(fo)
    N = 40
    d0 = dict(x_mp=rng.uniform(-3e-2, 3e-2, N), y_mp=rng.uniform(-1.5e-2, 1.5e-2, N), z_mp=0. * np.zeros(N), vx_mp=rng.uniform(-1e6, 1e6, N), vy_mp=rng.uniform(-1e6, 1e6, N), vz_mp=rng.uniform(-1e6, 1e6, N),
              nel_mp=rng.randint(2, 9, N) * 1e6, N_mp=N, t_last_impact=-np.ones(N) if rng.rand() < .5 else rng.rand(N) * 1e-9)
    life = c['opt'] == 'life'
    S = dict(extract_sey=False, Dt=c['D'] * U if c['D'] else None, t_ion=-1., N_mp_max=3000, N_mp_regen=2500 if rng.rand() < .5 else 30, N_mp_soft_regen=None, N_mp_after_soft_regen=None, nel_mp_ref_0=1e4, fact_clean=1e-7, Dt_sc=None, logfile_path=None,
             progress_path=None, stopfile='stop_none', filename_init_MP_state='init.mat', Dh_sc=4e-3)
    sio.savemat(os.path.join(fo, 'init.mat'), d0, oned_as='row')
    if c['opt'] == 'only':
        S['save_only'] = ['t', 'Nel_timep']
    if life:
        S.update(flag_lifetime_hist=True, Nbin_lifetime_hist=4, lifetime_hist_max=1e-9, Dt_lifetime_hist=U)
    if c['opt'] == 'every2':
        S['save_mat_every'] = 2
    kw = {}
    if c['opt'] == 'custom':
        kw['step_by_step_custom_observables'] = {'cust': lambda sim: float(np.sum(sim.cloud_list[0].MP_e.nel_mp[:sim.cloud_list[0].MP_e.N_mp]))}
        kw['pass_by_pass_custom_observables'] = {'cpass': lambda sim: 7.}
    S['filename_init_MP_state'] = os.path.join(fo, 'init.mat')
    deck.make(fo, sim=S, mach=dict(x_aper=4e-2, y_aper=2e-2), sec=dict(switch_model='perfect_absorber', Emax=None, del_max=None, R0=None))
    if c['off'] != [0, 0]:
        kw.update(x_beam_offset=c['off'][0] * 1e-4, y_beam_offset=c['off'][1] * 1e-4)
    if not c['kickx']:
        kw['enable_kick_x'] = False
    if not c['kicky']:
        kw['enable_kick_y'] = False
    if c['probes']:
        kw['probes_position'] = [dict(x=p[0] * 1e-3, y=p[1] * 1e-3) for p in c['probes']]
    outp = os.path.join(fo, 'out') if c['save'] else None
    ev = []
    NOW.clear()
    NOW.update(ev=ev, ids=[], c=c, snaps=[], since={1: [], 2: []})
    with quiet():
        ecs = [PyEC4PyHT.Ecloud(LC, None if c['mode'] == 'slices' else object(), c['ref'] * U, fo, flag_clean_slices=c['cleanf'], slice_by_slice_mode=c['mode'] == 'slices', kick_mode_for_beam_field=c['kickmode'],
                                save_pyecl_outp_as=outp, force_interp_at_substeps_interacting_slices=c['again'], **kw)]
        if c['twin']:
            ecs.append(ecs[0].generate_twin_ecloud_with_shared_space_charge())
    NOW['sims'] = [e.cloudsim for e in ecs]
    NOW['pic'] = ecs[0].cloudsim.spacech_ele.PyPICobj
    for e in ecs:
        for o in c['obs']:
            if o in FLAGS:
                setattr(e, FLAGS[o], True)
        if c['obs'] or c['probes']:
            with quiet():
                e._reinitialize()
    ev.append(dict(op='new', ids=[ident(s) for s in NOW['sims']]))
    frozen = None
    beams = {}
    for i, op in enumerate(c['ops']):
        ec = ecs[op['c'] - 1]
        e = dict(op='end', i=i + 1, kx=[], ky=[], still=True, refused=False, nobs=[], cleaned=0)
        ev.append(dict(op='begin', i=i + 1))
        if op['k'] == 'reset':
            with quiet():
                (ec.finalize_and_reinitialize if c['mode'] == 'slices' else ec._reinitialize)()
            if frozen is None:
                e['id'] = ident(ec.cloudsim)
            NOW['since'][op['c']] = []
            ev.append(e)
            continue
        if op['k'] == 'once':
            ec.track_only_first_time = True
            ev.append(e)
            continue
        r = NOW['beam'] = beams.setdefault(op['b'], make_beam(c, op['b'] - 1, rng))
        m0 = len(NOW['snaps'])
        x0, y0 = r['x'].copy(), r['y'].copy()
        xp, yp = r['xp'].copy(), r['yp'].copy()
        B = r['B']
        bins = np.concatenate([[0.], np.cumsum(r['dz'][::-1])]) - .3
        if c['mode'] == 'whole':
            bm = Beam(r['x'], r['y'], r['xp'], r['yp'], r['per'], r['charge'], bins, r['ix'][::-1])
            feed = bm
        else:
            feed = []
            for k, s in enumerate(B):
                ix = r['ix'][k]
                z = bins[::-1][k]
                info = dict(z_bin_right=z, z_bin_left=z - r['dz'][k])
                if not (s['inter'] and c['bare']):
                    info['interact_with_EC'] = s['inter']
                if c['info']:
                    info['info_parent_bunch'] = dict(i_bunch=s['bunch'])
                    info['i_slice'] = s['isl']
                feed.append(Beam(r['x'][ix], r['y'][ix], r['xp'][ix], r['yp'][ix], r['per'], r['charge'], info=info))
            j = np.setdiff1d(np.arange(len(r['x'])), np.concatenate([np.asarray(w, int) for w in r['ix']]))
            feed.append(Beam(r['x'][j], r['y'][j], r['xp'][j], r['yp'][j], r['per'], r['charge'], info='unsliced'))
        try:
            with quiet():
                if op['k'] == 'freeze':
                    ec.track_once_and_replace_with_recorded_field_map(feed, delete_ecloud_data=op['del'])
                elif c['mode'] == 'whole':
                    ec.track(feed)
                else:
                    for s in feed:
                        ec.track(s)
        except ValueError as err:
            if 'cannot be longer' not in str(err):
                raise
            e['refused'] = True
        if c['mode'] == 'whole':
            nx, ny, e['cleaned'] = bm.xp, bm.yp, bm.cleaned
            e['still'] = bool(np.array_equal(bm.x, x0) and np.array_equal(bm.y, y0))
        else:
            nx, ny = xp.copy(), yp.copy()
            for k, s in enumerate(feed[:-1]):
                nx[r['ix'][k]], ny[r['ix'][k]] = s.xp, s.yp
                e['still'] = bool(e['still'] and np.array_equal(s.x, x0[r['ix'][k]]) and np.array_equal(s.y, y0[r['ix'][k]]))
            nx[j], ny[j] = feed[-1].xp, feed[-1].yp
        out = np.setdiff1d(np.arange(len(x0)), np.concatenate([np.asarray(w, int) for w in r['ix']]))
        e['still'] = bool(e['still'] and np.array_equal(nx[out], xp[out]) and np.array_equal(ny[out], yp[out]))
        snaps = NOW['snaps'][m0:] if frozen is None else frozen
        if len(snaps) > 0 and not e['refused']:
            fact = r['charge'] / (MP * 27. * (1 - 1 / 27.**2) * clight**2) * LC
            F = [cloud_field(s['pre'], x0 + c['off'][0] * 1e-4, y0 + c['off'][1] * 1e-4) for s in snaps]
            for k in range(len(B)):
                for nm, d, w in (('kx', nx - xp, 0), ('ky', ny - yp, 1)):
                    e[nm].append(kicks(d, r['ix'][k], fact, [f[w] for f in F], c['off']))
        elif not e['refused']:
            e['kx'] = [[0] if np.array_equal(nx[w], xp[w]) else [-1] for w in r['ix']]
            e['ky'] = [[0] if np.array_equal(ny[w], yp[w]) else [-1] for w in r['ix']]
        r['xp'], r['yp'] = nx, ny
        since = NOW['since'][op['c']]
        if (c['mode'] == 'whole' or c['info'] or op['k'] == 'freeze') and (c['mode'] == 'whole' or len(NOW['snaps']) > m0):
            since[:] = []
        since += NOW['snaps'][m0:]
        if frozen is None and not e['refused'] and len(NOW['snaps']) > m0:
            names = list(c['obs']) + (['probes'] if c['probes'] else [])
            e['nobs'] = [observed(ec, c, o, since, c['mode'] == 'whole' or op['k'] == 'freeze') for o in names]
        ev.append(e)
        if c['save'] and frozen is None and not e['refused'] and len(NOW['snaps']) > m0:
            ev.append(files(c, ec, fo, op['c']))
        if op['k'] == 'freeze':
            frozen = NOW['snaps'][m0:]
            NOW['sims'] = []
    shutil.rmtree(fo, ignore_errors=True)
    return dict(cfg=c, ev=ev)


def files(c, ec, fo, cl):
    """What the output file of the present turn holds."""
    nm = '%s__iter%d.mat' % (os.path.join(fo, 'out'), ec.i_reinit - 1)
    e = dict(op='file', c=cl, n=ec.i_reinit - 1, there=os.path.exists(nm), t=[], nel=[], opt=True)
    if e['there']:
        m = sio.loadmat(nm)
        t, w = np.atleast_1d(np.squeeze(m['t'])), np.atleast_1d(np.squeeze(m['Nel_timep']))
        e['t'], e['nel'] = [q(v, U / 1000) for v in t], [q(v / 1e3) for v in w]
        ks = set(k for k in m if k[0] != '_')
        if c['opt'] == 'only':
            e['opt'] = ks == {'t', 'Nel_timep'}
        elif c['opt'] == 'custom':
            e['opt'] = 'cust' in ks and np.array_equal(np.atleast_1d(np.squeeze(m['cust'])), w) and 'cpass' in ks and bool(np.all(np.atleast_1d(np.squeeze(m['cpass'])) == 7.))
        elif c['opt'] == 'life':
            e['opt'] = 'lifetime_hist' in ks and m['lifetime_hist'].size > 1
        os.remove(nm)
    e['opt'] = bool(e['opt'])
    return e


def main(spec):
    return dict(traces=[one(c, n, spec['seed'] * 1000 + n) for n, c in enumerate(spec['configs'])])


if __name__ == '__main__':
    common.main(main)
