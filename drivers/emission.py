"""Batches of identical impacts on the walls of real simulations, one configuration of the emission models each."""
import contextlib
import os
import shutil
import numpy as np
import scipy.io as sio
import common
import deck
from common import q, quiet
from PyECLOUD import electron_emission
from PyECLOUD.buildup_simulation import BuildupSimulation

electron_emission.time.sleep = lambda s: None     # (the cosine_2D distribution warns for three seconds)
ME, QE = 9.10938291e-31, 1.602176565e-19
X, Y = 4e-2, 2e-2
SIDES = [((X, 0.), (-1., 0.)), ((0., Y), (0., -1.)), ((-X, 0.), (1., 0.)), ((0., -Y), (0., 1.))]
LEN = [2 * Y, 2 * X, 2 * Y, 2 * X]
F = 1e-4
GAP = 8e-6
NAME = dict(ecloud=0, acc='ACC_LOW', nunif='ECLOUD_nunif', charging='ECLOUD_nunif_charging', cos='cos_low_ene', flat='flat_low_ene', file='from_file', absorber='perfect_absorber', fp='furman_pivi')


def surface(c):
    return dict(use_modified_sigmaE=False, use_ECLOUD_theta0_dependence=c['fpecl'], use_ECLOUD_energy=c['fpene'], conserve_energy=c['cons'], exclude_rediffused=c['noredif'], choice='poisson',
                M_cut=c['M'], p_n=[v * F for v in c['pn']], eps_n=[v * F for v in c['en']], p1EInf=c['p1EInf'] * F, p1Ehat=c['p1Ehat'] * F, eEHat=c['eEHat'] * .1, w=c['w'] * .1, p=c['p'] * F,
                e1=c['e1'] * F, e2=c['e2'] * F, sigmaE=c['sigE'] * .1, p1RInf=c['p1RInf'] * F, eR=c['eR'] * 1e-3, r=c['r'] * F, q=c['q'] * F, r1=c['r1'] * F, r2=c['r2'] * F, deltaTSHat=c['dTS'] * F,
                eHat0=float(c['Emax']), s=c['s'] * F, t1=c['t1'] * F, t2=c['t2'] * F, t3=c['t3'] * F, t4=c['t4'] * F,
                **(dict(theta_e_max=float(np.arccos(c['cmin'] * F)), theta_r_max=float(np.arccos(c['cminr'] * F))) if c['cmin'] else {}))


def sec(c, folder, decoy=False):
    m = c['model']
    d = dict(Emax=float(c['Emax']), del_max=c['del_max'] * F, R0=c['R0'] * F, switch_model=NAME[m], E_th=c['Eth'] * .1, sigmafit=c['sigma'] * F, mufit=c['mu'] * F,
             switch_no_increase_energy=c['noinc'], thresh_low_energy=c['thr'] * .1, scrub_en_th=20., secondary_angle_distribution=c['angle'],
             flag_costheta_delta_scale=c['cds'], flag_costheta_Emax_shift=c['ces'])
    if c['giveE0'] and m in ('ecloud', 'acc', 'nunif', 'charging', 'cos'):
        d['E0'] = float(c['E0'])
    if m == 'ecloud' and c['s'] != 13500:
        d['s_param'] = c['s'] * F
    if m == 'file':
        e = c['e0'] + c['de'] * np.arange(len(c['tt']))
        t = dict(energy_eV=e.astype(float), sey_true=np.array(c['tt']) * F, sey_elast=np.array(c['te']) * F, extrapolate_const_true=c['kt'] * F, extrapolate_grad_true=c['gt'] * F,
                 extrapolate_const_elast=c['ke'] * F, extrapolate_grad_elast=c['ge'] * F)
        sio.savemat(os.path.join(folder, 'sey.mat'), t, oned_as='row')
        d['sey_file'] = {'rel': 'sey.mat', 'stem': 'sey', 'abs': os.path.join(folder, 'sey.mat'), 'home': '~/sey.mat'}[c['path']]
    if m == 'fp':
        d['furman_pivi_surface'] = surface(c)
    if decoy:
        d.update(Emax=d['Emax'] * 1.7, del_max=d['del_max'] * .6, R0=d['R0'] * .5, sigmafit=.8, mufit=1.2)
        if m not in ('nunif', 'charging'):
            d.update(switch_model=0, secondary_angle_distribution='cosine_3D', switch_no_increase_energy=0)
            d.pop('E0', None)
            d.pop('s_param', None)
    return d


def build(c, folder):
    os.makedirs(folder)
    os.environ['HOME'] = folder
    mach = dict(init_unif_flag=0, x_aper=X, y_aper=Y)
    if c['chamb'] == 'polyg':
        s = c['segs']
        g = dict(Vx=[X, X, -X, -X], Vy=[-Y, Y, Y, -Y], x_sem_ellip_insc=.9 * X, y_sem_ellip_insc=.9 * Y)
        if c['model'] in ('nunif', 'charging'):
            g.update(del_max_segments=[v['dm'] * F if v['dm'] >= 0 else -1. for v in s], R0_segments=[v['R0'] * F if v['R0'] >= 0 else -1. for v in s], Emax_segments=[float(v['Em']) for v in s])
        if c['model'] == 'charging':
            g.update(flag_charging=[int(v['chg']) for v in s], Q_max_segments=[v['Qmax'] * QE / LEN[j] for j, v in enumerate(s)], EQ_segments=[float(c['EQ'])] * 4, tau_segments=[v['tau'] * 1e-6 for v in s])
        sio.savemat(os.path.join(folder, 'ch.mat'), g, oned_as='row')
        mach = dict(mach, chamb_type='polyg', filename_chm='ch.mat')
    th = c['th'] * F
    sim = dict(extract_sey=False, N_mp_max=c['cap'], N_mp_regen=10**8, N_mp_soft_regen=None, N_mp_after_soft_regen=None, nel_mp_ref_0=th / 1.5, fact_split=1.5, flag_hist_impact_seg=int(c['chamb'] == 'polyg'),
               logfile_path='log.txt', stopfile='none')
    extra = {}
    mine, other = sec(c, folder), sec(c, folder, decoy=True)
    if c['clouds'] == 2:
        sim['additional_clouds_file_list'] = ['two.cloud']
        if c['cloud'] == 1:
            mine, other = other, mine
        extra['two.cloud'] = dict(other, cloud_mass=ME, cloud_charge=-QE, gas_ion_flag=0, photoem_flag=0, init_unif_flag=0, init_unif_edens_flag=0)
    deck.make(folder, sim=sim, mach=mach, sec=mine, beam=dict(filling_pattern_file=[0.]), extra=extra)
    old = os.getcwd()
    try:
        os.chdir(folder)
        s = BuildupSimulation(pyecl_input_folder=folder)
    finally:
        os.chdir(old)
    return s.cloud_list[c['cloud']] if c['clouds'] == 2 else s.cloud_list[0]


def stats(en, ct, t, z, xs):
    """Energies (eV) and direction cosines of a set of emitted macroparticles."""
    n = len(en)
    if n == 0:
        return dict(n=0)
    return dict(n=n, max=q(en.max(), .01), below=[int((en <= x * .1).sum()) for x in xs], c=q(ct.mean(), F), cmin=q(ct.min(), F), t=q(t.mean(), F), z=q(z.mean(), F), t2=q((t * t).mean(), F), z2=q((z * z).mean(), F),
                cb=[int((ct <= v).sum()) for v in (.6, .8)])


def span(a, unit=F):
    return [q(a.min(), unit), q(a.max(), unit)] if len(a) else [0, 0]


def batch(cl, c, b, tt):
    """One step of simultaneous impacts; with a second energy, impacts of two kinds alternate, reported one kind at a time."""
    im, mp = cl.impact_man, cl.MP_e
    two = b['e2'] > 0
    N, ct = b['N'] * (1 + two), b['ct'] * F
    j = np.arange(N)
    kind = j % 2 if two else 0 * j
    w = b['w'] + 1. * kind
    e = np.where(kind == 0, b['e'], b['e2']) * .1
    (px, py), (nx, ny) = SIDES[b['side']]
    tx, ty = -ny, nx
    phi = b['phi'] * np.pi / 180
    st = np.sqrt(max(0., 1 - ct * ct))
    d = np.array([-ct * nx + st * np.cos(phi) * tx, -ct * ny + st * np.cos(phi) * ty, st * np.sin(phi)])
    v = np.sqrt(2 * QE / ME * e)
    step = 1e-6
    x0, y0 = px + .5 * step * ct * nx, py + .5 * step * ct * ny
    mp.N_mp = 0
    o = np.ones(N)
    al = GAP * (j - .5 * N)               # impacts side by side along the wall
    mp.add_new_MPs(N, w * o, x0 + tx * al, y0 + ty * al, 0. * o, v * d[0] * o, v * d[1] * o, v * d[2] * o, 0.)
    old = mp.get_positions()
    mp.x_mp[:N] += step * d[0]
    mp.y_mp[:N] += step * d[1]
    mp.z_mp[:N] += step * d[2]
    with quiet():
        im.backtrack_and_second_emiss(old, mp, tt)
    M = int(mp.N_mp)
    rx, ry = mp.x_mp[:M] - px, mp.y_mp[:M] - py
    at = rx * tx + ry * ty
    g = np.round(at / GAP + .5 * N).astype(int)
    nel, vx, vy, vz = mp.nel_mp[:M].copy(), mp.vx_mp[:M], mp.vy_mp[:M], mp.vz_mp[:M]
    live = nel > 0
    own = np.arange(M) < N
    stray = int((live & ((np.abs(rx * nx + ry * ny) > 2e-6) | (np.abs(at - GAP * (g - .5 * N)) > 2e-6) | (g < 0) | (g >= N))).sum())
    stray += int((live[:N] & (g[:N] != j)).sum())
    g = np.where(own, np.arange(M), np.clip(g, 0, N - 1))
    tot = np.bincount(g, weights=nel, minlength=N)
    num = np.bincount(g[live], minlength=N)
    vn = v * (d[0] * nx + d[1] * ny)
    spec = np.array([v * d[0] - 2 * vn * nx, v * d[1] - 2 * vn * ny, v * d[2]])
    el = (num == 1) & live[:N] & (np.abs(vx[:N] - spec[0]) + np.abs(vy[:N] - spec[1]) + np.abs(vz[:N] - spec[2]) < 1e-9 * v)
    ab = num == 0
    tr = ~el & ~ab
    v2 = vx * vx + vy * vy + vz * vz
    en = .5 * ME / QE * v2
    vm = np.sqrt(np.where(v2 > 0, v2, 1.))
    dc, dt, dz = (vx * nx + vy * ny) / vm, (vx * tx + vy * ty) / vm, vz / vm
    xs = c['xs']

    def S(m):
        return stats(en[m], dc[m], dt[m], dz[m], xs)

    def report(kd):
        K = kind == kd                  # the impacts of this kind
        n, wk, ek = int(K.sum()), float(b['w'] + kd), [b['e'], b['e2']][kd]
        of = live & tr[g] & K[g]
        E, A, T = el & K, ab & K, tr & K
        r = dict(op='batch', e=ek, ct=b['ct'], w=int(wk), N=n, seg=b['side'], stray=stray,
                 el=dict(n=int(E.sum()), q=span(tot[E] / wk), e=span(en[:N][E], .01)), ab=int(A.sum()),
                 tr=dict(n=int(T.sum()), q=span(tot[T] / wk), m=span(num[T], 1)), total=q(tot[K].sum(), 1.), rep=S(of & own), new=S(of & ~own),
                 cnt=[q(im.Nel_impact_last_step - w[~K].sum(), 1.), q(im.Nel_emit_last_step - tot[~K].sum(), 1.)])
        part = nel[of] * num[g[of]] / tot[g[of]]           # 1 when the parts are equal
        r['tr']['part'] = span(part) if of.any() else [10000, 10000]
        r['tr']['size'] = q(nel[of].max(), F) if of.any() else 0
        if c['model'] == 'fp':
            r['nb'] = [int((num[K] == k).sum()) for k in range(5)]
            r['unit'] = span(nel[live & K[g]] / wk)
            r['by'] = [S(of & (num[g] == k)) for k in range(1, 5)]
            # energies of the parts of an event: the first with each other one, and all
            esum = np.bincount(g[of], weights=en[of], minlength=N)
            nw = of & ~own
            pair = int((en[:N][g[nw]] + en[nw] > ek * .1 * (1 + 1e-9)).sum())
            r['over'] = dict(pair=pair, sum=int((esum[T] > ek * .1 * (1 + 1e-9)).sum()))
        return r
    rs = [report(kd) for kd in ([0, 1] if two else [0])]
    mp.N_mp = 0
    return rs


def curves(cl, c, b):
    im = cl.impact_man
    es, cs, N = [b['e'] * .1, b['e2'] * .1], [b['ct'] * F, 1.], b['N']
    with quiet():
        d = im.extract_sey_curves(N, np.array(es), np.array(cs), -QE, ME)
        h = im.extract_energy_distributions(N, es[0], np.array(cs), ME, 101, 1.25)
    g = h.pop('emit_ene_g_hist')
    return dict(op='curves', es=[b['e'], b['e2']], cs=[b['ct'], 10000], N=N, d=dict((k, [[q(x, F) for x in r] for r in v]) for k, v in d.items()), grid=[q(g[0], .01), q(g[-1], .01), len(g)],
                h=dict((k, [dict(n=q(v[:, i].sum(), 1.), mean=q((v[:, i] * g).sum() / v[:, i].sum(), .01) if v[:, i].sum() > 0 else 0) for i in range(2)]) for k, v in h.items()))


def main(spec):
    np.random.seed(spec['seed'])
    out = []
    for i, c in enumerate(spec['configs']):
        f = os.path.join(spec['scratch'], 'e%d' % i)
        with quiet(), np.errstate(all='ignore'):
            cl = build(c, f)
        ev = []
        for n, b in enumerate(c['batches']):
            if b['op'] == 'batch':
                ev += batch(cl, c, b, 1e-9 * (n + 1))
            elif b['op'] == 'evol':
                cl.impact_man.sey_mod.SEY_model_evol(b['dt'] * 1e-6)
                ev.append(dict(op='evol', dt=b['dt']))
            else:
                ev.append(curves(cl, c, b))
        shutil.rmtree(f)
        out.append(dict(cfg=c, ev=ev))
    return out


if __name__ == '__main__':
    common.main(main)
