"""Real cross-ionization processes on TLC's populations."""
import os
import shutil
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe
import common
from common import q, quiet
from PyECLOUD.MP_system import MP_system
from PyECLOUD.cross_ionization import Cross_Ionization
from PyECLOUD import geom_impact_rect_fast_impact as girfi

NAMES = ['e', 'i', 'j']
# speed 1 = 1e5 m/s has energy 1 eV; sigma 1 = 1e-14 cm^2, gas 1e19/m^3 -> charge 1 = 100 from a macroparticle of 1e6 in 1e-10 s
MASS, V1, W1, S1, T1, AREA = 2 * qe * 1e-10, 1e5, 1e6, 1e-14, 1e-10, 1e-3
U = 100.
with quiet():
    CH = girfi.rect_cham_geom_object(2., 1., 0, flag_verbose_file=False, flag_verbose_stdout=False)


class Cloud(object):
    def __init__(self, name, ref, mass, life):
        self.name = name
        with quiet():
            self.MP_e = MP_system(400000, ref * U, 1.5, 0.25, -1, 10**9, 10**6, 0.25, 5, 5, 5, 5, 5, 1e-4, CH,
                                  charge=-1.6e-19, mass=mass, flag_lifetime_hist=life, name=name)


def table(fn, T):
    n = np.arange(len(T['s']))
    e = T['e0'] * 16.**n if T['log'] else T['e0'] + T['de'] * n.astype(float)
    sio.savemat(fn, dict(energy_eV=e, cross_section_cm2=np.array(T['s']) * S1), oned_as='row')


def processes(ci, names):
    return [[p for p in ci.projectiles_dict.get(nm, [])] for nm in NAMES]


def look(ps, thin):
    """What is left of each gas, in units (None if it cannot be seen)."""
    try:
        return [[float(p.N_target) / U for p in l] for l in ps]
    except AttributeError:
        return None


def one(c, rng, n):
    fo = os.path.abspath('ci')
    shutil.rmtree(fo, ignore_errors=True)
    os.makedirs(fo)
    life = bool(rng.rand() < .5)
    heavy = [int(2 ** rng.randint(0, 3)) for j in range(3)]     # the same energies and yields from heavier, slower, larger macroparticles
    masses = [MASS * f * f for f in heavy]
    clouds = [Cloud(nm, c['refs'][j], masses[j], life) for j, nm in enumerate(NAMES)]
    defs = {}
    for pc, l in enumerate(c['procs']):
        for m, P in enumerate(l):
            fn = 'cs_%d_%d.mat' % (pc, m)
            table(os.path.join(fo, fn), P['T'])
            ref = fn if rng.rand() < .6 else fn[:-4] if rng.rand() < .5 else os.path.join(fo, fn)
            dens = 1e19
            if P['thin']:
                dens = P['tot'] * U / AREA
                # the same yield from a thinner gas
                sig = sio.loadmat(os.path.join(fo, fn))
                sio.savemat(os.path.join(fo, fn), dict(energy_eV=sig['energy_eV'], cross_section_cm2=sig['cross_section_cm2'] * 1e19 / dens), oned_as='row')
            d = dict(target_density=dens, products=list(P['prods']), cross_section=ref, E_eV_init=float(P['Ei']))
            if P['equal'] or P['give']:
                d['generate_equally'] = bool(P['equal'])
            d['extract_sigma'] = bool(c['extract'])
            if c['extract'] and P['give']:
                del d['extract_sigma']
            defs.setdefault(NAMES[pc], {})['%s%d' % (NAMES[pc], m)] = d
    Vt = list(range(1, 17))
    order = list(clouds)
    rng.shuffle(order)
    nrep = 400
    with quiet():
        ci = Cross_Ionization(fo, defs, order, AREA, n_rep_test=nrep, Dt_test=T1 * 40, energy_eV_test=np.array(Vt, float)**2)
    ps = processes(ci, NAMES)
    lv = look(ps, None)
    ev = []
    if c['extract']:
        for pc, l in enumerate(c['procs']):
            for m, P in enumerate(l):
                f = os.path.join(fo, 'cs_%d_%d_extracted.mat' % (pc, m))
                d = sio.loadmat(f)
                sc = S1 * (1e19 * AREA / (P['tot'] * U) if P['thin'] else 1.)
                # sampled: standard deviation of the sum of nrep roundings
                one_ = 40. * c['refs'][pc] * U / W1 / heavy[pc]     # expected charge per projectile, sigma = V = 1, in units
                rfs = [c['refs'][NAMES.index(x)] for x in P['prods']]
                big = max(rfs)
                tol = int(1000 * 5 * .5 * big / (one_ * nrep**.5)) + 2
                ev.append(dict(op='sigma', pc=pc + 1, m=m + 1, V=Vt, s=[q(x, 1e-3 * sc) for x in np.ravel(d['sigma_cm2_interp'])],
                               got=[[q(x, 1e-3 * sc) for x in np.ravel(d['sigma_cm2_sampled_%s' % nm])] for nm in P['prods']], tol=tol))
    ok = all(cl.MP_e.N_mp == 0 for cl in clouds)
    if lv is not None:
        ok = ok and all(abs(lv[pc][m] - (P['tot'] if P['thin'] else 1e16 / U)) < 1e-3 * (1 if P['thin'] else 1e4) for pc, l in enumerate(c['procs']) for m, P in enumerate(l))
    ev.append(dict(op='quiet', ok=bool(ok)))

    def left(lv):
        return [[(q(lv[pc][m]) if P['thin'] else 1) for m, P in enumerate(l)] for pc, l in enumerate(c['procs'])]

    thin = any(P['thin'] for l in c['procs'] for P in l)
    if thin and lv is None:
        return None
    first = left(lv) if lv is not None else [[1 for P in l] for l in c['procs']]
    uid = 0
    for ns, st in enumerate(c['steps']):
        where = {}
        for cc, cl in enumerate(clouds):
            M = cl.MP_e
            M.N_mp = 0
            for j, p in enumerate(st['pops'][cc]):
                k = p['rep']
                ids = uid + 1 + np.arange(k)
                uid += k
                for i in ids:
                    where[float(i * 2.**-20)] = (cc, j, int(i))
                M.add_new_MPs(k, p['w'] * W1 * heavy[cc], ids * 2.**-20, -ids * 2.**-19, ids * 2.**-18, p['v'][0] * V1 / heavy[cc], p['v'][1] * V1 / heavy[cc], p['v'][2] * V1 / heavy[cc], 1.)
        old = [(cl.MP_e.N_mp, [getattr(cl.MP_e, a)[:cl.MP_e.N_mp].copy() for a in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')]) for cl in clouds]
        l0 = look(ps, None)
        with quiet():
            ci.generate(st['dt'] * T1, list(clouds) if rng.rand() < .5 else list(order))
        l1 = look(ps, None)
        same = all(cl.MP_e.N_mp >= n0 and all(np.array_equal(getattr(cl.MP_e, a)[:n0], v) for a, v in zip(('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp'), vs))
                   for cl, (n0, vs) in zip(clouds, old))
        new, sp, orphans = [], [], 0
        for cc, cl in enumerate(clouds):
            M = cl.MP_e
            a, b = old[cc][0], M.N_mp
            cnt = {}
            for i in range(a, b):
                w = where.get(float(M.x_mp[i]))
                if w is None or M.y_mp[i] != -2 * M.x_mp[i] or M.z_mp[i] != 4 * M.x_mp[i] or (life and M.t_last_impact[i] != -1):
                    orphans += 1
                    continue
                g = cnt.setdefault((w[0], w[1], q(M.nel_mp[i], U / 6)), {})
                g[w[2]] = g.get(w[2], 0) + 1
            gs = []
            for (pc, j, nel), g in sorted(cnt.items()):
                rep = st['pops'][pc][j]['rep']
                gs.append(dict(pc=pc + 1, j=j + 1, nel=nel, tot=sum(g.values()), lo=min(g.values()) if len(g) == rep else 0, hi=max(g.values())))
            new.append(gs)
            lst = []
            for pc in range(3):
                for nel in sorted(set(g['nel'] for g in gs if g['pc'] == pc + 1)):
                    Es = set(P['Ei'] for P in c['procs'][pc] if cl.name in P['prods']
                             and int(6 * (sum(c['refs'][NAMES.index(x)] for x in P['prods']) / float(len(P['prods'])) if P['equal'] else c['refs'][cc]) + .5) == nel)
                    if len(Es) != 1:
                        continue
                    e = min(Es)
                    ii = [i for i in range(a, b) if where.get(float(M.x_mp[i]), (9,))[0] == pc and q(M.nel_mp[i], U / 6) == nel]
                    h = np.sqrt(2 * e / 3. * qe / masses[cc]) / 2 or 1.
                    vv = [getattr(M, a_)[ii] / h * 1000 for a_ in ('vx_mp', 'vy_mp', 'vz_mp')]
                    lst.append(dict(n=len(ii), max=q(max([np.max(np.abs(v)) for v in vv])), mean=[q(np.mean(v)) for v in vv], sq=[q(np.mean(v * v) / 1000) for v in vv],
                                    full=333 if e else 0, differ=bool(len(set(np.concatenate(vv))) >= 2 * len(ii))))
            sp.append(lst)
        drop = [] if l0 is None else [[q(a - b) for a, b in zip(x, y)] for x, y in zip(l0, l1)]
        lv = l1
        ev.append(dict(op='step', n=ns + 1, same=bool(same), orphans=orphans, new=new, sp=sp, drop=drop,
                       left=left(l1) if l1 is not None else first))
        if st['save'] or ns == len(c['steps']) - 1:
            r = [ci.save_cross_ion_data(nm) for nm in NAMES]
            ev.append(dict(op='save', nel=[q(x[0], U / 6) for x in r], num=[q(x[1]) for x in r], dn=[q(x[2], U) for x in r]))
            if rng.rand() < .3:
                r = [ci.save_cross_ion_data(nm) for nm in NAMES]
                ev.append(dict(op='save', nel=[q(x[0], U / 6) for x in r], num=[q(x[1]) for x in r], dn=[q(x[2], U) for x in r]))
    shutil.rmtree(fo, ignore_errors=True)
    return dict(cfg=c, left=first, ev=ev)


def main(spec):
    np.random.seed(spec['seed'])
    rng = np.random.RandomState(spec['seed'] + 1)
    ts, ins = [], []
    for n, c in enumerate(spec['configs']):
        t = one(c, rng, n)
        if t is not None:
            ts.append(t)
            ins.append(c)
    return dict(traces=ts, inputs=ins)


if __name__ == '__main__':
    common.main(main)
