"""The real primary-electron sources on TLC's configurations."""
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, c as clight, k as kb, m_e
import common
from common import q, quiet
from PyECLOUD.MP_system import MP_system
from PyECLOUD import gas_ionization_class as gic
from PyECLOUD import gen_photoemission_class as gpc
from PyECLOUD import electron_emission as ee
from PyECLOUD import geom_impact_ellip, geom_impact_rect_fast_impact, geom_impact_poly_fast_impact as gpoly

if hasattr(getattr(ee, 'time', None), 'sleep'):
    class NoSleep(object):
        sleep = staticmethod(lambda x: None)
    ee.time = NoSleep

MM, UC, DT, LAM = 1e-3, 1e3, 1e-10, 1e9
RESC = 0.999
ATTRS = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')


def chamber(H):
    with quiet():
        if H['kind'] == 'rect':
            return geom_impact_rect_fast_impact.rect_cham_geom_object(H['ax'] * MM, H['ay'] * MM, 0, flag_verbose_file=False, flag_verbose_stdout=False)
        if H['kind'] == 'ellip':
            return geom_impact_ellip.ellip_cham_geom_object(H['ax'] * MM, H['ay'] * MM, flag_verbose_file=False)
        V = np.array(H['V'], float) * MM
        return gpoly.polyg_cham_geom_object(dict(Vx=V[:, 0], Vy=V[:, 1], x_sem_ellip_insc=2 * MM, y_sem_ellip_insc=2 * MM), 0, flag_verbose_file=False, flag_verbose_stdout=False)


def depth(H, x, y):
    """> 0 inside, 0 on the wall (0..1 from the wall to the middle), and the inward normal of the nearest wall piece."""
    x, y = x / MM, y / MM
    if H['kind'] == 'ellip':
        r = np.hypot(x / H['ax'], y / H['ay'])
        n = -np.array([x / H['ax']**2, y / H['ay']**2])
        return 1 - r, n / np.maximum(np.hypot(*n), 1e-300), 1. + 0 * r
    V = np.array([[H['ax'], H['ay']], [-H['ax'], H['ay']], [-H['ax'], -H['ay']], [H['ax'], -H['ay']]] if H['kind'] == 'rect' else H['V'], float)
    W = np.roll(V, -1, axis=0)
    d = W - V
    L = np.hypot(d[:, 0], d[:, 1])
    nx, ny = -d[:, 1] / L, d[:, 0] / L
    dist = np.array([(x - V[j, 0]) * nx[j] + (y - V[j, 1]) * ny[j] for j in range(len(V))])
    h0 = np.array([-V[j, 0] * nx[j] - V[j, 1] * ny[j] for j in range(len(V))])
    rel = dist / h0[:, None]
    j = np.argmin(rel, axis=0)
    return rel[j, np.arange(len(x))], np.array([nx[j], ny[j]]), np.sort(rel, axis=0)[1]


def mps(c, ch, ref):
    with quiet():
        M = MP_system(40000, ref, 1.5, 0.25, -1, 10**9, 10**6, 0.25, 5, 5, 5, 5, 5, 1e-4, ch, charge=(-qe if c['ref'] % 2 else qe), mass=m_e * (1 + c['ref'] % 3), flag_lifetime_hist=c['life'])
    # free places hold what was left by electrons that are gone
    for w in ATTRS:
        getattr(M, w)[:] = 1.5e-3
    if c['life']:
        M.t_last_impact[:] = 4e-9
    return M


def old(M, c):
    n = c['old']
    if n:
        M.add_new_MPs(n, 77., np.arange(n) * 1e-5, -np.arange(n) * 1e-5, np.arange(n) * 1., np.arange(n) + 2., np.arange(n) + 3., np.arange(n) + 4., 5e-9)
    return [getattr(M, a)[:n].copy() for a in ATTRS] + ([M.t_last_impact[:n].copy()] if c['life'] else [])


def same(M, c, st):
    n = c['old']
    return M.N_mp >= n and all(np.array_equal(getattr(M, a)[:n], v) for a, v in zip(ATTRS, st)) and (not c['life'] or np.array_equal(M.t_last_impact[:n], st[7]))


class Tim(object):
    pass


def source(c, ch, tmp):
    """-> function generating once into M (number units: c.rate, factor f)."""
    r = c['rate']
    H = c['cham']
    tim = Tim()
    cont = c.get('cont')
    lams = np.array(c.get('lams', [0])) * LAM
    tim.lam_t_array = lams
    if c['kind'] == 'gas':
        K = 133.32e-9 / (kb * 100.) * 1e-22 * clight * LAM * DT
        P = r['p'] * UC / K
        b = c['beam']
        with quiet():
            g = gic.residual_gas_ionization(c['unif'] / 100., P, float(r['s']), 100. * r['T'], ch, float(c['E0']), flag_lifetime_hist=c['life'])
        bx, by = (b['x'] * MM, b['y'] * MM)

        def go(M, lam, dt):
            if bx == 0 and by == 0 and c['ref'] % 4 < 2:
                return g.generate(M, lam, dt, b['sx'] * MM, b['sy'] * MM)
            return g.generate(M, lam, dt, b['sx'] * MM, b['sy'] * MM, x_beam_pos=bx, y_beam_pos=by)
        return go
    kpe = r['p'] * r['s'] / float(r['T']) * UC / (clight * LAM * DT)
    if c['kind'] in ('photo', 'all', 'seg'):
        en = c['en']
        m = en['m']
        sig, mx = {'lognormal': (.5, .5 * m), 'gaussian': (2., 1. * m), 'rect': (2., 1. * m), 'mono': (3., 2. * m), 'lorentz': (1. * m, 1. * m)}[en['d']]
        c['_en'] = (sig, mx)
        R = 1.6 * np.hypot(H['ax'], H['ay']) * MM
    if c['kind'] == 'photo':
        if c['unif']:
            fn = 'unif_no_file'
        else:
            cd = c[dict(left='cdfl', right='cdfr', zero='cdf0')[c['x0']]]
            fn = tmp + '.mat'
            sio.savemat(fn, dict(inv_CDF=np.array(cd['e']) * np.pi / 16, u_sam=np.cumsum([0] + cd['p']) / 100.), oned_as='row')
        with quiet():
            return gpc.photoemission(fn, kpe, c['refl'] / 100., sig, mx, .02, 0. if c['x0'] == 'zero' else c['x0'], 0., R, ch, RESC, en['d'], c['ang'], beamtim=tim,
                                     flag_continuous_emission=cont).generate
    if c['kind'] == 'all':
        if c['unif']:
            fn = 'unif_no_file'
        else:
            cd = c['cdf']
            fn = dict(angles=np.array(cd['e']) * np.pi / 16, u_sam=np.cumsum([0] + cd['p']) / 100.)
            if not c['dict']:
                sio.savemat(tmp + '.mat', fn, oned_as='row')
                fn = tmp + '.mat'
        with quiet():
            return gpc.photoemission_from_file(fn, ch, RESC, en['d'], sig, mx, kpe, R, c['ang'], beamtim=tim, flag_continuous_emission=cont).generate
    if c['kind'] == 'seg':
        V = np.array(H['V'], float) * MM
        p = np.array(c['p'], float)
        if c['fine']:      # every edge in two pieces, one third and two thirds of it
            W = np.roll(V, -1, axis=0)
            V = np.array([v for a, b in zip(V, W) for v in (a, a + (b - a) / 3.)])
            p = np.array([x for y in p for x in (y / 3., 2 * y / 3.)])
        cdf = np.cumsum(p) / np.sum(p)
        cdf[-1] = 1.
        with quiet():
            cp = gpoly.polyg_cham_photoemission(dict(Vx=V[:, 0], Vy=V[:, 1], x_sem_ellip_insc=2 * MM, y_sem_ellip_insc=2 * MM, phem_cdf=cdf))
            return gpc.photoemission_per_segment(cp, en['d'], sig, mx, kpe, c['ang'], beamtim=tim, flag_continuous_emission=cont).generate
    bx = [None] * 4 if c['none'] else [float(v) * MM for v in c['box']]
    if c['kind'] == 'fill':
        Q = r['p'] * r['s'] / float(r['T']) * UC
        return lambda M, lam, dt: M.add_uniform_MP_distrib(Q * (lam / LAM) * (dt / DT), float(c['E0']), bx[1], bx[0], bx[3], bx[2])
    n = r['p'] / 100. * UC / MM**2
    return lambda M, lam, dt: M.add_uniform_ele_density(n, float(c['E0']), bx[1], bx[0], bx[3], bx[2])


def charge(c, lam):
    """Asked of one call, in units (for the large run only; the specification computes its own)."""
    r = c['rate']
    if c['kind'] == 'dens':
        b = [-c['cham']['ax'], c['cham']['ax'], -c['cham']['ay'], c['cham']['ay']] if c['none'] else c['box']
        return r['p'] / 100. * (b[1] - b[0]) * (b[3] - b[2])
    l = np.mean(c['lams']) if c.get('cont') else lam
    return r['p'] * r['s'] * l * r['dt'] / float(r['T'])


def attrs(M, c, a, ref, z=True):
    s = slice(a, M.N_mp)
    return bool(np.all(M.nel_mp[s] == ref) and (not c['life'] or np.all(M.t_last_impact[s] == -1)) and np.all(np.isfinite([getattr(M, w)[s] for w in ATTRS])) and (not z or np.all(M.z_mp[s] == 0)))


def one(c, rng, tmp):
    H = c['cham']
    ch = chamber(H)
    r = c['rate']
    ref = c['ref'] * UC
    ev = []
    if c['kind'] == 'file':
        M = mps(c, ch, ref)
        st = old(M, c)
        a, n = M.N_mp, c['n']
        d = dict((w, rng.rand(n) + 1) for w in ATTRS)
        if c['last']:
            d['t_last_impact'] = rng.rand(n)
        d['N_mp'] = n
        f = d
        if c['str']:
            sio.savemat(tmp + '.mat', d, oned_as='row')
            f = tmp + '.mat'
        with quiet():
            M.add_from_file(f)
        ok = M.N_mp == a + n and all(np.array_equal(getattr(M, w)[a:a + n], d[w]) for w in ATTRS)
        if c['life'] and ok:
            ok = np.array_equal(M.t_last_impact[a:a + n], d['t_last_impact']) if c['last'] else np.all(M.t_last_impact[a:a + n] == -1)
        return dict(cfg=c, ev=[dict(op='file', ok=bool(ok), same=bool(same(M, c, st)))])
    go = source(c, ch, tmp)
    cnt, sm, at, ins = [], True, True, True
    for j in range(c['calls']):
        M = mps(c, ch, ref) if j == 0 else M
        if j == 0:
            st = old(M, c)
        M.N_mp = c['old']
        with quiet():
            go(M, r['lam'] * LAM, r['dt'] * DT)
        sm = sm and same(M, c, st)
        a = c['old']
        at = at and attrs(M, c, a, ref)
        ins = ins and not np.any(depth(H, M.x_mp[a:M.N_mp], M.y_mp[a:M.N_mp])[0] < -1e-12)
        cnt.append(M.N_mp - a)
    # one large step
    lam = r['lam'] or 1
    Q = charge(c, lam)
    big = dict(n=0, want=0)
    if Q > 0:
        rb = Q * UC / c['big']
        M = mps(c, ch, rb)
        st = old(M, c)
        with quiet():
            go(M, lam * LAM, r['dt'] * DT)
        sm = sm and same(M, c, st)
        a = c['old']
        at = at and attrs(M, c, a, rb)
        s = slice(a, M.N_mp)
        x, y = M.x_mp[s].copy(), M.y_mp[s].copy()
        v = np.array([M.vx_mp[s], M.vy_mp[s], M.vz_mp[s]])
        n = len(x)
        big = dict(n=n, want=c['big'])
        dep = depth(H, x, y)[0]
        ins = ins and not np.any(dep < -1e-12)
    ev.append(dict(op='gen', lo=int(min(cnt)), hi=int(max(cnt)), tot=int(sum(cnt)), n=big['n'], want=big['want'], same=bool(sm), attr=bool(at), inside=bool(ins)))
    if Q > 0 and n > 0:
        if c['kind'] in ('gas', 'fill', 'dens'):
            cut = lambda b: int(np.sum((x > b[0] * MM) & (x < b[1] * MM) & (y > b[2] * MM) & (y < b[3] * MM)))
            b = c.get('box') if c['kind'] != 'gas' and not c['none'] else [-H['ax'], H['ax'], -H['ay'], H['ay']]
            e = dict(op='place', n=n, out=int(n - np.sum((x >= b[0] * MM - 1e-12) & (x <= b[1] * MM + 1e-12) & (y >= b[2] * MM - 1e-12) & (y <= b[3] * MM + 1e-12))), cnt=[cut(b) for b in c['boxes']], beam=[])
            if c['kind'] == 'gas':
                bm = c['beam']
                for (i0, i1), (j0, j1) in PAIRS:
                    e['beam'].append(cut([bm['x'] + i0 * bm['sx'] / 2., bm['x'] + i1 * bm['sx'] / 2., bm['y'] + j0 * bm['sy'] / 2., bm['y'] + j1 * bm['sy'] / 2.]))
            ev.append(e)
            h = np.sqrt(2 * c['E0'] / 3. * qe / M.mass) / 2 or 1.
            vv = v / h * 1000
            ev.append(dict(op='speed', n=n, max=q(np.max(np.abs(vv))), mean=[q(np.mean(w)) for w in vv], sq=[q(np.mean(w * w) / 1000) for w in vv], full=333 if c['E0'] else 0,
                           differ=int(min(len(set(w)) for w in vv))))
        else:
            ev.append(wall(c, H, n, x, y, v, dep, M.mass))
    return dict(cfg=dict((k_, w) for k_, w in c.items() if k_[0] != '_'), ev=ev)


PAIRS = [((-2, 2), (-2, 2)), ((0, 2), (-1, 3)), ((-4, -1), (-4, 4)), ((1, 8), (-8, 8)), ((-8, 8), (1, 8)), ((-8, 0), (-8, 0))]


def wall(c, H, n, x, y, v, dep, mass):
    # where the photon hits: the point is drawn back towards where it comes from
    ang = np.arctan2(y, x)
    direct = np.abs(ang) < .11 if c['kind'] == 'photo' else np.zeros(n, bool)
    file1 = c['kind'] == 'photo' and not c['unif']
    x0 = {'left': -1, 'right': 1, 'zero': 0}[c['x0']] * (H['ax'] * MM) * .99999 if file1 else 0.
    from_ = np.where(direct, 0., x0)
    f = 1. if c['kind'] == 'seg' else RESC
    dist, nrm, second = depth(H, from_ + (x - from_) / f, y / f)
    clear = second > 1e-4      # corners have no normal
    far = int(np.sum(np.abs(dist) > 1e-6))
    sig, mx = c['_en']
    E = .5 * mass * np.sum(v * v, axis=0) / qe
    d = c['en']['d']
    ks = range(-4, 5)
    th = {'lognormal': [np.exp(mx + k_ * sig / 2) for k_ in ks], 'gaussian': [mx + k_ * sig / 2 for k_ in ks], 'rect': [mx + k_ * sig / 8 for k_ in ks], 'mono': [mx * (1 + 1e-6 * k_) for k_ in ks],
          'lorentz': [mx + sig * np.tan(k_ * np.pi / 8) for k_ in (-2, 0, 1, 2, 3)]}[d]
    speed = np.sqrt(np.sum(v * v, axis=0))
    cos = (v[0] * nrm[0] + v[1] * nrm[1]) / np.maximum(speed, 1e-300)
    tang = (v[0] * nrm[1] - v[1] * nrm[0])
    cs = cos[clear]
    e = dict(op='wall', n=n, m=len(cs), pos=int(np.sum(E >= 0)), below=[int(np.sum(E < t)) for t in th], inw=int(np.sum(cs > 0)), cosb=[int(np.sum(cs < t)) for t in (.25, .5, .75)], one=int(np.sum(cs > 1 - 1e-5)),
             zpos=int(np.sum(v[2] > 0)), tpos=int(np.sum(tang > 0)), differ=len(set(np.round(v[2] / np.maximum(speed, 1e-300), 12))), far=far, direct=int(np.sum(direct)), core=int(np.sum(direct & (np.abs(ang) < .02))),
             bins=[], half=[], sect=[])
    if c['kind'] == 'seg':
        V = np.array(H['V'], float)
        W = np.roll(V, -1, axis=0)
        for a, b in zip(V, W):
            t = ((x / MM - a[0]) * (b[0] - a[0]) + (y / MM - a[1]) * (b[1] - a[1])) / np.sum((b - a)**2)
            dd = np.abs((b[0] - a[0]) * (y / MM - a[1]) - (b[1] - a[1]) * (x / MM - a[0])) / np.hypot(*(b - a))
            on = (dd < 1e-6) & (t > -1e-9) & (t < 1 + 1e-9)
            e['bins'].append([int(np.sum(on)), int(np.sum(on & (t < 1 / 3.))), int(np.sum(on & (t < .5)))])
        return e
    if file1:
        psi = np.arctan2(y, -(x - x0))
        cd = c[dict(left='cdfl', right='cdfr', zero='cdf0')[c['x0']]]['e']
        p8 = np.where(psi < (-np.pi + .3 if c['x0'] != 'left' else -.1), psi + 2 * np.pi, psi) * 16 / np.pi
        e['bins'] = [int(np.sum(~direct & (p8 > a - 1e-6) & (p8 <= b + 1e-6))) for a, b in zip(cd[:-1], cd[1:])]
        e['half'] = [int(np.sum(~direct & (p8 > a) & (p8 <= (a + b) / 2.))) for a, b in zip(cd[:-1], cd[1:])]
        return e
    if c['kind'] == 'photo' or c['unif']:
        a8 = np.floor(np.mod(ang, 2 * np.pi) / (np.pi / 4)).astype(int)
        e['sect'] = [int(np.sum(~direct & (a8 == j))) for j in range(8)]
        return e
    cd = c['cdf']['e']
    for a, b in zip(cd[:-1], cd[1:]):
        f = np.mod(ang * 16 / np.pi - a, 32)
        e['bins'].append(int(np.sum((f <= b - a + 1e-6) | (f > 32 - 1e-6))))
    e['half'] = [int(np.sum(np.mod(ang * 16 / np.pi - a, 32) <= (b - a) / 2.)) for a, b in zip(cd[:-1], cd[1:])]
    return e


def main(spec):
    np.random.seed(spec['seed'])
    rng = np.random.RandomState(spec['seed'] + 1)
    ts = []
    for n, c in enumerate(spec['configs']):
        keep = dict(c)
        t = one(c, rng, 'pr%d' % n)
        t['cfg'] = keep
        ts.append(t)
    return dict(traces=ts)


if __name__ == '__main__':
    common.main(main)
