"""Full regenerations of the real MP_system, on clusters of macroparticles."""
import numpy as np
import common
from common import q, quiet
from PyECLOUD.MP_system import MP_system
from PyECLOUD import geom_impact_rect_fast_impact as girfi
from PyECLOUD import geom_impact_ellip as gie

U = 2.**10
XU, VU = 2.**-8, 2.**-4


def store(chamb, regen=(20, 4, 8), ref0=1024):
    with quiet():
        return MP_system(4000, ref0 * U, 1.5, 0.25, regen[1], regen[0], regen[2], 0.25, 21, 9, 9, 9, 9, 1. / 16, chamb,
                         charge=-1., mass=1., flag_lifetime_hist=True, name='c')


def add(mp, c, k, nel):
    o = np.ones(k)
    mp.add_new_MPs(k, nel * o, c['x'] * XU * o, c['y'] * XU * o, 0 * o, c['vx'] * VU * o, c['vy'] * VU * o,
                   c['vz'] * VU * o, 3. * o)


def main(spec):
    with quiet():
        chambs = [girfi.rect_cham_geom_object(2., 1., 0, flag_verbose_file=False, flag_verbose_stdout=False),
                  gie.ellip_cham_geom_object(2., 1., flag_verbose_file=False)]
    out = []
    for k in range(spec['n']):
        rng = np.random.RandomState(spec['seed'] * 7919 + k)
        np.random.seed(spec['seed'] * 1000 + k)
        chamb = chambs[k % 2]
        mp = store(chamb)
        ev = []
        if k % 3 == 0:
            # fast macroparticles that are gone when the regeneration comes
            add(mp, dict(x=384, y=0, vx=2000, vy=-3000, vz=5000), 400, U)
            mp.clean_small_MPs()
        places = [(x, y, vx, vy, vz) for x in (-384, -192, 0, 192, 384) for y in (-128, 0, 128) for vx in (-128, 0, 128)
                  for vy in (-128, 0, 128) for vz in (-64, 0, 64)
                  if not (k % 2 and abs(x) == 384 and y != 0)]
        sel = rng.choice(len(places), rng.randint(1, 7), replace=False)
        grow = rng.rand() < .5
        for s in sel:
            c = dict(zip(('x', 'y', 'vx', 'vy', 'vz'), places[s]))
            nmp = int(rng.choice([1, 2, 4, 8] if not grow else [1, 2]))
            nel = int(rng.choice([4, 64, 512, 1024, 1500, 4096, 9000, 40000]))
            add(mp, c, nmp, nel * U)
            ev.append(dict(c, op='fill', q=nmp * nel, n=nmp))
        if rng.rand() < .5:
            r = int(rng.choice([1024, 2048, 5000]))
            mp.set_nel_mp_ref(r * U)
            ev.append(dict(op='setref', ref=r))
        before = {c: getattr(mp, c).copy() for c in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')}
        n0 = int(mp.N_mp)
        with quiet():
            mp.check_for_regeneration()
        n = int(mp.N_mp)
        same = n == n0 and all(bool(np.all(before[c][:n] == getattr(mp, c)[:n])) for c in before)
        out_ = chamb.is_outside(mp.x_mp[:n], mp.y_mp[:n]) if n else []
        parts = [dict(x=q(mp.x_mp[i], XU), y=q(mp.y_mp[i], XU), vx=q(mp.vx_mp[i], VU), vy=q(mp.vy_mp[i], VU),
                      vz=q(mp.vz_mp[i], VU), nel=q(mp.nel_mp[i], U), inside=not bool(out_[i]), tl=q(mp.t_last_impact[i]))
                 for i in range(n)]
        ev.append(dict(op='regen', parts=parts, n=n, ref=q(mp.nel_mp_ref, U), spl=q(mp.nel_mp_split, U),
                       cln=q(mp.nel_mp_cl_th, U), same=bool(same)))
        out.append(dict(ev=ev))

    # Rounding of the number of macroparticles is unbiased: many independent cells with a fraction fn/fd
    for j, (kind, fn, fd) in enumerate([(a, f, 4) for a in ('regen', 'unif', 'edens') for f in (1, 2, 3)]):
        np.random.seed(spec['seed'] * 1000 + 500 + j)
        t, m = spec['trials'], 0
        for _ in range(t):
            if kind == 'regen':
                mp = store(chambs[0], regen=(1, -1, 10))
                add(mp, dict(x=0, y=0, vx=0, vy=0, vz=0), 2, (1024 * 2 + 256 * fn) / 2. * U)
                with quiet():
                    mp.check_for_regeneration()
                m += int(mp.N_mp) - 2
            else:
                mp = store(chambs[0])
                dn = (1024 * 2 + 256 * fn) * U
                with quiet():
                    if kind == 'unif':
                        mp.add_uniform_MP_distrib(dn, 1., None, None, None, None)
                    else:
                        mp.add_uniform_ele_density(dn / 8., 1., None, None, None, None)
                m += int(mp.N_mp) - 2
        out.append(dict(ev=[dict(op='trials', kind=kind, t=t, m=m, fn=fn, fd=fd)]))
    return out


common.main(main)
