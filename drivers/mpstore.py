"""Replays operation sequences of MPStore into the real MP_system and records what its public attributes show."""
import numpy as np
import common
from common import q, quiet
from PyECLOUD.MP_system import MP_system
from PyECLOUD import geom_impact_rect_fast_impact as girfi
import scipy.io as sio

SCALE = 128          # one unit of the abstract model is 128 units of the trace
U = 2.**10           # charges per trace unit
COLS = ['x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp']


class Rec(object):
    def __init__(self, cap, soft, asyn, life=True):
        with quiet():
            chamb = girfi.rect_cham_geom_object(2., 1., 0, flag_verbose_file=False, flag_verbose_stdout=False)
            self.mp = MP_system(cap, 1024 * U, 1.5, 0.25, -1, 10**9, 10**6, 0.25, 5, 5, 5, 5, 5, 1e-4, chamb,
                                N_mp_soft_regen=soft[0], N_mp_after_soft_regen=soft[1],
                                N_mp_async_regen=asyn[0], N_mp_after_async_regen=asyn[1],
                                charge=-1., mass=1., flag_lifetime_hist=life, name='c')
        self.life = life
        self.chamb = chamb
        self.cap = cap
        self.next = 1
        self.table = {}
        self.ev = []

    def rows(self, nels, tl):
        k = len(nels)
        ids = list(range(self.next, self.next + k))
        self.next += k
        i = np.array(ids, float)
        r = dict(x_mp=i * 2.**-12, y_mp=-i * 2.**-13, z_mp=i * 2.**-5, vx_mp=i * 1024., vy_mp=-i * 512. + 3, vz_mp=i * 3.,
                 nel_mp=np.array(nels, float) * U, t_last_impact=np.array(tl, float))
        for j, n in enumerate(ids):
            self.table[tuple(float(r[c][j]) for c in COLS)] = n
        return ids, r

    def look(self, fresh=False):
        mp = self.mp
        n = int(mp.N_mp)
        out, new = [], []
        for j in range(n):
            key = tuple(float(getattr(mp, c)[j]) for c in COLS)
            i = self.table.get(key, 0)
            e = dict(id=i, nel=q(mp.nel_mp[j], U), tl=q(mp.t_last_impact[j]) if self.life else -1)
            if i == 0 and fresh:
                e['id'] = self.table[key] = self.next
                self.next += 1
                new.append((e, key))
            out.append(e)
        return dict(mp=out, n=n, ref=q(mp.nel_mp_ref, U), spl=q(mp.nel_mp_split, U), cln=q(mp.nel_mp_cl_th, U)), new

    def do(self, o, rng):
        mp, op = self.mp, o['op']
        e = dict(op=op, ps=[], raised=False)
        fresh = False
        room = self.cap - int(mp.N_mp)
        if op in ('add', 'file', 'load'):
            nels = [v * SCALE for v in o['nel']]
            if op != 'load' and len(nels) > room:
                e['op'] = op = 'over'
                o = dict(o, k=len(nels))
        if op == 'unif' and (o['dn'] * SCALE * U) / mp.nel_mp_ref + 1 > room:
            e['op'] = op = 'read'
        if op == 'over':
            k = o.get('k', room + 1)
            e['k'] = k
            save = dict(self.table), self.next
            ids, r = self.rows([1024] * k, [0] * k)
            self.table, self.next = save[0], save[1]
            try:
                with quiet():
                    if rng.rand() < .5:
                        mp.add_new_MPs(k, r['nel_mp'], *[r[c] for c in COLS], r['t_last_impact'])
                    else:
                        mp.add_from_file(dict(r, N_mp=k))
            except ValueError:
                e['raised'] = True
        elif op == 'add':
            ids, r = self.rows(nels, [j + 1 + self.next for j in range(len(nels))])
            e['ps'] = [dict(id=i, nel=n, tl=q(t)) for i, n, t in zip(ids, nels, r['t_last_impact'])]
            with quiet():
                mp.add_new_MPs(len(nels), r['nel_mp'], *[r[c] for c in COLS], r['t_last_impact'])
        elif op in ('file', 'load'):
            tl = [5 + j for j in range(len(nels))] if rng.rand() < .5 else None
            ids, r = self.rows(nels, tl or [-1] * len(nels))
            if tl is None:
                del r['t_last_impact']
            e['ps'] = [dict(id=i, nel=n, tl=(tl[j] if tl else -1)) for j, (i, n) in enumerate(zip(ids, nels))]
            d = dict(r, N_mp=len(nels))
            with quiet():
                if op == 'load':
                    mp.init_from_dict(d)
                elif rng.rand() < .5:
                    mp.add_from_file(d)
                else:
                    sio.savemat('mp_init.mat', d, oned_as='row')
                    mp.add_from_file('mp_init.mat')
        elif op == 'unif':
            e['dn'] = o['dn'] * SCALE
            fresh = True
            with quiet():
                kind = rng.randint(2)
                box = [(None,) * 4, (1., -1., .5, -.5)][rng.randint(2)]
                if kind == 0:
                    mp.add_uniform_MP_distrib(e['dn'] * U, 3., box[0], box[1], box[2], box[3])
                else:
                    area = 8. if box[0] is None else 2.
                    mp.add_uniform_ele_density(e['dn'] * U / area, 3., box[0], box[1], box[2], box[3])
        elif op == 'clean':
            with quiet():
                mp.clean_small_MPs()
        elif op == 'soft':
            e['t'] = o['t']
            with quiet():
                mp.perform_soft_regeneration(o['t'])
        elif op == 'csoft':
            with quiet():
                mp.check_for_soft_regeneration()
        elif op == 'casync':
            with quiet():
                mp.check_for_async_regeneration()
        elif op == 'setref':
            e['v'] = o['v'] * SCALE
            mp.set_nel_mp_ref(e['v'] * U)
        elif op == 'read':
            n = int(mp.N_mp)
            p, d = mp.get_positions(), mp.extract_dict()
            ok = len(p.x_mp) == n and int(d['N_mp']) == n
            for c in COLS + ['nel_mp']:
                ok = ok and len(d[c]) == n and bool(np.all(d[c] == getattr(mp, c)[:n]))
            ok = ok and bool(np.all(p.x_mp == mp.x_mp[:n]) and np.all(p.y_mp == mp.y_mp[:n]) and np.all(p.z_mp == mp.z_mp[:n]))
            p.x_mp += 1.      # copies: writing to them must not reach the store
            p.y_mp += 1.
            p.z_mp += 1.
            for c in COLS + ['nel_mp']:
                d[c] += 1.
            e['ok'] = bool(ok)
        if not self.life:
            for p in e['ps']:
                p['tl'] = -1
        e['post'], new = self.look(fresh)
        if op == 'unif':
            e['ps'] = [a for a, _ in new]
            hx, hy = (2., 1.) if box[0] is None else (1., .5)
            e['inside'] = all(abs(k[0]) <= hx and abs(k[1]) <= hy and k[2] == 0. for _, k in new)
        self.ev.append(e)


def main(spec):
    out = []
    for k, b in enumerate(spec['behaviours']):
        np.random.seed(spec['seed'] * 1000 + k)
        rng = np.random.RandomState(spec['seed'] * 7919 + k)     # the driver's own choices
        off = [None, None]
        soft, asyn = [(spec['soft'], spec['async']), (spec['soft'], off), (off, spec['async']), (off, off)][k % 4 if k % 3 else 0]
        r = Rec(spec['cap'], soft, asyn, life=bool(k % 5))
        for o in b:
            r.do(o, rng)
        far = [10**6, 10**6]
        out.append(dict(soft=far if soft is off else soft, asyn=far if asyn is off else asyn, ev=r.ev))
    for k in range(spec['thin']):
        np.random.seed(spec['seed'] * 1000 + 900 + k)
        n, t = [(400, 200), (300, 240), (500, 100), (400, 300)][k % 4]
        r = Rec(1000, (n - 1, t), (n - 1, t))
        mp = r.mp
        o, i = np.ones(n), np.arange(n) * 1.
        nel = np.where(i % 2, 1024., 512.) * U
        mp.add_new_MPs(n, nel, i, i % 3, i % 5, i % 7, i % 11, i % 13, i)
        with quiet():
            [lambda: mp.perform_soft_regeneration(t), mp.check_for_soft_regeneration, mp.check_for_async_regeneration][k % 3]()
        x = mp.x_mp[:mp.N_mp]
        post, _ = Rec(4, (None, None), (None, None)).look()
        sel = [lambda a: a < n // 4, lambda a: (a >= n // 4) & (a < n // 2), lambda a: a >= n // 2, lambda a: a % 2 == 0,
               lambda a: a % 3 == 0, lambda a: a == a]
        out.append(dict(soft=[n - 1, t], asyn=[n - 1, t], ev=[dict(
            op='thin', ps=[], raised=False, n=n, t=t, groups=[dict(n=int(np.sum(f(i))), k=int(np.sum(f(x)))) for f in sel],
            post=post)]))
    return out


common.main(main)
