"""Histories of wall interactions in the real impact manager: a real store, chamber and emission model on lattice configurations."""
import numpy as np
import common
import geometry
import seymodels
from common import q, quiet
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD import geom_impact_poly_fast_impact as gipfi

ME, QE = 9.10938291e-31, 1.602176565e-19
FINE = 50
TAU = 1e-9
ETH = 35
COLS = ['x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp', 't_last_impact']
RESET = dict(tot='reset_impact_hist_tot', scrub='reset_impact_hist_scrub', en='reset_energ_eV_impact_hist', enline='reset_En_hist_line', cos='reset_cos_angle_hist',
             seg='reset_hist_impact_seg', emit='reset_hist_emit_seg', eseg='reset_energ_impact_seg', segline='reset_seg_En_hist_lines', life='reset_lifetime_hist_line')


def chamber(c, U):
    if c['model'] in ('nunif', 'charging'):
        d = geometry.polygon(c['P'], c['cx'], c['cy'], U)
        d.update(seymodels.segments(len(c['P']), c['model'] == 'charging'))
        return gipfi.polyg_cham_geom_object(d, True, flag_assume_convex=c['convex'])
    return geometry.chamber(c)


def ev(v, m=ME):
    return .5 * m / QE * v * v


def hists(im, c):
    # charges in 1e-3, energies in 1e-3 charge eV
    h = dict(tot=im.nel_impact_hist_tot, scrub=im.nel_impact_hist_scrub, en=im.energ_eV_impact_hist, enline=im.En_hist_line)
    if c['ang']:
        h['cos'] = im.cos_angle_hist
    if c['seg']:
        h.update(seg=im.nel_hist_impact_seg, emit=im.nel_hist_emit_seg, eseg=im.energ_eV_impact_seg)
    if c['eseg']:
        h['segline'] = np.concatenate(im.seg_En_hist_lines)
    if c['life']:
        h['life'] = im.lifetime_hist_line
    return dict((k, [q(v, 1e-3) for v in a]) for k, a in h.items())


def counters(im):
    return dict(ni=q(im.Nel_impact_last_step, 1e-3), ne=q(im.Nel_emit_last_step, 1e-3), ei=q(im.En_imp_last_step_eV, 1e-3), ee=q(im.En_emit_last_step_eV, 1e-3))


def snap(mp, n):
    return [np.array(getattr(mp, c)[:n]) for c in COLS]


def place(mp, ch, ps, n, U):
    A = np.array
    mp.x_mp[:n] = U * A([p['p'][0] for p in ps], float)
    mp.y_mp[:n] = U * A([p['p'][1] for p in ps], float)
    mp.z_mp[:n] = 0.
    old = mp.get_positions()
    d = np.array([[p['q'][0] - p['p'][0], p['q'][1] - p['p'][1], p['vz']] for p in ps], float)
    d[(d == 0).all(axis=1)] = [1., 0., 0.]
    nd = d / np.sqrt((d * d).sum(axis=1))[:, None]
    v = nd * np.sqrt(2 * QE / ME * A([p['e'] for p in ps], float))[:, None]
    mp.vx_mp[:n], mp.vy_mp[:n], mp.vz_mp[:n] = v.T
    mp.nel_mp[:n] = A([p['w'] for p in ps], float)
    mp.x_mp[:n] = U * A([p['q'][0] for p in ps], float)
    mp.y_mp[:n] = U * A([p['q'][1] for p in ps], float)
    mp.z_mp[:n] = U
    # the chamber's own answers (P18) for the histograms
    out = np.array(ch.is_outside(mp.x_mp[:n], mp.y_mp[:n]), bool)
    m = np.nonzero(out)[0]
    geo = [None if g is None else np.array(g) for g in ch.impact_point_and_normal(old.x_mp[:n][m], old.y_mp[:n][m], old.z_mp[:n][m], mp.x_mp[:n][m], mp.y_mp[:n][m], mp.z_mp[:n][m])]
    return old, v, nd, out, m, geo


def history(c):
    U = geometry.unit(c)
    ell = c['kind'] == 'ellip'
    with quiet():
        ch = chamber(c, U)
        sey = seymodels.make(c['model'], ch, noinc=c['noinc'], eth=float(ETH))
        mp = MP_system(3000, c['split'] / 1.5, 1.5, 0.1, -1, 10**9, 10**6, c['D'] * U, 5, 5, 5, 5, 5, 1e-4, ch, charge=-QE, mass=ME, flag_lifetime_hist=True)
        im = impact_management(ch, sey, c['D'] * U, c['th'] + .5, c['nb'], float(c['de'] * (c['nb'] - 1)), Nbin_lifetime_hist=c['nl'], lifetime_hist_max=c['dl'] * TAU * (c['nl'] - 1),
                               flag_lifetime_hist=c['life'], flag_seg=c['seg'], flag_En_hist_seg=c['eseg'], cos_angle_width=c['cw'] * 1e-3, flag_cos_angle_hist=c['ang'])
    P = [] if ell else [[q(x, U), q(y, U)] for x, y in zip(ch.Vx[:-1], ch.Vy[:-1])]
    head = dict(cfg=dict((k, c[k]) for k in ('kind', 'P', 'a', 'b', 'D', 'nb', 'de', 'th', 'cw', 'nl', 'dl', 'seg', 'eseg', 'life', 'ang', 'model', 'noinc')), P=P)
    grid = [q(x, c['D'] * U) for x in im.xg_hist]
    wall = dict(head, ev=[])
    tally = dict(head, ev=[dict(op='shape', grid=grid, even=bool(np.allclose(im.xg_hist, np.array(grid) * c['D'] * U, atol=1e-9 * U)),
                                cover=bool(im.xg_hist[-1] >= ch.x_aper and im.xg_hist[0] <= -ch.x_aper),
                                eng=[q(e, 1e-3) for e in im.En_g_hist], h=hists(im, c))])
    n0 = len(c['steps'][0]['ps'])
    z = np.zeros(n0)
    mp.add_new_MPs(n0, np.ones(n0), z, z, z, z, z, z, 0.)
    for s, st in enumerate(c['steps']):
        tt = (s + 1) * TAU
        rs = [r for r in sorted(st['reset']) if st['reset'][r] and (r in ('tot', 'scrub', 'en', 'enline') or (r == 'cos' and c['ang']) or (r in ('seg', 'emit', 'eseg') and c['seg'])
                                                                   or (r == 'segline' and c['eseg']) or (r == 'life' and c['life']))]
        for r in rs:
            getattr(im, RESET[r])()
        if st['idle']:
            n, mp.N_mp = mp.N_mp, 0
            im.backtrack_and_second_emiss(mp.get_positions(), mp, tt)
            tally['ev'].append(dict(op='idle', left=int(mp.N_mp), cn=counters(im), h=hists(im, c), reset=rs))
            mp.N_mp = n
            rs = []
        n = mp.N_mp = min(int(mp.N_mp), 14)
        ps = [st['ps'][(j + s) % len(st['ps'])] for j in range(n)]
        old, v, nd, out, m, geo = place(mp, ch, ps, n, U)
        # coincident impacts cannot be told apart afterwards: keep the first
        seen = set()
        for i, j in enumerate(m):
            at = (q(geo[0][i], U / 1000), q(geo[1][i], U / 1000))
            if at in seen:
                ps[j] = dict(ps[j], q=ps[j]['p'])
            seen.add(at)
        old, v, nd, out, m, geo = place(mp, ch, ps, n, U)
        before = snap(mp, n)
        hold = snap(mp, len(mp.x_mp))
        im.backtrack_and_second_emiss(old, mp, tt)
        N = int(mp.N_mp)
        after = snap(mp, N)
        out2 = np.array(ch.is_outside(mp.x_mp[:N], mp.y_mp[:N]), bool)
        en = ev(np.sqrt(after[3]**2 + after[4]**2 + after[5]**2))
        en0 = ev(np.sqrt(before[3]**2 + before[4]**2 + before[5]**2))
        rows, imps, ems = [], [], []
        DX = c['D'] * U
        seg_of = {}
        for j in range(n):
            i = int(np.nonzero(m == j)[0][0]) if out[j] else -1
            same = all(a[j] == b[j] for a, b in zip(after, before))
            x, y = after[0][j], after[1][j]
            px, py = old.x_mp[j], old.y_mp[j]
            dx, dy = before[0][j] - px, before[1][j] - py
            d2 = dx * dx + dy * dy
            r = dict(p=ps[j]['p'], q=ps[j]['q'], same=same, live=bool(after[6][j] > 0), still=bool(out2[j]), o=[q(x, U / FINE), q(y, U / FINE)], o3=[q(x + .03 * dx, U / FINE), q(y + .03 * dy, U / FINE)],
                     f=0, off=0, v=vel(after, j), e0=q(en0[j], .01), e=q(en[j], .01), t=q(after[7][j], TAU), t0=q(before[7][j], TAU))
            if d2 > 0:
                r['f'] = q(((x - px) * dx + (y - py) * dy) / d2, 1e-4)
                r['off'] = q(abs((x - px) * dy - (y - py) * dx) / np.sqrt(d2), 1e-4 * U)
            rows.append(r)
            if out[j]:
                sg = -1 if geo[5] is None else int(geo[5][i])
                seg_of[j] = sg
                c3 = abs(nd[j][0] * geo[3][i] + nd[j][1] * geo[4][i])
                imps.append(dict(x=q(geo[0][i], DX / 1000), w=ps[j]['w'], e=ps[j]['e'], c=q(c3, 1e-4), seg=sg, life=q(tt - before[7][j], TAU) if before[7][j] > 0 else -1))
                ems.append(dict(x=q(x, DX / 1000), w=q(after[6][j], 1e-3), ee=q(after[6][j] * en[j], 1e-3), seg=sg))
        at = {}
        for j in m:
            at.setdefault((after[0][j], after[1][j]), []).append(int(j))
        new = []
        for j in range(n, N):
            par = at.get((after[0][j], after[1][j]), [])
            new.append(dict(par=[i + 1 for i in par], live=bool(after[6][j] > 0), v=vel(after, j), e=q(en[j], .01), t=q(after[7][j], TAU)))
            ems.append(dict(x=q(after[0][j], DX / 1000), w=q(after[6][j], 1e-3), ee=q(after[6][j] * en[j], 1e-3), seg=seg_of[par[0]] if par else -1))
        beyond = all((a[N:] == b[N:]).all() for a, b in zip(snap(mp, len(mp.x_mp)), hold))
        wall['ev'].append(dict(op='step', rows=rows, new=new, tt=s + 1, beyond=bool(beyond)))
        tally['ev'].append(dict(op='step', imps=imps, ems=ems, reset=rs, cn=counters(im), h=hists(im, c), left=N))
    return wall, tally


def vel(a, j):
    v = np.sqrt(a[3][j]**2 + a[4][j]**2 + a[5][j]**2)
    return [q(a[3][j] / v, 1e-3), q(a[4][j] / v, 1e-3)] if v > 0 else [0, 0]


def main(spec):
    np.random.seed(spec['seed'])
    walls, tallies = [], []
    with quiet():
        for c in spec['configs']:
            w, t = history(c)
            walls.append(w)
            tallies.append(t)
    return dict(walls=walls, tallies=tallies, inputs=spec['configs'])


if __name__ == '__main__':
    common.main(main)
