"""The real chambers on lattice configurations."""
import numpy as np
import common
from common import q, quiet
from PyECLOUD import geom_impact_poly_fast_impact as gipfi
from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object

FINE = 50


def unit(c):
    return 2. ** -11 if c['exact'] else 7.3e-4


def polygon(P, cx, cy, U):
    return {'Vx': U * np.array([v[0] for v in P], float), 'Vy': U * np.array([v[1] for v in P], float),
            'x_sem_ellip_insc': U * cx / 64., 'y_sem_ellip_insc': U * cy / 64.}


def chamber(c):
    U = unit(c)
    if c['kind'] == 'ellip':
        return ellip_cham_geom_object(c['a'] * U, c['b'] * U, flag_verbose_file=False)
    if c['kind'] == 'rect':
        return rect_cham_geom_object(c['P'][0][0] * U, c['P'][0][1] * U, False)
    return gipfi.polyg_cham_geom_object(polygon(c['P'], c['cx'], c['cy'], U), False, flag_assume_convex=c['convex'])


def arr(v, U):
    a = U * np.array(v, float).reshape(-1, 2)
    return np.ascontiguousarray(a[:, 0]), np.ascontiguousarray(a[:, 1])


def one(c):
    U = unit(c)
    try:
        ch = chamber(c)
        refused = False
    except ValueError:
        refused = True
    t = dict(cfg=dict((k, c[k]) for k in ('kind', 'P', 'convex', 'a', 'b')), P=[], ev=[dict(op='build', refused=refused)])
    if refused:
        return t
    ell = c['kind'] == 'ellip'
    if not ell:
        t['P'] = [[q(x, U), q(y, U)] for x, y in zip(ch.Vx[:-1], ch.Vy[:-1])]
    t['ev'].append(dict(op='shape', area2=q(2 * ch.area, U * U), xa=q(ch.x_aper, U), ya=q(ch.y_aper, U),
                        nvert=0 if ell else int(ch.N_vert), nconvex=bool(ch.is_convex())))
    if c['pts']:
        x, y = arr(c['pts'], U)
        t['ev'].append(dict(op='points', pts=c['pts'], out=[bool(b) for b in ch.is_outside(x, y)]))
    if c['paths']:
        xi, yi = arr([p[0] for p in c['paths']], U)
        xo, yo = arr([p[1] for p in c['paths']], U)
        out = np.array(ch.is_outside(xo, yo), bool)
        m = np.nonzero(out)[0]
        zi, zo = np.zeros(len(xi)), U * np.ones(len(xi))
        got = [None if v is None else np.array(v) for v in ch.impact_point_and_normal(xi[m], yi[m], zi[m], xo[m], yo[m], zo[m])]
        still = ch.is_outside(got[0], got[1])
        rs = []
        for j in range(len(xi)):
            r = dict(p=c['paths'][j][0], q=c['paths'][j][1], out=bool(out[j]), o=[0, 0], o3=[0, 0], f=0, off=0, n=[0, 0], seg=-1, still=False, alone=True, z=-1)
            if out[j]:
                i = int(np.nonzero(m == j)[0][0])
                dx, dy = xo[j] - xi[j], yo[j] - yi[j]
                ux, uy = got[0][i] - xi[j], got[1][i] - yi[j]
                d2 = dx * dx + dy * dy
                r['f'] = q((ux * dx + uy * dy) / d2, 1e-4)
                r['off'] = q(abs(ux * dy - uy * dx) / np.sqrt(d2), 1e-4 * U)
                r['o'] = [q(got[0][i], U / FINE), q(got[1][i], U / FINE)]
                r['o3'] = [q(got[0][i] + .03 * dx, U / FINE), q(got[1][i] + .03 * dy, U / FINE)]
                r['n'] = [q(got[3][i], 1e-3), q(got[4][i], 1e-3)]
                r['seg'] = -1 if got[5] is None else int(got[5][i])
                r['still'] = bool(still[i])
                if ell:
                    r['z'] = q(got[2][i], 1e-4 * U)
                if j % 4 == 0:
                    s = slice(j, j + 1)
                    al = ch.impact_point_and_normal(xi[s].copy(), yi[s].copy(), zi[s].copy(), xo[s].copy(), yo[s].copy(), zo[s].copy())
                    r['alone'] = all((a is None and b is None) or abs(a[0] - b[i]) <= 1e-12 for a, b in zip(al, got))
            rs.append(r)
        t['ev'].append(dict(op='paths', rs=rs))
    if c['wall'] and c['exact'] and c['kind'] == 'polyg':
        yes = []
        for Q in c['wall']:
            yes.append(all(bool(ch.vertex_is_on_edge(U * w[0], U * w[1])) for w in Q))
        t['ev'].append(dict(op='wall', qs=c['wall'], yes=yes))
        qs, yes = [], []
        for j, Q in enumerate(c['wall']):
            n = len(c['P'])
            a = c['P'][j % n]
            b = c['P'][(j + 1) % n]
            if j == 0:
                Q = c['P'][1:] + c['P'][:1]
            elif j == 1 and (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
                Q = c['P'][:(j % n) + 1] + [[(a[0] + b[0]) // 2, (a[1] + b[1]) // 2]] + c['P'][(j % n) + 1:]
            elif j == 2 and n > 3:
                Q = c['P'][1:]
            elif j == 3:
                Q = [[2 * v[0], 2 * v[1]] for v in c['P']]
            else:
                continue
            try:
                o = gipfi.polyg_cham_geom_object(polygon(Q, 1, 1, U), False, flag_assume_convex=False)
            except ValueError:
                continue
            qs.append(Q)
            yes.append(bool(ch.vertexes_are_subset(o)))
        t['ev'].append(dict(op='same', qs=qs, yes=yes))
    return t


def main(spec):
    np.random.seed(spec['seed'])
    with quiet():
        return dict(traces=[one(c) for c in spec['configs']], inputs=spec['configs'])


if __name__ == '__main__':
    common.main(main)
