"""The compiled kernels on TLC's scenes."""
import numpy as np
import common
from common import q
from PyECLOUD import rhocompute, int_field_for, hist_for, seg_impact, vectsum

UNITS = [(0., 1., 1.), (-3., .5, .25), (-2.**-6, 2.**-10, 2.**-9), (-.0231, 3e-4, 7e-4), (.77, 1e-3, 1.3e-3), (-2e-9, 1e-9, 3e-9)]
GUARD = 64


def arr(v, kind):
    v = np.array(v, float)
    if kind == 2:           # every other entry of a longer array
        b = np.full(2 * len(v) + 3, 7.5e5)
        b[1:1 + 2 * len(v):2] = v
        return b[1:1 + 2 * len(v):2]
    if kind == 3:           # the start of a longer array, as the particle stores have
        b = np.full(len(v) + 5, 7.5e5)
        b[:len(v)] = v
        return b[:len(v)]
    if kind == 4 and np.all(v == np.rint(v)) and len(v):
        return v.astype(int)
    return v


def grid(g, kind):
    g = np.array(g, float)
    return np.asfortranarray(g) if kind % 2 else np.ascontiguousarray(g)


def off(a):
    a = np.asarray(a, float)
    return q(np.max(np.abs(a - np.rint(a)), initial=0.), 1e-6)


def ints(a):
    return [ints(r) for r in a] if np.ndim(a) > 1 else [q(z) for z in a]


def guarded(pre):
    b = np.full(len(pre) + 2 * GUARD, 3.)
    b[GUARD:GUARD + len(pre)] = pre
    return b, b[GUARD:GUARD + len(pre)]


def one(c):
    b0, dx, dy = UNITS[c['unit'] - 1]
    kind = c['kind']
    N, ps = c['N'], c['ps']
    ev = dict(op=c['op'], N=N, ps=ps, fuzzy=c['unit'] > 3)
    if c['op'] in ('rho', 'gather'):
        if c['op'] == 'rho':
            dy = dx
        b1 = b0 + (.25 if c['unit'] <= 3 else .1)
        x = arr([b0 + p[0] * dx / 4 for p in ps], kind)
        y = arr([b1 + p[1] * dy / 4 for p in ps], kind)
        w = arr([p[2] for p in ps], kind)
        keep = [a.copy() for a in (x, y, w)]
        if c['op'] == 'rho':
            r = rhocompute.compute_sc_rho(x, y, w, b0, b1, dx, N[0], N[1])
            assert r.shape == tuple(N)
            ev.update(rho=ints(16 * r), off=off(16 * r))
        else:
            g = [grid(c['ex'], kind), grid(c['ey'], kind)]
            gk = [a.copy() for a in g]
            fx, fy = int_field_for.int_field(x, y, b0, b1, dx, dy, g[0], g[1])
            ev.update(ex=c['ex'], ey=c['ey'], fx=ints(16 * fx), fy=ints(16 * fy), off=max(off(16 * fx), off(16 * fy)))
            keep += gk
            x, y, w = x, y, w
            ev['inputs'] = all(np.array_equal(a, b) for a, b in zip(keep, [x, y, w] + g))
        ev.setdefault('inputs', all(np.array_equal(a, b) for a, b in zip(keep, [x, y, w])))
    elif c['op'] in ('hist', 'seg'):
        pre = np.array(c['pre'], float)
        buf, h = guarded(pre)
        w = arr([p[1] for p in ps], kind)
        if c['op'] == 'hist':
            x = arr([b0 + p[0] * dx / 4 for p in ps], kind)
            hist_for.compute_hist(x, w, b0, dx, h)
            ev.update(hist=ints(4 * h), off=off(4 * h))
        else:
            seg_impact.update_seg_impact(np.array([p[0] for p in ps], int), w, h)
            ev.update(hist=ints(h), off=off(h))
        ev.update(pre=c['pre'], inputs=bool(np.all(buf[:GUARD] == 3.) and np.all(buf[GUARD + len(pre):] == 3.)))
    else:
        x = arr([p[0] / 4. for p in ps], kind)
        s = vectsum.vectsum(x) if len(ps) else 0.
        ev.update(sum=q(4 * s), off=off([4 * s]), inputs=True)
    return ev


def main(spec):
    return dict(traces=[dict(ev=[one(c)]) for c in spec['configs']], inputs=spec['configs'])


if __name__ == '__main__':
    common.main(main)
