"""The real beam_and_timing object on profiles from file, bunch trains and field maps."""
import numpy as np
import scipy.io as sio
import common
from common import q, quiet
from PyECLOUD.beam_and_timing import beam_and_timing
from PyECLOUD import geom_impact_rect_fast_impact as girfi
from PyECLOUD import geom_impact_ellip as gie

TK = 2.**-30
C = 299792458.


class Parts(object):
    charge = -1.

    def __init__(self, xs, ys):
        self.N_mp = len(xs)
        self.x_mp = np.array(list(xs) + [0.3], float)
        self.y_mp = np.array(list(ys) + [0.3], float)


def fieldmap(fn, ax=0, ay=0, axy=0, bx=0, by=0):
    xx = np.arange(-2.5, 2.501, 0.25)
    yy = np.arange(-1.5, 1.501, 0.25)
    X, Y = np.meshgrid(xx, yy, indexing='ij')
    sio.savemat(fn, dict(Ex=ax * X + ay * Y + axy * X * Y, Ey=bx * X + by * Y, xx=xx, yy=yy), oned_as='row')
    return fn


def profile(fn, t, lam):
    sio.savemat(fn, dict(t=np.array(t) * TK, lam_t_array=np.array(lam, float)), oned_as='row')
    return fn


def main(spec):
    rng = np.random.RandomState(spec['seed'])
    with quiet():
        rect = girfi.rect_cham_geom_object(2., 1., 0, flag_verbose_file=False, flag_verbose_stdout=False)
        elli = gie.ellip_cham_geom_object(2., 1., flag_verbose_file=False)
    fm = fieldmap('field.mat', ax=1)
    out = []

    def make(chamb=rect, **kw):
        d = dict(flag_bunched_beam=0, fact_beam=1., coast_dens=0., beam_charge=1., beam_field_file=fm, lam_th_beam_field=0.,
                 b_spac=4 * TK, Dt=TK, t_end=10 * TK, chamb=chamb, sigmax=.1, sigmay=.1)
        d.update(kw)
        with quiet():
            return beam_and_timing(**d)

    # --- walks over axes given by TLC
    for c in spec['configs']:
        p = profile('prof.mat', c['t'], c['lam'])
        kw = dict(fact_beam=float(c['fact']), coast_dens=float(c['coast']), b_spac=c['B'] * TK, Dt=c['DtIn'] * TK)
        if rng.rand() < .3:     # the same as a secondary beam
            kw.update(flag_secodary_beam=True, t_primary_beam=np.array(c['t']) * TK)
        b = make(beam_long_prof_file=p, **kw)
        ev = [dict(op='setup', nt=int(b.Nt), unif=bool(b.flag_unif_Dt), dt=q(b.Dt, TK), npass=int(b.N_pass_tot),
                   ended=bool(b.end_simulation()))]
        for _ in range(len(c['t']) + 2):
            if b.end_simulation():
                break
            b.next_time_step()
            ev.append(dict(op='step', tt=q(b.tt_curr, TK), dt=q(b.Dt_curr, TK), lam=q(b.lam_t_curr), **{'pass': int(b.pass_numb)},
                           new=bool(b.flag_new_bunch_pass), ended=bool(b.end_simulation())))
        ev.append(dict(op='done'))
        out.append(dict(cfg=c, ev=ev))

    dummy = dict(t=[0, 1, 2], lam=[0, 0, 0], B=2, fact=1, coast=0, DtIn=1)
    # --- bunch trains
    for k in range(spec['trains']):
        n = int(rng.randint(1, 6))
        B = int(rng.choice([64, 96, 128]))
        toff = int(rng.randint(32, 48))
        per = bool(rng.rand() < .5)
        ppb = [int(a) for a in rng.choice([0, 0, 1000, 2000, 5000, 7000], n)]
        sig = [int(a) for a in rng.choice([2, 3], n)] if per else [int(rng.choice([2, 3]))] * n
        tend = int(rng.randint(0, 40))
        fact = int(rng.choice([1, 2, 3]))
        coast = int(rng.choice([0, 0, 2]))
        fp = [float(a) for a in ppb]
        if per or rng.rand() < .5:
            d = dict(ppb_vect=np.array(fp))
            if per:
                d['sigmaz_vect'] = np.array(sig) * TK * C * (np.array(ppb) > 0)
            if n == 1:
                per = False
            else:
                sio.savemat('fill.mat', d, oned_as='row')
                fp = 'fill.mat'
        kw = dict(flag_bunched_beam=1, fact_beam=float(fact), coast_dens=coast / (C * TK), b_spac=B * TK,
                  sigmaz=-1 if (per and n > 1) else sig[0] * TK * C, t_offs=toff * TK, filling_pattern_file=fp, t_end=tend * TK)
        sec = rng.rand() < .3
        if sec:
            tt = make(**kw).t
            kw.update(flag_secodary_beam=True, t_primary_beam=tt)
            kw['Dt'] = TK
        b = make(**kw)
        t = np.rint(b.t / TK).astype(int)
        lam = b.lam_t_array * C * TK
        win, used = [], np.zeros(len(t), bool)
        for ii in range(n):
            c0 = toff + ii * B
            m = np.abs(t - c0) < 32
            used |= m
            w = lam[m]
            d = (t - c0)[m]
            win.append(dict(n=int(m.sum()), q=q(w.sum()), m1=q((w * d).sum()), m2=q((w * d * d).sum())))
        gap = lam[~used]
        gmax = q(gap.max(), 1e-3) / 1000. if len(gap) else coast
        out.append(dict(cfg=dummy, ev=[dict(
            op='train', t0=q(t[0]), last=int(t[-1]), uniform=bool(b.flag_unif_Dt and np.all(np.diff(t) == 1)),
            npass=int(b.N_pass_tot), n=n, bspac=B, tend=tend, ppb=ppb, sig=[s for s in sig], fact=fact, coast=coast, win=win,
            gapmax=q(gap.max()) if len(gap) else coast, gapmin=q(gap.min()) if len(gap) else coast)]))

    # --- refused inputs
    def accept(why, **kw):
        try:
            make(**kw)
            ok = True
        except ValueError:
            ok = False
        return dict(op='accept', why=why, accepted=ok)

    t = np.arange(0, 8)
    p8 = profile('p8.mat', t, t)
    sh = t.copy()
    sh[5] += 1
    p8b = profile('p8b.mat', sh, t)
    prim = t * TK
    ev = [accept('valid', beam_long_prof_file=p8, flag_secodary_beam=True, t_primary_beam=prim),
          accept('axis', beam_long_prof_file=p8, flag_secodary_beam=True, t_primary_beam=prim[:-1]),
          accept('axis', beam_long_prof_file=p8, flag_secodary_beam=True, t_primary_beam=prim * 1.01),
          accept('axis', beam_long_prof_file=p8, flag_secodary_beam=True, t_primary_beam=sh * TK),
          accept('axis', beam_long_prof_file=p8b, flag_secodary_beam=True, t_primary_beam=prim),
          accept('valid', beam_long_prof_file=p8, x_beam_pos=1.9, y_beam_pos=-.9),
          accept('outside', beam_long_prof_file=p8, x_beam_pos=2.1),
          accept('outside', beam_long_prof_file=p8, y_beam_pos=-1.1),
          accept('outside', beam_long_prof_file=p8, x_beam_pos=1.9, y_beam_pos=.9, chamb=elli),
          accept('valid', beam_long_prof_file=p8, x_beam_pos=1.5, y_beam_pos=.5, chamb=elli),
          accept('nosigma', flag_bunched_beam=1, sigmaz=-1, t_offs=2 * TK, filling_pattern_file=[1.]),
          accept('valid', flag_bunched_beam=1, sigmaz=TK * C, t_offs=2 * TK, filling_pattern_file=[1.]),
          accept('text filling scheme', flag_bunched_beam=1, sigmaz=TK * C, t_offs=2 * TK, filling_pattern_file='fill.txt'),
          accept('computeFD without grid', beam_long_prof_file=p8, beam_field_file='computeFD'),
          accept('BE needs ellipse', beam_long_prof_file=p8, beam_field_file='computeBE', Nx=5, Ny=5, nimag=2),
          accept('BE needs grid', beam_long_prof_file=p8, beam_field_file='computeBE', chamb=elli),
          accept('BE centred', beam_long_prof_file=p8, beam_field_file='computeBE', chamb=elli, Nx=5, Ny=5, nimag=2, x_beam_pos=.5)]
    out.append(dict(cfg=dummy, ev=ev))

    # --- field on the electrons
    for k in range(spec['fields']):
        a = dict(zip(('ax', 'ay', 'axy', 'bx', 'by'), [int(v) for v in rng.randint(-5, 6, 5)]))
        f = fieldmap('f%d.mat' % (k % 4), **a)
        lam = [int(v) for v in rng.randint(0, 6, 5)]
        th, ch = int(rng.randint(0, 5)), int(rng.choice([-1, 1, 2]))
        b = make(beam_field_file=f, beam_charge=float(ch), lam_th_beam_field=float(th),
                 beam_long_prof_file=profile('pf.mat', range(5), lam))
        ev = []
        while not b.end_simulation():
            b.next_time_step()
            n = int(rng.choice([0, 1, 5, 20], p=[.1, .2, .4, .3]))
            xs, ys = rng.randint(-63, 64, n) / 32., rng.randint(-31, 32, n) / 32.
            ex, ey = b.get_beam_eletric_field(Parts(xs, ys))
            ex, ey = np.broadcast_to(ex, (n,)), np.broadcast_to(ey, (n,))
            # coordinates in 1/32, bilinear coefficient scaled accordingly
            pts = [dict(x=q(xs[i], 1. / 32), y=q(ys[i], 1. / 32), ex=q(ex[i], 1. / 1024), ey=q(ey[i], 1. / 1024)) for i in range(n)]
            sc = dict(a, ax=a['ax'] * 32, ay=a['ay'] * 32, bx=a['bx'] * 32, by=a['by'] * 32)
            ev.append(dict(sc, op='field', lam=q(b.lam_t_curr), th=th, charge=ch, pts=pts,
                           zero=bool(np.all(ex == 0) and np.all(ey == 0))))
        out.append(dict(cfg=dummy, ev=ev))

    # --- the computed field map: the flux through a box centred on the beam is the charge inside / eps0 (unit line density), the field
    # is curl free and perpendicular to the conducting wall
    eps0 = 8.8541878128e-12
    with quiet():
        shapes = dict(rect=rect, flat=elli, tall=gie.ellip_cham_geom_object(1., 1.5, flag_verbose_file=False),
                      round=gie.ellip_cham_geom_object(1.25, 1.25, flag_verbose_file=False))
    for g in spec['gauss']:
        ch = shapes[g['shape']]
        # (the image formula is for a thin beam)
        sx, sy = .1 * g['sx'] / 4, .1 * g['sy'] / 4
        x0, y0 = g['x0'] / 4., g['y0'] / 4.
        if g['be']:
            kw = dict(beam_field_file='computeBE', Nx=161, Ny=121, nimag=20)
        else:
            kw = dict(beam_field_file='computeFD', Dh_beam_field=2.**-5)
        b = make(beam_long_prof_file=p8, chamb=ch, x_beam_pos=x0, y_beam_pos=y0, sigmax=sx, sigmay=sy, **kw)
        b.next_time_step()
        while b.lam_t_curr <= 0:
            b.next_time_step()
        fx = lambda xs, ys: [np.array(v) / b.lam_t_curr * eps0 for v in b.get_beam_eletric_field(Parts(xs, ys))]
        M = 400
        s = (np.arange(M) + .5) / M * 2 - 1
        o = np.ones(M)
        ev = []
        for m, n in g['boxes']:
            hx, hy = m * sx / 2, n * sy / 2
            R, L = fx(x0 + hx * o, y0 + hy * s), fx(x0 - hx * o, y0 + hy * s)
            T, B = fx(x0 + hx * s, y0 + hy * o), fx(x0 + hx * s, y0 - hy * o)
            ev.append(dict(op='gauss', m=m, n=n, flux=q(((R[0] - L[0]).sum() * hy + (T[1] - B[1]).sum() * hx) * 2 / M, 1e-3),
                           circ=q(((R[1] - L[1]).sum() * hy - (T[0] - B[0]).sum() * hx) * 2 / M, 1e-3)))
        r = fx([x0 + .1, x0 - .1, x0, x0], [y0, y0, y0 + .1, y0 - .1])
        u = 1. / (2 * np.pi * .1) * 1e-3
        ev.append(dict(op='odd', d=[q(r[0][0] + r[0][1], u), q(r[1][2] + r[1][3], u)], centred=not (x0 or y0)))
        if g['shape'] == 'rect':
            xs, ys = np.concatenate([s * 1.8, 1.9999 * o]), np.concatenate([.9999 * o, s * .8])
            tx, ty = np.concatenate([o, 0 * o]), np.concatenate([0 * o, o])
        else:
            th = s * np.pi
            xs, ys = ch.x_aper * .999 * np.cos(th), ch.y_aper * .999 * np.sin(th)
            tx, ty = -ch.x_aper * np.sin(th), ch.y_aper * np.cos(th)
        ex, ey = fx(xs, ys)
        ev.append(dict(op='wall', tang=q(np.max(np.abs(ex * tx + ey * ty) / np.hypot(tx, ty)) / np.max(np.hypot(ex, ey)), 1e-3)))
        out.append(dict(cfg=dummy, ev=ev))
    return out


common.main(main)
