"""Real simulations on TLC's schedules; what every step offered and what the output files hold."""
import os
import pickle
import shutil
import numpy as np
import common
import simrec as sr
from common import q, quiet


def keys_of(conf, f, have):
    """Output keys expected in each channel for these options."""
    off = set()
    if not f['det']:
        off.add('nel_hist_det')
    if not f['probes']:
        off.add('el_dens_at_probes')
    if not f['detailed']:
        off |= set(['N_mp_time', 'nel_mp_ref_time'])
    if not f['custom']:
        off |= set(['sbs_custom', 'pbp_custom'])
    if not f['energy']:
        off.add('En_electric_eV_time')
    if not f['seg']:
        off |= set(['nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg'])
    if not (f['seg'] and f['enseg']):
        off.add('En_hist_seg')
    if not f['cos']:
        off.add('cos_angle_hist')
    if not f.get('xion'):
        off |= set(['Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion'])
    if f.get('light'):
        off |= set(['nel_hist', 'nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'En_hist', 'all_Ekin_hist', 'cos_angle_hist'])
    return {ch: dict(i=[k for k in sr.CHAN[ch]['i'] if k not in off and ch in conf['show']],
                     a=[k for k in sr.CHAN[ch]['a'] if k not in off and ch in conf['show']]) for ch in sr.CHAN}


def settings(conf, f, fo):
    """Saving options of one configuration: input parameters, constructor arguments, probes, detailed histogram, output file."""
    probes = [dict(x=1e-2, y=0., r_obs=8e-3), dict(x=-5e-3, y=2e-3, r_obs=5e-3)] if f['probes'] else []
    det = (-1.23e-2, 1.5e-2, -1e-2, 1.1e-2, 4e-3) if f['det'] else None
    T = sr.TK
    out = os.path.join(fo, 'res/out.mat') if f['sub'] else os.path.join(fo, 'out.mat')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    S = dict(dec_fact_out=conf['dec'], Dt_En_hist=conf['dten'] * T, save_mat_every=conf['every'], filen_main_outp=out,
             flag_detailed_MP_info=int(f['detailed']), flag_hist_impact_seg=int(f['seg']), flag_En_hist_seg=bool(f['enseg']),
             flag_cos_angle_hist=bool(f['cos']), cos_angle_width=0.125, flag_movie=int(f['films']), flag_sc_movie=int(f['films']),
             save_mp_state_time_file=[t * T for t in conf['tobs']] or -1,
             save_simulation_state_time_file=[t * T for t in conf['tsim']] or -1, el_density_probes=probes,
             Dt_sc=(f['dtsc'] * T if f['dtsc'] else None), Nbin_En_hist=8, En_hist_max=400., logfile_path=os.path.join(fo, 'log.txt'),
             progress_path=os.path.join(fo, 'progress'), N_mp_regen=f['regen'], N_mp_after_regen=100, nel_mp_ref_0=f['ref'],
             N_mp_regen_low=f.get('low', -1))
    if det:
        S.update(x_min_hist_det=det[0], x_max_hist_det=det[1], y_min_hist_det=det[2], y_max_hist_det=det[3], Dx_hist_det=det[4])
    if conf['dtlife'] > 0:
        S.update(flag_lifetime_hist=True, Nbin_lifetime_hist=6, lifetime_hist_max=40 * T, Dt_lifetime_hist=conf['dtlife'] * T)
    if f['energy']:
        S.update(Dh_electric_energy=8e-3)
    over = {}
    if f['custom']:
        over = dict(step_by_step_custom_observables={'sbs_custom': sr.observe_sbs}, pass_by_pass_custom_observables={'pbp_custom': sr.observe_pbp},
                    save_once_custom_observables={'once_custom': sr.observe_once})
    if f['only']:
        over['save_only'] = ['t', 'Nel_timep', 't_hist', 'N_mp_pass', 't_En_hist', 'En_hist']
    return S, over, probes, det, out


def run(conf, ticks, f, seed):
    fo = os.path.abspath('sim')
    shutil.rmtree(fo, ignore_errors=True)
    os.makedirs(fo)
    rng = np.random.RandomState(seed)
    S, over, probes, det, out = settings(conf, f, fo)
    B, dt = conf['B'], conf['dtref']
    T = sr.TK
    lam = rng.randint(0, 1000, len(ticks)) * 1e6
    xion = None
    if f.get('xion'):
        xion = sr.gases(rng, f['names'])
        S.update(cross_ion_definitions=xion, N_mp_max=60000)
        sr.sio.savemat(os.path.join(fo, 'flat.mat'), dict(energy_eV=sr.XE, cross_section_cm2=sr.XE * 0 + sr.XS), oned_as='row')
    try:
        sim = sr.build(fo, ticks, B, dt, lam, seed=seed, clouds=f['clouds'], sim=S, over=over, sub=f['nsub'],
                       mach=dict(Nel_init_unif=f['ref'] * f['nmp'], track_method=f['track']), cloud2=dict(Nel_init_unif=f['ref'] * f['nmp'] * .5, N_mp_max=60000,
                       **({'save_only': over['save_only']} if f['only'] else {})))
    except ValueError as e:
        if 'save_mat_every' in str(e):
            return [dict(cfg=conf, every=conf['every'], ev=[dict(op='refused', last=ticks[-1])])]
        raise
    rec = sr.Recorder(sim, probes, det, f['custom'], f['energy'], f['films'], xion)
    nc = f['clouds']
    names = [out] + ([out[:-4] + '_ions.mat'] if nc == 2 else [])
    wrote = []

    def after(step):
        n = []
        for k in range(nc):
            if step['new'] and os.path.exists(names[k]):
                d = sr.loadmat(names[k])
                n.append([int(np.size(d[sr.TIMES[ch]])) if sr.TIMES[ch] in d else -1 for ch in ('sbs', 'pbp', 'enh')])
            else:
                n.append(wrote[-1][k] if wrote else [-1, -1, -1])
        wrote.append(n)
        if f.get('kill') and len(rec.steps) == 1 + int(f['kill'] * len(ticks)):     # this cloud disappears
            sim.cloud_list[f['killed'] % nc].MP_e.N_mp = 0

    rec.after = after
    with quiet():
        sim.run()
    rec.release()
    traces = []
    K = keys_of(conf, f, None)
    only = set(over['save_only']) if f['only'] else None
    if only:
        K = {ch: dict(i=[k for k in K[ch]['i'] if k in only], a=[k for k in K[ch]['a'] if k in only]) for ch in K}
    logl = open(os.path.join(fo, 'log.txt')).read().count(' pass. ') if os.path.exists(os.path.join(fo, 'log.txt')) else -1
    npass = sum(1 for s in rec.steps if s['new'])
    for k in range(nc):
        unit = {}
        for ch in K:
            for kk in K[ch]['i']:
                m = max([np.max(np.abs(s['clouds'][k]['i'][kk])) if s['clouds'][k]['i'][kk].size else 0. for s in rec.steps] + [0.])
                unit[kk] = m / 1e6 or 1.
            for kk in K[ch]['a']:
                t = 0.
                for s in rec.steps:
                    if s['clouds'][k]['a'][kk].size:
                        t = t + np.abs(s['clouds'][k]['a'][kk])
                m = float(np.max(t)) if np.size(t) else 0.
                unit[kk] = m / 1e6 or 1.
        width = {kk: max([s['clouds'][k]['a'][kk].size for s in rec.steps] + [0]) for ch in K for kk in K[ch]['a']}

        def flat(s, ch, part):
            o = []
            for kk in K[ch][part]:
                v = s['clouds'][k][part][kk]
                if part == 'a' and v.size == 0:
                    v = np.zeros(width[kk])
                o += [q(x, unit[kk]) for x in v]
            return o

        films = f['films'] and (k == nc - 1)
        fu = max([abs(x) for s in rec.steps for x in (s['rho'] or [0]) ] + [0.]) / 1e6 or 1.
        fe = max([abs(x) for s in rec.steps for x in (s['efx'] or [0]) + (s['efy'] or [0])] + [0.]) / 1e6 or 1.
        fc = max([abs(x) for s in rec.steps for x in (s['clouds'][k]['rho'] or [0])] + [0.]) / 1e6 or 1.

        def frame(s):
            return ([q(x, fu) for x in s['rho']] + [q(x, fe) for x in s['efx'] + s['efy']] if films else []) + (
                [q(x, fc) for x in s['clouds'][k]['rho']] if f['films'] and nc == 2 else [])

        ev = []
        for j, s in enumerate(rec.steps):
            ev.append(dict(op='step', t=s['t'], new=s['new'], sc=s['sc'] and bool(f['films']), alive=bool(s['clouds'][k]['alive']),
                           v={ch: dict(i=flat(s, ch, 'i'), a=flat(s, ch, 'a')) for ch in K}, f=frame(s), len=wrote[j][k], **{'pass': s['pass']}))
        if os.path.exists(names[k]):
            d = sr.loadmat(names[k])
            o = {}
            for ch in K:
                if sr.TIMES[ch] not in d:
                    o[ch] = []
                    continue
                t = [q(x, sr.TK) for x in sr.column(d, sr.TIMES[ch]).ravel()]
                rows = {}
                for part in 'ia':
                    for kk in K[ch][part]:
                        rows[kk] = sr.column(d, kk)
                o[ch] = []
                for r in range(len(t)):
                    smp = dict(t=t[r])
                    for part in 'ia':
                        smp[part] = []
                        for kk in K[ch][part]:
                            if r < len(rows[kk]):
                                smp[part] += [q(x, unit[kk]) for x in rows[kk][r]]
                    o[ch].append(smp)
                # rows beyond the time axis, or missing ones
                o[ch + '_n'] = sorted(set(len(rows[kk]) for kk in rows) or set([len(t)]))
            keys = sorted(x for x in d if not x.startswith('__'))
            ev.append(dict(op='file', o=o, only=(keys if only else []), want=(sorted(only) if only else []),
                           once=([q(x) for x in np.ravel(d['once_custom']) * 2] if f['custom'] and not only else [3, 5]), usc=[q(x, sr.TK) for x in np.ravel(d.get('t_sc_video', []))] if not only else [],
                           sct=[s['t'] for s in rec.steps if s['sc']] if not only else []))
        else:
            ev.append(dict(op='nofile'))
        if f['films']:
            fl = []
            base = os.path.dirname(out)
            for p in range(-1, rec.steps[-1]["pass"] + 1):
                fr, tt = [], None
                try:
                    if films:
                        a = sr.loadmat('%s/rho_video/rho_pass%d.mat' % (base, p - 0))
                        b = sr.loadmat('%s/efield_video/efield_pass%d.mat' % (base, p))
                        ta, tb = [q(x, sr.TK) for x in np.ravel(a['t_video'])], [q(x, sr.TK) for x in np.ravel(b['t_efield_video'])]
                        parts = [[[q(x, fu) for x in sr.digest(z)] for z in a['rho_video']],
                                 [[q(x, fe) for x in sr.digest(z)] for z in b['efx_video']], [[q(x, fe) for x in sr.digest(z)] for z in b['efy_video']]]
                        tt = ta if ta == tb else [-1]
                    else:
                        parts = []
                    if nc == 2:
                        c = sr.loadmat('%s/rho_video_%s/rho_pass%d.mat' % (base, sim.cloud_list[k].name, p))
                        parts.append([[q(x, fc) for x in sr.digest(z)] for z in c['rho_video']])
                        tc = [q(x, sr.TK) for x in np.ravel(c['t_video'])]
                        tt = tc if tt is None or tt == tc else [-1]
                except (IOError, OSError):
                    continue
                if parts:
                    n = set(len(x) for x in parts)
                    fl.append({'pass': p, 'frames': [dict(t=tt[j], f=sum([x[j] for x in parts], [])) for j in range(len(tt))] if n == set([len(tt)]) else [dict(t=-5, f=[])]})
            if films or nc == 2:
                ev.append(dict(op='films', films=fl))
        # states of the macroparticles
        mp = []
        for j in range(len(conf['tobs']) + 1):
            fn = os.path.join(os.path.dirname(out), ('MP_state_%s_%d' % (sim.cloud_list[k].name, j)) if nc == 2 else 'MP_state_%d' % j)
            fn = fn if os.path.exists(fn) else fn + '.mat'
            if os.path.exists(fn):
                d = sr.loadmat(fn)
                t = q(d['tt'].ravel()[0], sr.TK)
                want = [s['clouds'][k]['mp'] for s in rec.steps if s['t'] == t]
                got = [int(d['N_mp'].ravel()[0])] + sr.digest(d['x_mp']) + sr.digest(d['nel_mp']) + sr.digest(d['vx_mp'])
                mp.append(dict(t=t, same=bool(want and np.allclose(want[0], got, rtol=1e-12, atol=0))))
            else:
                mp.append(dict(t=-1, same=False))
        ev.append(dict(op='mpstates', n=len(conf['tobs']), s=mp))
        if k == nc - 1:
            ss = []
            for j in range(len(conf['tsim']) + 1):
                fn = os.path.join(os.path.dirname(out), 'simulation_state_%d.pkl' % j)
                if os.path.exists(fn):
                    st = pickle.load(open(fn, 'rb'))
                    t = q(st['beamtim'].tt_curr, sr.TK)
                    ok = True
                    for kk, c in enumerate(st['cloud_list']):
                        M = c.MP_e
                        want = [s['clouds'][kk]['mp'] for s in rec.steps if s['t'] == t]
                        got = [int(M.N_mp)] + sr.digest(M.x_mp[:M.N_mp]) + sr.digest(M.nel_mp[:M.N_mp]) + sr.digest(M.vx_mp[:M.N_mp])
                        ok = ok and bool(want and np.allclose(want[0], got, rtol=1e-12, atol=0))
                    ss.append(dict(t=t, same=ok))
                else:
                    ss.append(dict(t=-1, same=False))
            ev.append(dict(op='simstates', n=len(conf['tsim']), s=ss))
        ev.append(dict(op='log', lines=logl, passes=npass, clouds=nc))
        traces.append(dict(cfg=conf, ev=ev))
    shutil.rmtree(fo, ignore_errors=True)
    return traces


def main(spec):
    out, inp = [], []
    for j, c in enumerate(spec['configs']):
        tr = run(c['conf'], c['t'], c['f'], spec['seed'] + j)
        out += tr
        inp += [dict(index=j, **c)] * len(tr)
    return dict(traces=out, inputs=inp)


if __name__ == '__main__':
    common.main(main)
