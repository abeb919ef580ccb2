"""Real simulations with checkpoints that are killed at the points TLC chose and restarted until they finish."""
import builtins
import io
import json
import os
import pickle
import re
import shutil
import signal
import sys
import time
import numpy as np
import scipy.io as sio
import common
import deck
import simrec as sr
from common import quiet
from saver import settings
from PyECLOUD import beam_and_timing as bat
from PyECLOUD import MP_system as mps
from PyECLOUD import impact_management_class as imc
from PyECLOUD import pyecloud_saver as psv

KILLED = 77
NOW = dict(life=None)


class Life(object):
    """What one process does: where it must die, and the log it leaves."""

    def __init__(self, fo, kill, log, seed, conf):
        self.fo, self.kill, self.seed, self.conf = fo, kill, seed, conf
        self.log = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        self.step, self.cloud = -1, 1
        self.sim = None

    def say(self, **kw):
        os.write(self.log, (json.dumps(kw) + '\n').encode())

    def die(self):
        self.say(op='killed')
        os._exit(KILLED)

    def at(self, op, cloud, stage):
        k = self.kill
        if k and k['step'] == self.step and k['op'] == op and k['stage'] == stage and (op in ('ckpt', 'remove') or k['cloud'] == cloud):
            self.die()

    def wants(self, op, cloud, stage):
        k = self.kill
        return bool(k and k['step'] == self.step and k['op'] == op and k['stage'] == stage and (op in ('ckpt', 'remove') or k['cloud'] == cloud))


def classify(path):
    """Which of the files of the property is this?  (op, cloud) or None."""
    L = NOW['life']
    if L is None or not isinstance(path, str):
        return None
    p = os.path.abspath(path)
    if not p.startswith(L.fo + os.sep):
        return None
    base = os.path.basename(p)
    if os.path.dirname(p) == os.path.join(L.fo, 'ck'):
        return ('ckpt', L.cloud)
    if base.startswith('out'):
        c = 2 if '_ions' in base else 1
        return ('copy' if os.path.dirname(p) == os.path.join(L.fo, 'safe') else 'main', c)
    return None


_open0 = builtins.open


class Writer(io.BytesIO):
    """A file that reaches the disk when it is closed."""

    def __init__(self, path, mode, what):
        L = NOW['life']
        L.at(what[0], what[1], '-')
        self.what, self.path, self.name = what, path, path
        self.f = _open0(path, mode if 'b' in mode else mode + 'b')
        L.at(what[0], what[1], 'open')
        io.BytesIO.__init__(self)

    def close(self):
        if not self.closed:
            L = NOW['life']
            data = self.getvalue()
            io.BytesIO.close(self)
            if L.wants(self.what[0], self.what[1], 'half'):
                self.f.write(data[:len(data) // 2])
                self.f.flush()
                L.die()
            self.f.write(data)
            self.f.close()
            L.at(self.what[0], self.what[1], 'full')


def _open(path, mode='r', *a, **kw):
    if isinstance(mode, str) and ('w' in mode or 'a' in mode):
        p = os.fspath(path) if isinstance(path, (str, os.PathLike)) else path
        w = classify(p)
        if w:
            return Writer(p, mode, w)
    return _open0(path, mode, *a, **kw)


def _moving(f0):
    def f(src, dst, *a, **kw):
        w = classify(os.fspath(dst) if not isinstance(dst, int) else '')
        r = f0(src, dst, *a, **kw)
        if w:
            NOW['life'].at(w[0], w[1], 'moved')
        return r
    return f


def _removing(f0):
    def f(path, *a, **kw):
        w = classify(os.fspath(path) if not isinstance(path, int) else '')
        if w and w[0] == 'ckpt' and path.endswith('.pkl'):
            NOW['life'].at('remove', w[1], '-')
        r = f0(path, *a, **kw)
        if w and w[0] == 'ckpt' and path.endswith('.pkl'):
            NOW['life'].at('remove', w[1], 'moved')
        return r
    return f


def state(c):
    M = c.MP_e
    n = M.N_mp
    cols = [M.x_mp, M.y_mp, M.z_mp, M.vx_mp, M.vy_mp, M.vz_mp, M.nel_mp]
    if getattr(M, 't_last_impact', None) is not None:
        cols.append(M.t_last_impact)
    return [float(n), float(M.nel_mp_ref)] + [x for a in cols for x in sr.digest(a[:n])]


_nts0 = bat.beam_and_timing.next_time_step


def _nts(bt, *a, **kw):
    r = _nts0(bt, *a, **kw)
    L = NOW['life']
    if L is not None and L.sim is not None and bt is L.sim.beamtim:
        L.step, L.cloud = int(bt.ii_curr), 1
        np.random.seed((L.seed * 7919 + L.step) % 2**31)
        L.say(op='step', n=L.step)
    return r


def _reg(name):
    f0 = getattr(mps.MP_system, name)

    def f(M, *a, **kw):
        if NOW['life'] is not None:
            np.random.seed((int(M.N_mp) * 31 + int(M.nel_mp_ref) + len(name)) % 2**31)
        return f0(M, *a, **kw)
    return f


_bt1 = imc.impact_management.backtrack_and_second_emiss


def _bt(im, *a, **kw):
    L = NOW['life']
    if L is not None and L.sim is not None:
        for k, c in enumerate(L.sim.cloud_list):
            if c.impact_man is im:
                L.cloud = k + 1
                if L.kill and L.kill['op'] == 'compute' and L.kill['step'] == L.step and L.kill['stage'] == '-' and \
                        min(L.kill['cloud'], len(L.sim.cloud_list)) == k + 1:
                    L.die()
    return _bt1(im, *a, **kw)


_w1 = psv.pyecloud_saver.witness


def _wit(sv, *a, **kw):
    L = NOW['life']
    k = None
    if L is not None and L.sim is not None:
        for j, c in enumerate(L.sim.cloud_list):
            if c.pyeclsaver is sv:
                k = j + 1
                L.cloud = k
                L.say(op='state', n=L.step, c=k, v=state(c))
    r = _w1(sv, *a, **kw)
    if k:
        L.at('compute', k, 'after')
    return r


def patch():
    builtins.open = _open
    io.open = _open
    for m in ('replace', 'rename'):
        setattr(os, m, _moving(getattr(os, m)))
    for m in ('remove', 'unlink'):
        setattr(os, m, _removing(getattr(os, m)))
    shutil._USE_CP_SENDFILE = False
    bat.beam_and_timing.next_time_step = _nts
    for m in ('check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
        setattr(mps.MP_system, m, _reg(m))
    imc.impact_management.backtrack_and_second_emiss = _bt
    psv.pyecloud_saver.witness = _wit


def make(fo, conf, f, seed, ck):
    rng = np.random.RandomState(seed)
    sc = dict(dec=conf['dec'], dten=f['dten'], every=conf['every'], tobs=f['tobs'], tsim=f['tsim'], dtlife=f['dtlife'], B=conf['bp'], dtref=1)
    S, over, probes, det, out = settings(sc, f, fo)
    over.pop('step_by_step_custom_observables', None)
    T = sr.TK
    if f['em']:
        S['flag_em_tracking'] = True
    if f.get('solver'):
        S['PyPICmode'] = f['solver']
        if 'Telescopic' in f['solver']:
            S.update(f_telescope=.3, target_grid={'x_min_target': -1e-3, 'x_max_target': 1e-3, 'y_min_target': -1e-3, 'y_max_target': 1e-3,
                                                  'Dh_target': 5e-4}, N_nodes_discard=3, N_min_Dh_main=10, Dh_sc=1e-3)
    if ck:
        S.update(checkpoint_DT=conf['dt'] * T, checkpoint_folder=os.path.join(fo, 'ck') + ('/' if f['slash'] else ''))
        if conf['copy']:
            S.update(copy_main_outp_folder=os.path.join(fo, 'safe'))
            if f['copydt'] >= 0:
                S.update(copy_main_outp_DT=f['copydt'] * T)
    ticks = list(range(conf['steps'] + 1))
    lam = rng.randint(0, 1000, len(ticks)) * 1e8
    extra = {}
    beam = {}
    if f['sec']:
        S['secondary_beams_file_list'] = ['second.beam']
        lam2 = rng.randint(0, 1000, len(ticks)) * 1e8
        sr.profile(os.path.join(fo, 'prof2.mat'), ticks, lam2)
        extra['second.beam'] = dict(deck.BEAM, flag_bunched_beam=0, beam_long_prof_file='prof2.mat', sigmaz=-1, fact_beam=.5, b_spac=conf['bp'] * T,
                                    t_offs=0., filling_pattern_file=[1.])
    if f['cross'] and conf['clouds'] == 2:
        en = np.linspace(0., 2000., 401)
        sio.savemat(os.path.join(fo, 'xs.mat'), dict(energy_eV=en, cross_section_cm2=1e-16 * np.exp(-en / 500.)), oned_as='row')
        S['cross_ion_definitions'] = {'electron': {'ionise': dict(target_density=f['cross'], products=['ions', 'electron'], cross_section='xs.mat',
                                                                  E_eV_init=1., extract_sigma=False)}}
        S['cloud_name'] = 'electron'
    if f['gas']:
        S.update(t_ion=1e3)
    mach = dict(Nel_init_unif=f['ref'] * f['nmp'], track_method='BorisMultipole' if f['em'] else f['track'],
                gas_ion_flag=int(bool(f['gas'])), P_nTorr=1e3, sigma_ion_MBarn=2., Temp_K=300., unif_frac=.3, E_init_ion=1.)
    return sr.build(fo, ticks, conf['bp'], 1, lam, seed=seed, clouds=conf['clouds'], sim=S, over=over, sub=f['nsub'], mach=mach,
                    extra=extra, beam=beam, cloud2=dict(Nel_init_unif=f['ref'] * f['nmp'] * .5,
                                                        **({'save_only': over['save_only']} if f['only'] else {})))


def life(fo, conf, f, seed, ck, kill, log):
    """One process: builds the simulation in the folder and runs it to the end, or dies."""
    pid = os.fork()
    if pid:
        t0 = time.time()
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > 120:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return 'hung'
            time.sleep(.003)
        if os.WIFEXITED(st):
            return {0: 'done', KILLED: 'killed'}.get(os.WEXITSTATUS(st), 'error')
        return 'crashed'
    rc = 1
    try:
        os.chdir(fo)
        L = Life(fo, kill, log, seed, conf)
        try:
            patch()
            NOW['life'] = L
            sim = make(fo, conf, f, seed, ck)
            L.sim = sim
            L.say(op='boot', n=int(sim.beamtim.ii_curr))
            with quiet():
                sim.run()
            L.say(op='done')
            rc = 0
        except BaseException as e:
            import traceback
            L.say(op='error', what='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-1500:], inside=common.in_package(sys.exc_info()[2]))
            rc = 1
    finally:
        os._exit(rc)


def events(log):
    out = []
    if os.path.exists(log):
        for x in open(log):
            try:
                out.append(json.loads(x))
            except ValueError:
                pass
    return out


def on_disk(fo):
    """Positions of the complete checkpoints."""
    out = []
    d = os.path.join(fo, 'ck')
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if re.match(r'^simulation_checkpoint_\d+\.pkl$', n):
            try:
                with open(os.path.join(d, n), 'rb') as h:
                    out.append(int(pickle.load(h)['beamtim'].ii_curr))
            except Exception:
                pass
    return sorted(out)


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-11, atol=0, equal_nan=True))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and bool(np.all([str(x) == str(y) for x, y in zip(a.ravel(), b.ravel())]))
    return str(a) == str(b)


def outputs(fo):
    """All data files of a finished run."""
    out = {}
    for d, sub, fs in os.walk(fo):
        sub[:] = [s for s in sub if s not in ('ck', 'safe')]
        for n in fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, fo)
            if n.startswith('prof') or n == 'xs.mat' or '.tmp' in n:
                continue
            if n.endswith('.pkl') and n.startswith('simulation_state'):
                out[r] = 'pkl'
            elif n.endswith('.mat') or n.startswith('MP_state'):
                out[r] = 'mat'
    return out


def compare(ra, rb):
    """[code, what] for everything the reference run left: 0 the same, 1 missing, 2 different."""
    a, b = outputs(ra), outputs(rb)
    res = []
    for r in sorted(a):
        if r not in b:
            res.append([1, r])
            continue
        if a[r] == 'mat':
            x, y = sio.loadmat(os.path.join(ra, r)), sio.loadmat(os.path.join(rb, r))
            for k in sorted(x):
                if k.startswith('__'):
                    continue
                # logs of the iterations, not data
                res.append([0 if k in y and same(x[k], y[k]) else (2 if k in y else 1), r + ':' + k])
        else:
            try:
                x, y = pickle.load(open(os.path.join(ra, r), 'rb')), pickle.load(open(os.path.join(rb, r), 'rb'))
                ok = x['beamtim'].ii_curr == y['beamtim'].ii_curr and np.array_equal(x['spacech_ele'].phi, y['spacech_ele'].phi)
                ok = ok and all(state(c) == state(d) for c, d in zip(x['cloud_list'], y['cloud_list'])) and len(x['cloud_list']) == len(y['cloud_list'])
            except Exception:
                ok = False
            res.append([0 if ok else 2, r])
    for r in sorted(b):
        if r not in a:
            res.append([3, r])
    return res


def one(conf, f, kills, seed, base):
    shutil.rmtree(base, ignore_errors=True)
    ref, fo = os.path.join(base, 'ref'), os.path.join(base, 'run')
    os.makedirs(ref)
    os.makedirs(fo)
    end = life(ref, conf, f, seed, False, None, os.path.join(base, 'ref.log'))
    R = events(os.path.join(base, 'ref.log'))
    if end != 'done':
        return None, dict(ref=end, log=R[-1:])
    good = {(e['n'], e['c']): e['v'] for e in R if e['op'] == 'state'}
    lives, notes = [], []
    for k in range(len(kills) + 1):
        kill = kills[k] if k < len(kills) else None
        log = os.path.join(base, 'life%d.log' % k)
        end = life(fo, conf, f, seed, True, kill, log)
        E = events(log)
        boot = [e['n'] for e in E if e['op'] == 'boot']
        steps = [e['n'] for e in E if e['op'] == 'step']
        wrong = sorted(set(e['n'] for e in E if e['op'] == 'state' and not np.allclose(good.get((e['n'], e['c']), []) or [np.nan], e['v'], rtol=1e-11, atol=0)))
        whole = sorted(set(e['n'] for e in E if e['op'] == 'state' and e['c'] == conf['clouds'] ))
        lives.append(dict(boot=boot[0] if boot else -2, steps=steps, wrong=wrong, seen=whole, end=end, disk=on_disk(fo), err=' '.join(e['what'].split(':')[0] for e in E if e['op'] == 'error')))
        notes.append([kill, end] + [e for e in E if e['op'] == 'error'])
        if end != 'killed':
            break
    final = compare(ref, fo) if end == 'done' else []
    shutil.rmtree(base, ignore_errors=True)
    return dict(conf=conf, ev=lives + [dict(final=[c for c, w in final])]), dict(notes=notes, bad=[x for x in final if x[0]], hit=sum(1 for l in lives if l['end'] == 'killed'))


def main(spec):
    tr, info = [], []
    for j, c in enumerate(spec['plans']):
        t, i = one(c['conf'], c['f'], c['kills'], spec['seed'] + c['id'], os.path.abspath('plan%d' % j))
        if t is None and i['log'] and i['log'][0].get('op') == 'error' and not i['log'][0]['inside']:
            raise RuntimeError('reference run: %s %s' % (c, i))
        if t is None:
            raise common.PackageError('reference run: %s %s' % (c, i))
        tr.append(t)
        info.append(dict(index=j, solver=c['f'].get('solver', 'default'), **dict(c, **i)))
    return dict(traces=tr, inputs=info)


if __name__ == '__main__':
    common.main(main)
