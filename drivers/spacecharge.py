"""Real simulations on TLC's schedules: what every cloud deposits, what the field solver holds."""
import os
import shutil
import numpy as np
from scipy.constants import epsilon_0, mu_0, c as clight, e as qe
import common
import simrec as sr
from common import q, quiet
from PyECLOUD import pyecloud_saver as psv

SPOT = {}
_w0 = psv.pyecloud_saver.witness


def _wit(sv, *a, **kw):
    f = SPOT.get('f')
    if f is not None:
        f(sv)
    return _w0(sv, *a, **kw)


psv.pyecloud_saver.witness = _wit


def deposit(x, y, w, xg, yg):
    """Cloud-in-cell charge density, independently of the package."""
    dx, dy = xg[1] - xg[0], yg[1] - yg[0]
    r = np.zeros((len(xg), len(yg)))
    fx, fy = (x - xg[0]) / dx, (y - yg[0]) / dy
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    hx, hy = fx - i, fy - j
    np.add.at(r, (i, j), w * (1 - hx) * (1 - hy))
    np.add.at(r, (i + 1, j), w * hx * (1 - hy))
    np.add.at(r, (i, j + 1), w * (1 - hx) * hy)
    np.add.at(r, (i + 1, j + 1), w * hx * hy)
    return r / (dx * dy)


def vec(a):
    return np.array(sr.digest(a) + [float(np.sum(a))])


def solver(sim, mode):
    """Another solver of the same kind on the same chamber, straight from the field library."""
    P = sim.spacech_ele.PyPICobj
    if mode == 'FiniteDifferences_ShortleyWeller':
        import PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid as m
        return m.FiniteDifferences_ShortleyWeller_SquareGrid(chamb=sim.chamb, Dh=P.Dh, sparse_solver='scipy_slu')
    if mode == 'FiniteDifferences_Staircase':
        import PyPIC.FiniteDifferences_Staircase_SquareGrid as m
        return m.FiniteDifferences_Staircase_SquareGrid(chamb=sim.chamb, Dh=P.Dh, sparse_solver='scipy_slu')
    if mode == 'FFT_PEC_Boundary':
        import PyPIC.FFT_PEC_Boundary_SquareGrid as m
        return m.FFT_PEC_Boundary_SquareGrid(x_aper=sim.chamb.x_aper, y_aper=sim.chamb.y_aper, Dh=P.Dh)
    import PyPIC.FFT_OpenBoundary as m
    return m.FFT_OpenBoundary(x_aper=sim.chamb.x_aper, y_aper=sim.chamb.y_aper, Dh=P.Dh)


def energy(sim, ref):
    """Energy per unit length (eV) of the fields on the grid: half epsilon_0 E^2 over the box of the chamber, on a grid of my own."""
    h = .4e-3
    X, Y = np.meshgrid(np.arange(-sim.chamb.x_aper * 1.01, sim.chamb.x_aper * 1.01, h), np.arange(-sim.chamb.y_aper * 1.01, sim.chamb.y_aper * 1.01, h))
    ex, ey = ref.gather(X.ravel(), Y.ravel())
    return .5 * epsilon_0 * np.sum(ex**2 + ey**2) * h * h / qe


class Comm:
    """The communicator of n identical processes, seen from one of them; what the others hold is given."""

    def __init__(self, rank, others):
        self.rank, self.others = rank, others

    def Get_size(self):
        return len(self.others) + 1

    def Get_rank(self):
        return self.rank

    def all(self, mine):
        a = [o.reshape(-1) for o in self.others]
        a.insert(self.rank, np.asarray(mine).reshape(-1))
        return a

    def Gather(self, send, recv, root=0):
        self.mine = np.array(send).reshape(-1)
        if self.rank == root:
            recv.reshape(-1)[:] = np.concatenate(self.all(self.mine))

    def Bcast(self, buf, root=0):
        if self.rank != root:
            buf.reshape(-1)[:] = np.mean(self.all(self.mine), axis=0)


def shared(sim, ref, rng):
    """One recomputation in common with other processes: the density is the mean of those of all processes."""
    sc, M = sim.spacech_ele, [c.MP_e for c in sim.cloud_list]
    mine = sum(deposit(m.x_mp[:m.N_mp], m.y_mp[:m.N_mp], m.nel_mp[:m.N_mp] * m.charge, sc.xg, sc.yg) for m in M)
    u = np.max(np.abs(mine)) or 1e-12
    oth = []
    for _ in range(rng.randint(1, 3)):      # charges inside the chamber
        n = 20
        oth.append(deposit(rng.uniform(-.3, .3, n) * sim.chamb.x_aper, rng.uniform(-.3, .3, n) * sim.chamb.y_aper, np.ones(n), sc.xg, sc.yg))
        oth[-1] *= u / np.max(oth[-1])
    rank = int(rng.randint(0, len(oth) + 1))
    sc.comm = Comm(rank, oth)
    with quiet():
        for j, m in enumerate(M):
            sc.recompute_spchg_efield(m, flag_solve=(j == len(M) - 1), flag_reset=(j == 0))
        ref.rho = (mine + sum(oth)) / (1 + len(oth))
        ref.solve()
    sc.comm = None
    ue = max(np.max(np.abs(ref.efx)), np.max(np.abs(ref.efy)), 1e-300) / 1e6
    return dict(op='shared', mine=[q(x, u / 1e6) for x in vec(mine)], others=[[q(x, u / 1e6) for x in vec(o)] for o in oth],
                rho=[q(x, u / 1e6) for x in vec(sc.rho)],
                ef=[q(x, ue) for a in (sc.efx, sc.efy) for x in vec(a)], ref=[q(x, ue) for a in (ref.efx, ref.efy) for x in vec(a)])


def run(conf, steps, f, seed):
    fo = os.path.abspath('sim')
    shutil.rmtree(fo, ignore_errors=True)
    os.makedirs(fo)
    rng = np.random.RandomState(seed)
    T = sr.TK
    ticks = [s['t'] for s in steps]
    ticks.append(ticks[-1] + 1)
    S = dict(Dt_sc=(conf['dt'] * T if conf['dt'] else None), t_sc_ON=conf['ton'] * T, PyPICmode=f['mode'], N_mp_regen=f['regen'], N_mp_after_regen=60,
             logfile_path=os.path.join(fo, 'log'), filen_main_outp=os.path.join(fo, 'out.mat'), Dh_sc=f['dh'],
             flag_em_tracking=bool(f['em']), t_ion=1e3)
    extra = {}
    if f.get('energy'):
        S['Dh_electric_energy'] = .5e-3
    if conf['clouds'] >= 2:
        extra['ions.cloud'] = dict(sr.CLOUD2, Nel_init_unif=f['ref'] * f['nmp'] * .7)
    if conf['clouds'] == 3:
        extra['more.cloud'] = dict(sr.CLOUD2, Nel_init_unif=f['ref'] * f['nmp'] * .4, cloud_charge=-2 * 1.6e-19)
    if extra:
        S['additional_clouds_file_list'] = sorted(extra)
    sim = sr.build(fo, ticks, 8, 1, list(rng.randint(0, 1000, len(ticks)) * 1e8), seed=seed, sim=S, extra=extra, sub=2,
                   mach=dict(Nel_init_unif=f['ref'] * f['nmp'], track_method='BorisMultipole' if f['em'] else 'Boris', gas_ion_flag=int(f['gas']),
                             P_nTorr=1e3, sigma_ion_MBarn=2., Temp_K=300., unif_frac=.3, E_init_ion=1.))
    sc = sim.spacech_ele
    with quiet():
        ref = solver(sim, f['mode'])
        refs = [ref.get_state_object(), ref.get_state_object()] if f['em'] else []
    rows = []

    def spot(sv):
        if sv is not sim.cloud_list[0].pyeclsaver:
            return
        dep = []
        for c in sim.cloud_list:
            M = c.MP_e
            n = M.N_mp
            d = [deposit(M.x_mp[:n], M.y_mp[:n], M.nel_mp[:n] * M.charge, sc.xg, sc.yg)]
            if f['em']:
                d += [deposit(M.x_mp[:n], M.y_mp[:n], M.nel_mp[:n] * M.charge * v[:n] * epsilon_0 * mu_0, sc.xg, sc.yg) for v in (M.vx_mp, M.vy_mp)]
            dep.append(d)
        rho = [sc.rho] + ([sc.state_Ax.rho, sc.state_Ay.rho] if f['em'] else [])
        ef = [sc.efx, sc.efy] + ([sc.state_Ax.phi, sc.state_Ay.phi] if f['em'] else [])
        with quiet():
            tot = [sum(d[j] for d in dep) for j in range(len(rho))]
            ref.rho = tot[0].copy()
            ref.solve()
            rf = [ref.efx, ref.efy]
            for j, s in enumerate(refs):
                s.rho = tot[j + 1]
            if refs:
                ref.solve_states(refs)
                rf += [s.phi for s in refs]
        own = [None if c.rho is None else vec(c.rho) for c in sim.cloud_list]
        rows.append(dict(t=q(sim.beamtim.tt_curr, T), due=bool(sc.last_recomputation_check), dep=[[vec(a) for a in d] for d in dep],
                         rho=[vec(a) for a in rho], ef=[vec(a) for a in ef], ref=[vec(a) for a in rf], own=own,
                         U=[sc.get_potential_electric_energy(), energy(sim, ref)] if f.get('energy') else [0., 0.],
                         old=[vec(s.phi) for s in (sc.state_Ax_old, sc.state_Ay_old)] if f['em'] and sc.state_Ax_old is not None else []))
        if f.get('kill', -1) == len(rows):      # this cloud disappears
            sim.cloud_list[f['killed'] % len(sim.cloud_list)].MP_e.N_mp = 0

    forces = {s['t']: s['force'] for s in steps}
    ev_em = {}
    SPOT['f'] = spot
    try:
        with quiet():
            if not any(forces.values()):
                sim.run()
            else:
                while not sim.beamtim.end_simulation():
                    sim.beamtim.next_time_step()
                    sim.sim_time_step(force_recompute_space_charge=bool(forces[q(sim.beamtim.tt_curr, T)]))
                    if f['em']:
                        ev_em[len(rows)] = em(sim)
    finally:
        SPOT.clear()
    last = shared(sim, ref, rng) if f.get('shared') else None
    uu = max([1e-300] + [abs(u) for r in rows for u in r['U']]) / 1e6
    ur = [max([1e-300] + [np.max(np.abs(d[j])) for r in rows for d in r['dep']]) / 1e6 for j in range(len(rows[0]['rho']))]
    ue = [max([1e-300] + [np.max(np.abs(r['ef'][j])) for r in rows] + [np.max(np.abs(r['ref'][j])) for r in rows]) / 1e6 for j in range(len(rows[0]['ef']))]
    ev = []
    for n, r in enumerate(rows):
        ev.append(dict(op='step', t=r['t'], force=bool(forces[r['t']]), due=r['due'],
                       dep=[sum([[q(x, ur[j]) for x in d[j]] for j in range(len(d))], []) for d in r['dep']],
                       rho=sum([[q(x, ur[j]) for x in a] for j, a in enumerate(r['rho'])], []),
                       ef=sum([[q(x, ue[j]) for x in a] for j, a in enumerate(r['ef'])], []),
                       ref=sum([[q(x, ue[j]) for x in a] for j, a in enumerate(r['ref'])], []),
                       old=sum([[q(x, ue[2 + j]) for x in a] for j, a in enumerate(r['old'])], []),
                       U=[q(u, uu) for u in r['U']],
                       own=[[] if o is None else [q(x, ur[0]) for x in o] for o in r['own']]))
        if n + 1 in ev_em and ev_em[n + 1]:
            ev.append(dict(op='em', res=ev_em[n + 1]))
    if last:
        ev.append(last)
    shutil.rmtree(fo, ignore_errors=True)
    return dict(cfg=conf, ev=ev)


def em(sim):
    """Residuals of the electromagnetic fields at the particles (millionths of the largest)."""
    sc, M = sim.spacech_ele, sim.cloud_list[0].MP_e
    n = M.N_mp
    if n == 0 or sc.state_Ax_old is None:
        return None
    x, y = M.x_mp[:n], M.y_mp[:n]
    F = [np.array(a, float) for a in sc.get_sc_em_field(M)]
    P = sc.PyPICobj
    e = P.gather(x, y)
    dA = [(s.gather_phi(x, y) - o.gather_phi(x, y)) / sc.Dt_sc for s, o in ((sc.state_Ax, sc.state_Ax_old), (sc.state_Ay, sc.state_Ay_old))]
    # minus the gradients of the components
    gx, gy = sc.state_Ax.gather(x, y), sc.state_Ay.gather(x, y)
    v = sc.beta * clight
    W = [e[0] - dA[0], e[1] - dA[1], dA[1] / v, -dA[0] / v, gx[1] - gy[0]]
    out = []
    for a, b in zip(F, W):
        u = max(np.max(np.abs(b)), 1e-300) / 1e6
        out += [q(z, u) for z in (a - b)[:40]]
    return out


def main(spec):
    return dict(traces=[run(c['conf'], c['steps'], c['f'], spec['seed'] + j) for j, c in enumerate(spec['configs'])],
                inputs=[dict(index=j, **c) for j, c in enumerate(spec['configs'])])


if __name__ == '__main__':
    common.main(main)
