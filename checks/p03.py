"""Beam clock and beam profile: BeamClock.tla; its axes drive the real beam_and_timing, BeamClockTrace judges the walks."""
import random


def run(ctx):
    cfg = ctx.pick("BeamClockMC.cfg", "BeamClockMCLong.cfg")
    ctx.model_check("BeamClockMC", cfg)
    confs = ctx.behaviours("BeamClockMC", cfg)
    n = ctx.pick(1000, 8000)
    step = max(1, len(confs) // n)
    confs = confs[::step]
    r = random.Random(ctx.seed)
    size = lambda: r.choice([3, 4, 4, 6, 8])
    gauss = []
    for j in range(ctx.pick(16, 120)):
        be = j % 2
        sh = r.choice(["flat", "tall", "round"] if be else ["rect", "rect", "flat", "tall", "round"])
        off = not be and r.random() < .5
        sx = size()
        gauss.append(dict(shape=sh, be=be, sx=sx, sy=sx if r.random() < .3 else size(), x0=r.choice([-2, -1, 0, 1, 2]) if off else 0,
                          y0=r.choice([-1, 0, 1]) if off else 0, boxes=[[r.randint(1, 6), r.randint(1, 6)] for _ in range(5)]))
    jobs = [("beamclock.py", dict(configs=[], seed=1, trains=0, fields=0, gauss=gauss[i::6]), "gauss%d" % i, 800) for i in range(6)]
    more = sum(ctx.drive_many(jobs, workers=6), [])
    traces = ctx.drive("beamclock.py", dict(configs=confs, seed=ctx.seed, trains=ctx.pick(60, 600), fields=ctx.pick(30, 300),
                                            gauss=[]))
    ctx.validate("BeamClockTrace", "BeamClockTrace.cfg", traces + more, label="beamclock", batch=1500)
