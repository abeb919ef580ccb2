"""The coupled-beam interface: Coupling.tla; TLC's histories of passages on the real interface with stand-in bunches, judged by CouplingTrace."""


def run(ctx):
    ctx.model_check("CouplingMC", "CouplingMC.cfg")
    ctx.model_check("CouplingMC", "CouplingMCFull.cfg")
    n = ctx.pick(900, 24000)
    cs = ctx.behaviours("CouplingGen", "CouplingGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 8
    jobs = [("coupling.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i), "cp%d" % i, 800) for i in range(k)]
    outs = ctx.drive_many(jobs, workers=8)
    ctx.validate("CouplingTrace", "CouplingTrace.cfg", [t for o in outs for t in o["traces"]], label="coupling")
