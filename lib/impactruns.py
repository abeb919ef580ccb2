"""Histories of wall interactions, shared by P08 and P10."""


def histories(ctx):
    n = ctx.pick(400, 6000)
    cs = ctx.behaviours("ImpactGen", "ImpactGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1, timeout=3000)
    k = 6
    return ctx.drive_many([("impact.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i), "imp%d" % i, 800) for i in range(k)], workers=6)
