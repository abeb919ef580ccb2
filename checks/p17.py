"""Primary electrons: Primary.tla; TLC's sources, rates, chambers and regions on the real code, judged by PrimaryTrace."""


def run(ctx):
    ctx.model_check("PrimaryMC", "PrimaryMC.cfg")
    ctx.model_check("PrimaryMC", "PrimaryMCFull.cfg")
    n = ctx.pick(500, 24000)
    cs = ctx.behaviours("PrimaryGen", "PrimaryGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 8
    runs = [c for c in cs if c["kind"] == "run"][:ctx.pick(60, 1500)]
    cs = [c for c in cs if c["kind"] != "run"]
    jobs = [("primary.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i), "pr%d" % i, 800) for i in range(k)]
    jobs += [("prirun.py", dict(configs=runs[i::k], seed=ctx.seed * 100 + 50 + i), "rn%d" % i, 800) for i in range(k)]
    outs = ctx.drive_many(jobs, workers=8)
    ctx.validate("PrimaryTrace", "PrimaryTrace.cfg", [t for o in outs for t in o["traces"]], label="primary")
