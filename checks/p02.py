"""Full regeneration: MPRegen.tla; recorded regenerations of the real store validated by MPRegenTrace."""


def run(ctx):
    ctx.model_check("MPRegenMC", "MPRegenMC.cfg")
    traces = ctx.drive("mpregen.py", dict(n=ctx.pick(250, 2500), seed=ctx.seed, trials=ctx.pick(200, 1000)))
    ctx.validate("MPRegenTrace", "MPRegenTrace.cfg", traces, label="regeneration")
