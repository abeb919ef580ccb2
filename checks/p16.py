"""Cross-ionization: CrossIon.tla; TLC's processes and populations on the real code, judged by CrossIonTrace."""


def run(ctx):
    ctx.model_check("CrossIonMC", "CrossIonMC.cfg")
    n = ctx.pick(200, 4000)
    cs = ctx.behaviours("CrossIonGen", "CrossIonGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 8
    outs = ctx.drive_many([("crossion.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i), "ci%d" % i, 800) for i in range(k)], workers=8)
    ctx.validate("CrossIonTrace", "CrossIonTrace.cfg", [t for o in outs for t in o["traces"]], label="crossion", inputs=[t for o in outs for t in o["inputs"]])
