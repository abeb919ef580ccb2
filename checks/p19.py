"""Deposition, interpolation, histograms: CIC.tla (exact cloud-in-cell); the compiled kernels on TLC's scenes, judged by CICTrace."""


def run(ctx):
    ctx.model_check("CICMC", "CICMC.cfg")
    if not ctx.quick:
        ctx.model_check("CICMC", "CICMCLarge.cfg", timeout=3000)
    n = ctx.pick(3000, 60000)
    cs = ctx.behaviours("CICGen", "CICGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 4
    outs = ctx.drive_many([("kernels.py", dict(configs=cs[i::k]), "k%d" % i, 600) for i in range(k)], workers=4)
    ctx.validate("CICTrace", "CICTrace.cfg", [t for o in outs for t in o["traces"]], label="kernels", inputs=[t for o in outs for t in o["inputs"]])
