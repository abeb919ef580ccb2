"""Chamber geometry: Geometry.tla (exact lattice geometry); the real chambers answer TLC's questions, judged by GeometryTrace."""


def run(ctx):
    ctx.model_check("GeometryMC", "GeometryMC.cfg")
    if not ctx.quick:
        ctx.model_check("GeometryMC", "GeometryMCLarge.cfg", timeout=3000)
    n = ctx.pick(400, 6000)
    cs = ctx.behaviours("GeometryGen", "GeometryGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 6
    outs = ctx.drive_many([("geometry.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i), "geo%d" % i, 600) for i in range(k)], workers=6)
    ctx.validate("GeometryTrace", "GeometryTrace.cfg", [t for o in outs for t in o["traces"]], label="geometry", inputs=[t for o in outs for t in o["inputs"]])
