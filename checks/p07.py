"""Trackers: Motion.tla (exact rational motion); TLC's configurations drive the real trackers, judged by MotionTrace."""


def run(ctx):
    ctx.model_check("MotionMC", "MotionMC.cfg")
    ctx.model_check("MotionMC", "MotionMCExact.cfg")
    n = ctx.pick(700, 12000)
    cs = ctx.behaviours("MotionGen", "MotionGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 8
    outs = ctx.drive_many([("motion.py", dict(configs=cs[i::k], seed=ctx.seed * 10000 + 1000 * i, agree=ctx.pick(6, 100), refuse=i == 0), "mo%d" % i, 800)
                           for i in range(k)], workers=8)
    ctx.validate("MotionTrace", "MotionTrace.cfg", [t for o in outs for t in o["traces"]], label="motion", inputs=[t for o in outs for t in o["inputs"]])
