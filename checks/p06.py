"""Phases of the steps and runs made of them: Step.tla; TLC's schedules of calls drive real simulations, judged by StepTrace."""


def run(ctx):
    ctx.model_check("StepMC", "StepMC.cfg")
    ctx.model_check("StepMC", "StepMCRuns.cfg")
    n = ctx.pick(300, 5000)
    beh = ctx.behaviours("StepGen", "StepGen.cfg", args=["-simulate", "num=%d" % n, "-depth", "12", "-seed", str(ctx.seed)], workers=1)
    # one schedule of every walk
    seen, cs = set(), []
    for b in sorted(beh, key=lambda b: -any(p["op"] == "reload" for p in b["plan"]) if b["f"]["auto"] else -len(b["plan"]) / 8):
        key = str(b["f"]) + str(b["times"])
        if key not in seen:
            seen.add(key)
            cs.append(b)
    k = 8
    outs = ctx.drive_many([("step.py", dict(configs=cs[i::k], seed=ctx.seed * 1000 + 100 * i), "st%d" % i, 800) for i in range(k)], workers=8)
    ctx.validate("StepTrace", "StepTrace.cfg", [t for o in outs for t in o["traces"]], label="step", inputs=[t for o in outs for t in o["inputs"]])
