"""Space charge: SpaceCharge.tla; TLC's schedules drive real simulations, judged by SpaceChargeTrace."""
import random

MODES = ["FiniteDifferences_ShortleyWeller"] * 5 + ["FiniteDifferences_Staircase", "FFT_PEC_Boundary", "FFT_OpenBoundary"]


def run(ctx):
    ctx.model_check("SpaceChargeMC", "SpaceChargeMC.cfg")
    n = ctx.pick(320, 6000)
    beh = ctx.behaviours("SpaceChargeMC", "SpaceChargeGen.cfg", args=["-simulate", "num=%d" % n, "-depth", "18", "-seed", str(ctx.seed)], workers=1)
    r = random.Random(ctx.seed)
    cs = []
    for b in beh[:n]:
        em = int(b["conf"]["dt"] > 0 and r.random() < .2)
        if r.random() < .3:
            b["steps"] = [dict(s, force=False) for s in b["steps"]]
        cs.append(dict(conf=b["conf"], steps=b["steps"], f=dict(mode=MODES[0] if em else r.choice(MODES), em=em, nmp=r.choice([1, 12, 60]), ref=1e4,
                                                                regen=r.choice([70, 2500]), dh=r.choice([4e-3, 8e-3]), gas=int(r.random() < .4),
                                                                energy=int(r.random() < .3), shared=int(not em and r.random() < .5),
                                                                kill=r.choice([-1, -1, 1, 2, 5]), killed=r.randrange(3))))
    k = 8
    outs = ctx.drive_many([("spacecharge.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i), "sc%d" % i, 800) for i in range(k)], workers=8)
    ctx.validate("SpaceChargeTrace", "SpaceChargeTrace.cfg", [t for o in outs for t in o["traces"]], label="spacecharge",
                 inputs=[t for o in outs for t in o["inputs"]])
