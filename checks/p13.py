"""Checkpoints: Checkpoint.tla; TLC's kill schedules replayed on real simulations, the histories judged by CheckpointTrace."""
import random


def options(r, conf):
    b = lambda p: int(r.random() < p)
    em = b(.1)
    return dict(det=b(.5), probes=b(.5), detailed=b(.5), custom=b(.5), energy=b(.3) and not em, seg=b(.6), enseg=b(.5), cos=b(.6), films=b(.4), only=b(.1),
                sub=b(.5), dtsc=r.choice([2, 3, 7] if em else [0, 2, 3, 7]), regen=r.choice([45, 60, 2500, 2500]), ref=10000, nmp=r.choice([20, 40, 60]),
                nsub=r.choice([2, 3]), track=r.choice(["Boris", "BorisMultipole"]), dten=r.choice([1, 5, 7]), dtlife=r.choice([0, 3, 5]),
                tobs=r.choice([[], [3, 10], [0, 13]]), tsim=r.choice([[], [2, 15], [0, 8, 12]]), em=em, slash=b(.5), copydt=r.choice([-1, 0, 3]),
                sec=b(.3), cross=(1e20 if conf["clouds"] == 2 and b(.4) else 0), gas=b(.4))


SOLVERS = ["FiniteDifferences_ShortleyWeller", "FiniteDifferences_Staircase", "FFT_PEC_Boundary", "FFT_OpenBoundary",
           "ShortleyWeller_WithTelescopicGrids"]


def plans(ctx, nrandom, neach):
    r = random.Random(ctx.seed * 11 + 3)
    out = []
    seen = set()
    beh = ctx.behaviours("CheckpointMC", "CheckpointGen.cfg", args=["-simulate", "num=%d" % (nrandom * 3), "-depth", "900", "-seed", str(ctx.seed)], workers=1)
    for b in beh:
        key = repr(b)
        if b["kills"] and key not in seen and len(out) < nrandom:
            seen.add(key)
            out.append(b)
    # every kind of interruption once, in every configuration TLC enumerated: a stratified sample of them
    each = ctx.behaviours("CheckpointMC", "CheckpointEach.cfg", workers=1)
    kinds = {}
    for b in each:
        if b["kills"]:
            kk = b["kills"][0]
            c = b["conf"]
            kinds.setdefault((kk["op"], kk["stage"], kk["cloud"], c["clouds"], c["copy"]), []).append(b)
    for key in sorted(kinds):
        kinds[key].sort(key=repr)
        r.shuffle(kinds[key])
    i = 0
    n = 0
    while n < neach and any(len(v) > i for v in kinds.values()):
        for key in sorted(kinds):
            if len(kinds[key]) > i and n < neach:
                out.append(kinds[key][i])
                n += 1
        i += 1
    ctx.coverage["kinds_of_interruption"] = len(kinds)
    ctx.coverage["single_interruptions_enumerated"] = len(each)
    return [dict(conf=b["conf"], kills=b["kills"], f=options(r, b["conf"]), id=j) for j, b in enumerate(out)]


def run(ctx):
    ctx.model_check("CheckpointMC", "CheckpointMC.cfg")
    # the model can tell a correct procedure from those that lose data
    for neg in ("ATOMIC", "COPYFIRST", "KEEPOBS", "FINISH"):
        r = ctx.tlc("CheckpointMC", "CheckpointWithout%s.cfg" % neg)
        ctx.require("is violated" in r.out, "the model does not need %s" % neg)
    ps = plans(ctx, *ctx.pick((40, 90), (500, 1500)))
    k = 16
    jobs = [("ckpt.py", dict(plans=ps[i::k], seed=ctx.seed * 1000), "ckpt%d" % i, 850) for i in range(k) if ps[i::k]]
    # the other field solvers
    r = random.Random(5)
    conf = dict(steps=24, bp=4, every=1, dt=5, copy=True, clouds=1, dec=1)
    kills = [dict(step=13, op="compute", cloud=1, stage="-")]
    fs = [dict(conf=conf, kills=kills, f=dict(options(r, conf), solver=n, em=0, dtsc=2, films=0, only=0, tsim=[]), id=9000 + j) for j, n in enumerate(SOLVERS)]
    jobs.append(("ckpt.py", dict(plans=fs, seed=ctx.seed * 1000), "ckptfields", 850))
    outs = ctx.drive_many(jobs, workers=8)
    other = outs.pop()
    tr = [t for o in outs for t in o["traces"]]
    inp = [t for o in outs for t in o["inputs"]]
    ctx.coverage["interruptions_planned"] = sum(len(p["kills"]) for p in ps)
    ctx.coverage["interruptions_made"] = sum(i["hit"] for i in inp)
    ctx.validate("CheckpointTrace", "CheckpointTrace.cfg", tr, label="checkpoint", inputs=inp)
    ctx.validate("CheckpointTrace", "CheckpointTrace.cfg", other["traces"], label="checkpoint-fields", inputs=other["inputs"])
