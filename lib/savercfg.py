"""Configurations of real simulations for the saver checks: TLC's schedules crossed with saving options."""
import random


def schedules(ctx, n):
    beh = ctx.behaviours("SaverMC", "SaverGen.cfg", args=["-simulate", "num=%d" % max(40, n), "-depth", "26", "-seed", str(ctx.seed)],
                         workers=1)
    seen, out = set(), []
    for b in beh:
        k = repr(sorted(b["conf"].items())) + repr(b["t"][:12])
        if k not in seen:
            seen.add(k)
            out.append(b)
    random.Random(ctx.seed).shuffle(out)
    return out


def options(r, show, j):
    b = lambda p: int(r.random() < p)
    two = b(.4)
    return dict(clouds=1 + two, det=b(.4), probes=b(.5), detailed=b(.5), custom=b(.4), energy=b(.25), seg=b(.6), enseg=b(.5), cos=b(.7),
                films=b(.5) if "pbp" in show else 0, only=b(.12), sub=b(.5), dtsc=r.choice([0, 3, 7]),
                regen=r.choice([60, 2500, 2500]), ref=10000, nmp=r.choice([40, 80]), nsub=r.choice([3, 4]),
                track=r.choice(["Boris", "Boris", "BorisMultipole"]), kill=r.choice([0, 0, 0, r.random()]), killed=b(.5),
                xion=int(two and "sbs" in show and r.random() < .7), names=["default", "ions"])


def configs(ctx, show, n):
    r = random.Random(ctx.seed * 7 + len(show))
    out = []
    for j, b in enumerate(schedules(ctx, n)[:n]):
        f = options(r, show, j)
        ticks = list(b["t"])
        c = dict(b["conf"], B=8, show=show, only=bool(f["only"]), tsim=r.choice([[], [3, 10], [0, 9, 50]]) if "pbp" in show else [])
        if "pbp" not in show:
            c["tobs"] = []
        if f["only"]:
            c["dtlife"] = 0
        # the axis has one point more than there are steps; usually long enough for the requested cadence of writing
        if r.random() < .9:
            last = -(-(ticks[-1] + 1) // (8 * c["every"])) * 8 * c["every"]
            ticks = [t for t in ticks if t < last] + [last]
        out.append(dict(conf=c, t=ticks, f=f))
    return out


def long_run(nstep, show, dec, every):
    """More samples than the initial buffers hold."""
    f = dict(clouds=1, det=0, probes=1, detailed=1, custom=1, energy=0, seg=0, enseg=0, cos=0, films=0, only=0, sub=0, dtsc=7, regen=2500,
             ref=10000, nmp=6, nsub=1, track="Boris", light=1)
    B = 64
    n = -(-nstep // (B * every)) * B * every
    return dict(conf=dict(dec=dec, dtref=1, dten=B, dtlife=0, every=every, tobs=[], tsim=[], B=B, show=show, only=False),
                t=list(range(n + 1)), f=f)


def run(ctx, show, n, longs):
    ctx.model_check("SaverMC", "SaverMC.cfg")
    cs = configs(ctx, show, n)
    k = 8
    jobs = [("saver.py", dict(configs=cs[i::k], seed=ctx.seed * 1000 + i), "saver%d" % i, 800) for i in range(k) if cs[i::k]]
    jobs += [("saver.py", dict(configs=[c], seed=ctx.seed * 1000 + 500 + i), "saverlong%d" % i, 800) for i, c in enumerate(longs)]
    outs = ctx.drive_many(jobs, workers=8)
    tr, inp = [], []
    ltr, linp = [], []
    for i, o in enumerate(outs):
        a, b = (tr, inp) if i < len(jobs) - len(longs) else (ltr, linp)
        a += o["traces"]
        b += o["inputs"]
    ctx.validate("SaverTrace", "SaverTrace.cfg", tr, label="saver", inputs=inp, batch=60)
    if ltr:
        ctx.validate("SaverTrace", "SaverTrace.cfg", ltr, label="saver-long", inputs=linp)
