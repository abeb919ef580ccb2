"""Secondary emission: Emission.tla; TLC's surfaces and batches of impacts go through real simulations with every emission model."""


def run(ctx):
    ctx.model_check("EmissionMC", ctx.pick("EmissionMC.cfg", "EmissionMCFull.cfg"))
    n = ctx.pick(130, 1000)
    cs = ctx.behaviours("EmissionGen", "EmissionGen.cfg", args=["-simulate", "num=1", "-depth", str(n + 1), "-seed", str(ctx.seed)], workers=1, timeout=3000)
    # an event of many electrons, with conserve_energy (see known-findings.json)
    fp = next(c for c in cs if c["model"] == "fp" and c["M"] == 10)
    b = dict(op="batch", e=1003, e2=0, ct=10000, w=2, N=3000, side=1, phi=20, dt=0)
    cs.append(dict(fp, cons=True, fpene=False, dTS=19000, p1Ehat=4000, p1EInf=500, batches=[b]))
    k = 7
    outs = ctx.drive_many([("emission.py", dict(configs=cs[i::k], seed=ctx.seed * 100 + i, scratch=ctx.path("emi%d" % i)), "emi%d" % i, 3000) for i in range(k)], workers=k)
    ts = [t for o in outs for t in o]
    ctx.validate("EmissionTrace", "EmissionTrace.cfg", ts, label="emission")
    tot = [dict(cfg=t["cfg"], ev=[dict(op="total", excess=any(e.get("over", {}).get("sum", 0) > 0 for e in t["ev"]), parts="3+")]) for t in ts if t["cfg"]["cons"]]
    ctx.validate("EmissionTrace", "EmissionTrace.cfg", tot, label="conserved")
