"""Macroparticle store: MPStore.tla, behaviours of MPStoreMC replayed into MP_system, traces validated by MPStoreTrace."""


def run(ctx):
    ctx.model_check("MPStoreMC", "MPStoreMC.cfg")
    n = ctx.pick(150, 1500)
    beh = ctx.behaviours("MPStoreMC", "MPStoreGen.cfg", args=["-simulate", "num=%d" % n, "-depth", "80", "-seed", str(ctx.seed)],
                         workers=1)
    traces = ctx.drive("mpstore.py", dict(behaviours=beh, seed=ctx.seed, cap=14, thin=ctx.pick(12, 60), soft=[8, 4], **{"async": [9, 5]}))
    groups = {}
    for t, b in zip(traces, beh + [None] * len(traces)):
        groups.setdefault((tuple(t["soft"]), tuple(t["asyn"])), []).append((t, b))
    for j, ((soft, asyn), tb) in enumerate(sorted(groups.items())):
        ctx.validate("MPStoreTrace", "MPStoreTrace.cfg", [t for t, _ in tb], label="store%d" % j, inputs=[b for _, b in tb],
                     consts="CONSTANTS SoftTh = %d SoftAfter = %d AsyncTh = %d AsyncAfter = %d" % (soft + asyn))
