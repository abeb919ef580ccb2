"""Configuration: Config.tla (staged reading against the declarative meaning of a deck); decks generated by TLC are given to the real simulation."""


def run(ctx):
    ctx.model_check("ConfigMC", "ConfigMC.cfg")
    if not ctx.quick:
        ctx.model_check("ConfigMC", "ConfigMCFull.cfg", timeout=3000)
    n = ctx.pick(600, 8000)
    decks = ctx.behaviours("ConfigGen", "ConfigGen.cfg", args=["-simulate", "num=1", "-depth", str(n), "-seed", str(ctx.seed)], workers=1)
    k = 6
    parts = [decks[i::k] for i in range(k)]
    outs = ctx.drive_many([("config.py", dict(decks=p, seed=ctx.seed * 100 + i, scratch=ctx.path("decks%d" % i)), "cfg%d" % i, 3000) for i, p in enumerate(parts)], workers=6)
    traces = [dict(deck=d, ev=[e]) for p, o in zip(parts, outs) for d, e in zip(p, o)]
    ctx.validate("ConfigTrace", "ConfigTrace.cfg", traces, label="deck", inputs=[dict(deck=t["deck"]) for t in traces])
