"""Step-by-step output: Saver.tla; real simulations on TLC's schedules, their output file judged by SaverTrace."""
import savercfg


def run(ctx):
    show = ["sbs"]
    longs = [savercfg.long_run(1080, show, 1, 1)] + ([] if ctx.quick else [savercfg.long_run(4300, show, 1, 2), savercfg.long_run(4400, show, 2, 1)])
    savercfg.run(ctx, show, ctx.pick(72, 800), longs)
