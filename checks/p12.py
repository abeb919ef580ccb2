"""Pass-by-pass output, periodic histograms, movies and saved states: Saver.tla; real simulations judged by SaverTrace."""
import savercfg


def run(ctx):
    show = ["pbp", "enh", "life"]
    savercfg.run(ctx, show, ctx.pick(72, 800), [])
