"""Impact diagnostics: Tally.tla model checked; the real histograms follow it through TLC's histories of impacts and resets (TallyTrace)."""
import impactruns


def run(ctx):
    ctx.model_check("TallyMC", "TallyMC.cfg")
    outs = impactruns.histories(ctx)
    ctx.validate("TallyTrace", "TallyTrace.cfg", [t for o in outs for t in o["tallies"]], label="tally", inputs=[t for o in outs for t in o["inputs"]], batch=200)
