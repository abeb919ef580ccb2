"""Wall interactions: Geometry.tla/WallTrace; TLC's histories drive the real impact manager with every emission model."""
import impactruns


def run(ctx):
    ctx.model_check("GeometryMC", "GeometryMC.cfg")
    outs = impactruns.histories(ctx)
    ctx.validate("WallTrace", "WallTrace.cfg", [t for o in outs for t in o["walls"]], label="wall", inputs=[t for o in outs for t in o["inputs"]])
