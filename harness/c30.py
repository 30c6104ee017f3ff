"""C30: load scaling."""
import load


def run(ctx):
    ctx.check_design('LoadMC', 'LoadMCdeep.cfg' if ctx.thorough else 'LoadMC.cfg', 8)
    for _ in range(ctx.n(600, 6000)):
        load.scale(ctx, ctx.rng)
    ctx.judge('LoadTrace')
