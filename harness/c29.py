"""C29: load totals."""
import load


def run(ctx):
    ctx.check_design('LoadMC', 'LoadMCdeep.cfg' if ctx.thorough else 'LoadMC.cfg', 8)
    for _ in range(ctx.n(1500, 15000)):
        load.total(ctx, ctx.rng)
    ctx.judge('LoadTrace')
