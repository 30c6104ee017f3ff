import gen
import pf


def run(ctx):
    for k in range(ctx.n(120, 900)):
        pf.dc_event(ctx, gen.network(ctx.rng, multi=.7, shift=.5, islands=.15), k % 2)
    ctx.judge('PowerFlowTrace')
