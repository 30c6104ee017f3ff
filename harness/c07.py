import gen
import pf


def run(ctx):
    for k in range(ctx.n(45, 400)):
        c = gen.network(ctx.rng, islands=.12)
        pf.ac_events(ctx, c, (1, 2, 3, 4) if k % 3 == 0 else (1, 2 + k % 2))
    ctx.judge('PowerFlowTrace')
