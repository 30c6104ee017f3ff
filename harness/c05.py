from optmodel import histories, play, random_history


def run(ctx):
    for h in histories(ctx, 700, 12000):
        play(ctx, h, True, False)
    for _ in range(ctx.n(200, 3000)):
        play(ctx, random_history(ctx.rng, int(ctx.rng.integers(3, 12)), 4), True, ctx.rng.random() < .3)
    ctx.judge('OptModelTrace')
