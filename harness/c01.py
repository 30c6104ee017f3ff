import indexing


def run(ctx):
    for c, o in indexing.cases(ctx, ctx.n(1512, 8000), ctx.n(300, 2000), ctx.n(100, 500)):
        indexing.cycle(ctx, c, o, 'toint')
    ctx.judge('IndexingTrace')
