import indexing


def run(ctx):
    for c, o in indexing.cases(ctx, ctx.n(500, 5000), ctx.n(200, 1500), ctx.n(50, 400)):
        indexing.cycle(ctx, c, o, 'toext')
    ctx.judge('IndexingTrace')
