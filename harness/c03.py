import indexing


def run(ctx):
    for c, o in indexing.cases(ctx, ctx.n(400, 4000), ctx.n(500, 4000), ctx.n(100, 500)):
        indexing.field_events(ctx, c, o)
    ctx.judge('IndexingTrace')
