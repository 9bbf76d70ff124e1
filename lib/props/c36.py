import conc


def run(ctx):
    conc.standard(ctx, "single", "Single", q=dict(rand=(40, 10, 1000), dfs=(8, 50, 1000), shards=12), t=dict(rand=(40, 10, 1000), dfs=(8, 50, 1000), bound=3, shards=400))
