import conc


def run(ctx):
    conc.standard(ctx, "chan", "Chan", q=dict(rand=(60, 400, 500), dfs=(25, 4000, 250)),
                  t=dict(rand=(600, 2000, 3000), dfs=(200, 20000, 1500), bound=3, shards=8))
