from props import c09


def run(ctx):
    ctx.model_check("RpcStop_A.tla", "RpcStop_A.cfg")
    if not ctx.quick:
        ctx.model_check("RpcStop_A.tla", "RpcStop_AT.cfg")
    c09.explore(ctx, "life")
    ctx.assumptions += ["start() is not called on a server that is not stopped, with at least one thread; handlers throw nothing but rpc_error; stop() is called before the server is destroyed"]
