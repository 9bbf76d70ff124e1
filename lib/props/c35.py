import conc
from props import c13
from props.c11 import NET
CGI = ["network/http/base.cpp", "network/uri.cpp", "network/cgi/base.cpp", "network/cgi/util.cpp", "network/cgi/server.cpp", "network/cgi/cgi.cpp",
       "network/cgi/inserter.cpp", "network/cgi/xhtml_builder.cpp", "network/cgi/xhtml_cgi.cpp"]


def run(ctx):
    ctx.model_check("Web_A.tla", "Web_A.cfg" if ctx.quick else "Web_AT.cfg")
    exe = conc.build(ctx, "web", NET + CGI, ["simnet.cpp"])
    q = dict(rand=(150, 30, 1200), dfs=(40, 150, 250), bound=1)
    t = dict(rand=(1500, 100, 6000), dfs=(120, 6000, 2000), bound=2, shards=8)
    lines = conc.explore(ctx, exe, **(q if ctx.quick else t))
    for i in range(0, len(lines), 12000):
        ctx.validate("Web_T.tla", "Web_T.cfg", lines[i:i + 12000], label="web")
    c13.run(ctx, serve=True)            # one thread, any requests and answers, byte for byte
