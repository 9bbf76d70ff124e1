import conc
NET = ["network/socket.cpp", "network/dns.cpp", "network/ipv4.cpp", "system/syscall.cpp"]
ASSUME = [
    "socket system calls are answered by an in-memory model of TCP over loopback (harness/simnet.cpp): short and interrupted calls, refused connects, timeouts and connection loss are choices of the schedule explorer",
    "one thread at a time uses a stream_socket; an object whose connect failed, and writing before connecting, are outside the property"]


def run(ctx):
    ctx.model_check("SockBuf_A.tla", "SockBuf_A.cfg")
    exe = conc.build(ctx, "sock", NET, ["simnet.cpp"])
    q = dict(rand=(300, 40, 1500), dfs=(40, 1500, 400), bound=1)
    t = dict(rand=(3000, 100, 9000), dfs=(200, 8000, 3000), bound=2, shards=8)
    lines = conc.explore(ctx, exe, **(q if ctx.quick else t))
    for i in range(0, len(lines), 12000):
        ctx.validate("Sock_T.tla", "Sock_T.cfg", lines[i:i + 12000], label="sock")
    ctx.assumptions += ASSUME
