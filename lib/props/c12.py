import seq
from vf import hexs
SRCS = ["network/http/base.cpp", "network/socket.cpp", "network/dns.cpp", "network/ipv4.cpp", "network/uri.cpp", "system/syscall.cpp"]


def msgs(r):
    """A generator of messages: (kind, head bytes, framing, body pieces)"""
    tok = lambda: bytes(r.choice(b"abcXYZ-0_!~^|.") for _ in range(r.randrange(1, 7)))

    def val():
        k = r.random()
        if k < .15: return b""
        s = bytes(r.choice(b"ab :;=,\"/\\\t\x01\x7f\x80\xff<>()") for _ in range(r.randrange(0, 12)))
        return s.strip(b" \t\r\n\x0b\x0c")

    def start(kind):
        v = b"HTTP/" + r.choice([b"1.1", b"1.1", b"1.0", b"0.9", b"10.234", b"2.0"])
        if r.random() < .1: v = v.lower()
        if kind == 0:
            return r.choice([b"GET", b"POST", b"HEAD", b"PUT", tok()]) + b" " + target() + b" " + v
        return v + b" " + r.choice([b"200", b"404", b"100", b"999", b"000", b"302"]) + r.choice([b"", b" ", b" OK", b" Not Found", b" a  b ", b" \xe3\x81\x82 "])

    def target():
        p = b"/" + b"/".join(bytes(r.choice(b"abz09.-_~=&") for _ in range(r.randrange(1, 5))) for _ in range(r.randrange(0, 3)))
        if r.random() < .3: p += b"?" + bytes(r.choice(b"abz09.-_~=&/") for _ in range(r.randrange(1, 8)))
        return (b"http://" + r.choice([b"h", b"www.a-b.com", b"1.2.3.4"]) if r.random() < .2 else b"") + p

    def body():
        k = r.random()
        n = 0 if k < .15 else r.randrange(1, 20) if k < .8 else r.randrange(20, 300)
        c = r.random()
        if c < .3: return bytes(r.choice(b"\xff\x00\r\n0") for _ in range(n))
        return bytes(r.randrange(256) for _ in range(n))
    return tok, val, start, target, body


def chunked(r, b, nl=b"\r\n"):
    out = b""
    i = 0
    while i < len(b):
        n = min(len(b) - i, r.choice([1, 2, 3, 5, 16, 100, len(b)]))
        sz = r.choice([b"%x", b"%X", b"0%x", b"000%X"]) % n
        out += sz + r.choice([b"", b"", b"", b";a=b", b" ", b" ;x=\"y\""]) + nl + b[i:i + n] + nl
        i += n
    return out + r.choice([b"0", b"0", b"00", b"0;x"]) + nl + r.choice([b"", b"", b"A: b" + nl, b"X: 1" + nl + b"Y: 2" + nl]) + nl


def run(ctx):
    r = seq.rng(ctx)
    ctx.model_check("Http_A.tla", "Http_A.cfg" if ctx.quick else "Http_AT.cfg")
    tok, val, start, target, body = msgs(r)
    cases = []
    split = lambda: r.choice(["-", "-", "1", "1,2,3", "5,1", "7", "13,1,1", "100,1"])

    def fields(extra, nl):
        names = []
        out = b""
        for _ in range(r.randrange(0, 5)):
            t = tok()
            if t.lower() in names: continue
            names.append(t.lower())
            v = val()
            line = t + b":" + r.choice([b" ", b" ", b" ", b"", b"  \t"]) + v
            if r.random() < .1: line += nl + r.choice([b" ", b"\t", b"  "]) + r.choice([b"more", b"x y", b"", b": z"])
            out += line + nl
        k = r.randrange(3)
        return (out + extra if k else extra + out)

    def message(kind):
        nl = r.choice([b"\r\n"] * 6 + [b"\n"])
        b = body()
        k = r.random()
        case = lambda s: s if r.random() < .7 else s.lower() if r.random() < .5 else s.upper()
        if k < .4:
            ex = case(b"Transfer-Encoding") + b": " + case(b"chunked") + nl
            if r.random() < .15: ex += b"Content-Length: 3" + nl
            pay = chunked(r, b, nl)
        elif k < .8:
            n = len(b) if r.random() < .9 else r.choice([0, 1, len(b) + 1, len(b) + 5, 10 ** 8])
            ex = case(b"Content-Length") + r.choice([b": %d", b":%d", b": 0%d"]) % n + nl
            pay = b
        else:
            ex, pay = b"", b
        tail = r.choice([b"", b"", b"", b"NEXT", b"GET / HTTP/1.1\r\n\r\n", b"\xff"])
        return start(kind) + nl + fields(ex, nl) + nl + pay + tail
    bad = [b"", b"\r\n", b"\n\n", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET / HTTP\r\n\r\n", b"GET / HTTP/x.y\r\n\r\n", b"GET / FTP/1.1\r\n\r\n", b"HTTP/1.1\r\n\r\n", b"HTTP/1.1 abc\r\n\r\n",
           b"HTTP/1.1 \r\n\r\n", b"XTTP/1.1 200 OK\r\n\r\n", b"HTTP/1. 200 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\nA: b\r\n", b"HTTP/1.1 200 OK\r\nA: bcd", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 200 OK", b"200 OK\r\n\r\n"]
    te = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"
    for x in [b"-1\r\nabc\r\n0\r\n\r\n", b"-5\r\nabcde\r\n0\r\n\r\n", b"zz\r\nabc\r\n", b"\r\nabc\r\n", b"ffffffff\r\nabc\r\n0\r\n\r\n", b"80000000\r\nabc", b"7fffffff\r\nabc", b"1fffffffff\r\nabcdef", b"3\r\nabcX0\r\n\r\n", b"3\r\nabcX3\r\ndef\r\n0\r\n\r\n", b"3\r\nabc\rX3\r\ndef\r\n0\r\n\r\n", b"3\r\nabcdef\r\n0\r\n\r\n", b"2\r\nab\r3\r\nabc\r\n0\r\n\r\n", b"3\r\nabc\rX0\r\n\r\n", b"3\r\nab", b"3\r\nabc", b"3\r\nabc\r", b"3\r\nabc\r\n", b"3\r\nabc\r\n0\r\n", b"3\r\nabc\r\n0\r\nA: b", b"5\nab\n\nc\n0\n\nrest", b"+3\r\nabc\r\n0\r\n\r\n", b"0x3\r\nabc\r\n0\r\n\r\n", b" 3\r\nabc\r\n0\r\n\r\n",
              b"2\r\n\xff\xff\r\n1\r\n\xff\r\n0\r\n\r\n\xff", b"0\r\n\r\nX", b"3g\r\nabc\r\n0\r\n\r\n"]: bad.append(te + x)
    for x in [b"Content-Length: -1", b"Content-Length: abc", b"Content-Length:", b"Content-Length: 99999999999999999999", b"Content-Length: 9999999999", b"Content-Length: 4294967296", b"Content-Length: 4294967299", b"Content-Length: 2147483648", b"Content-Length: 8589934593", b"Content-Length: 00000000000003", b"Content-Length: 3x", b"Content-Length: 0", b"Transfer-Encoding: gzip", b": x", b"novalue", b" folded first", b"A b: c"]:
        bad.append(b"HTTP/1.1 200 OK\r\n" + x + b"\r\n\r\nabcdef"); bad.append(b"POST / HTTP/1.1\r\n" + x + b"\r\n\r\nabcdef")
    for b in bad:
        for k in (0, 1):
            for m in range(3): cases.append(["recv %d %s %s %d %d" % (k, hexs(b), split(), m, r.randrange(2))])
    # long lines, around the limit and around the reader's buffers
    for n in ([4080, 4090, 4093, 4094, 4095, 4096, 4097, 5000, 8190, 8192] if ctx.quick else list(range(4060, 4110)) + [5000, 8000, 8150, 8180, 8190, 8191, 8192, 8193, 9000, 12288]):
        for nl in (b"\r\n", b"\n"):
            cases.append(["recv 1 %s - 1 0" % hexs(b"HTTP/1.1 200 OK" + nl + b"A: " + b"x" * (n - 3) + nl + b"B: c" + nl + nl + b"body")])
            cases.append(["recv 1 %s - 1 0" % hexs(b"HTTP/1.1 200 " + b"x" * (n - 13) + nl + b"B: c" + nl + nl + b"body")])
            if n % 3 == 0: cases.append(["recv 0 %s - 1 0" % hexs(b"GET /" + b"x" * (n - 14) + b" HTTP/1.1" + nl + b"B: c" + nl + nl + b"body")])
            if n % 3 == 1: cases.append(["recv 1 %s - 1 0" % hexs(b"HTTP/1.1 200 OK" + nl + b"Transfer-Encoding: chunked" + nl + nl + b"3;" + b"x" * (n - 2) + nl + b"abc" + nl + b"0" + nl + nl + b"rest")])
    # chunks around the body reader's buffer
    for n in ([4095, 4096, 4097, 8192, 8200] if ctx.quick else [4094, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289]):
        for pre in ([], [5]):
            p = b""
            for m in pre + [n, 2]: p += b"%x\r\n" % m + bytes((i * 7 + m) % 256 for i in range(m)) + b"\r\n"
            cases.append(["recv 1 %s %s 1 0" % (hexs(te + p + b"0\r\n\r\nrest"), split())])
            cases.append(["recv 1 %s %s 0 0" % (hexs(te + p[:-7]), "-")])
    for _ in range(ctx.scale(2600, 60000)):
        k = r.randrange(2)
        m = message(k)
        q = r.random()
        if q < .2: m = m[:r.randrange(len(m) + 1)]
        elif q < .3:
            i = r.randrange(len(m)); m = m[:i] + bytes([r.choice(b"\r\n:; \x00\xff0a")]) + m[i + r.randrange(2):]
        cases.append(["recv %d %s %s %d %d" % (k, hexs(m), split(), r.choice([0, 1, 2, 4] + [3] * (q < .2)), r.randrange(2))])
    # every truncation of a few messages
    for m in [b"POST /a?b=c HTTP/1.1\r\nHost: x\r\nContent-Length: 4\r\n\r\nab\xffd", te + b"2\r\nab\r\n3;x\r\ncde\r\n0\r\nT: u\r\n\r\n"]:
        for i in range(len(m) + 1): cases.append(["recv %d %s - %d 0" % (0 if m[:1] == b"P" else 1, hexs(m[:i]), i % 3)])
    # sending
    def sfields():
        names, out = set(), []
        for _ in range(r.randrange(0, 5)):
            t = tok()
            if t.lower() in names: continue
            names.add(t.lower())
            out.append((t, val()))
        return out
    enc = lambda h: ",".join(hexs(a) + "=" + hexs(b) for a, b in h) or ","
    for _ in range(ctx.scale(900, 20000)):
        k = r.randrange(2)
        h, b = sfields(), body()
        if r.random() < .15: h.insert(r.randrange(len(h) + 1), (r.choice([b"Content-Length", b"content-length"]), b"%d" % len(b)))
        if r.random() < .1: b = bytes(r.randrange(256) for _ in range(r.choice([8192, 8100, 9000, 20000]))) if r.random() < .1 else b
        f = -1 if r.random() < .6 else r.randrange(0, 120 + len(b))
        st = ("%s %s" % (hexs(r.choice([b"GET", b"POST", tok()])), hexs(target()))) if k == 0 else "%d %s" % (r.choice([100, 200, 404, 999]), hexs(r.choice([b"", b"OK", b"Not Found", b"a  b", b"\xff\x80x"])))
        cases.append(["send %d %s %d %d %s %s %d %s" % (k, st, r.choice([1, 1, 0, 10]), r.choice([1, 0, 234]), enc(h), hexs(b), f, split())])
    # heads that fill the write buffer exactly, on a connection that fails
    for n in (range(8188, 8197) if ctx.quick else range(8170, 8215)):
        for f in (0, 100, 8191, 8192, -1):
            cases.append(["send 1 200 %s 1 1 %s - %d -" % (hexs(b"OK"), enc([(b"A", b"x" * 4000), (b"B", b"y" * 4000), (b"C", b"z" * (n - 8000 - 17 - 15 - 2))]), f)])
    for _ in range(ctx.scale(300, 6000)):
        host = r.choice([b"h", b"www.a-b.com", b"1.2.3.4"])
        p = b"/" + bytes(r.choice(b"abz09.-_~=&/") for _ in range(r.randrange(0, 8))).lstrip(b"/")
        cases.append(["get %s %s %s %d %d %s" % (hexs(b"http://" + host + p), hexs(message(1)), split(), r.choice([0, 1, 2, 4]), r.randrange(2), hexs(host))])
    nm = [b"x^", b"x~", b"X^", b"n`", b"n@", b"A", b"a", b"Ab", b"aB", b"c-d", b"C-D", b"", b"\xc4"]
    for _ in range(ctx.scale(250, 4000)):
        c = []
        for _ in range(r.randrange(3, 16)):
            k = r.random(); n = hexs(r.choice(nm))
            c.append("hset %s %s %d" % (n, hexs(val()), r.randrange(2)) if k < .5 else "herase " + n if k < .65 else "hget " + n)
        cases.append(c)
    r.shuffle(cases)
    seq.check(ctx, "http", "Http_T", cases, srcs=SRCS, chunk=4000)
    ctx.assumptions += ["fields with repeated names, unusual framing fields, and lines over 4095 bytes may be refused or accepted; odd spellings in the start line may be accepted leniently",
                        "the connection is a scripted stand-in for the socket system calls (any split, end or reset at any byte)"]
