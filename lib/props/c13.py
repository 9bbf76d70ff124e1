import seq
from vf import hexs
from props.c12 import SRCS
CGI = SRCS + ["network/cgi/base.cpp", "network/cgi/util.cpp", "network/cgi/server.cpp", "network/cgi/cgi.cpp", "network/cgi/inserter.cpp", "network/cgi/xhtml_builder.cpp", "network/cgi/xhtml_cgi.cpp"]


def pct(r, b):
    out = b""
    for c in b:
        x = bytes([c])
        if x.isalnum() or c in b"-._~": out += x if r.random() < .9 else b"%%%02x" % c
        elif c == 32 and r.random() < .7: out += b"+"
        else: out += (b"%%%02X" if r.random() < .5 else b"%%%02x") % c
    return out


def run(ctx, serve=False):
    if not serve: ctx.model_check("Cgi_A.tla", "Cgi_A.cfg" if ctx.quick else "Cgi_AT.cfg")
    r = seq.rng(ctx)
    anyb = lambda n: bytes(r.choice(b"ab&=+% ;\"\r\n-\x00\xff\x80?/#") for _ in range(r.randrange(n)))
    word = lambda: bytes(r.choice(b"abcn") for _ in range(r.randrange(1, 4)))

    def urlenc():
        fs = [(pct(r, r.choice([word(), word(), anyb(6)])), pct(r, anyb(9))) for _ in range(r.randrange(0, 5))]
        s = b"&".join(k if (r.random() < .1 and not v and k) else k + b"=" + v + (b"=x" if r.random() < .05 else b"") for k, v in fs)
        if r.random() < .12 and s:
            i = r.randrange(len(s)); s = s[:i] + r.choice([b"&", b"=", b"%", b"%4", b"&&", b"+"]) + s[i:]
        return s
    BC = b"abcXYZ019'()+_,-./:=?"

    def boundary():
        k = r.random()
        if k < .3: return b"----WebKitFormBoundary" + word()
        if k < .5: return b"-" * r.randrange(1, 6) + word()
        return bytes(r.choice(BC) for _ in range(r.randrange(1, 9)))

    def qtext(): return bytes(r.choice(b"abc;=, .-:/'\xe3\x81\xff(") for _ in range(r.randrange(0, 9)))

    def content(bd):
        t = [b"\r\n", b"--", b"\n", b"\r", b"-", bd[:-1], b"x", b"\x00", b"\xff", b"\r\n--", b"\r\n--" + bd[:-1], b"\r\n-" + bd, b"--" + bd[1:], b"\n--\r\n", b"Content-Disposition: form-data; name=\"z\"", b"abc", b" "]
        for _ in range(20):
            s = b"".join(r.choice(t) for _ in range(r.randrange(0, 9)))
            if b"\n--" + bd not in b"\r\n" + s + b"\r\n": return s
        return b"plain"

    def attr(k, v):
        if v and all(chr(c).isalnum() for c in v) and r.random() < .3: return k + b"=" + v
        return k + b"=\"" + v + b"\""

    def parts(bd, depth, nl, deep=0):
        s = r.choice([b"", b"", b"preamble" + nl])
        for j in range(r.randrange(1, 3 if deep > depth else 5)):
            s += b"--" + bd + nl
            k = r.random()
            if depth < 2 and k < .12 or depth < deep and j == 0:
                b2 = boundary()
                if b2.startswith(bd) or bd.startswith(b2): b2 = b"Q" + b2 + b"q"
                h = [b"Content-Type: multipart/mixed; boundary=" + (b"\"" + b2 + b"\"" if not all(chr(c).isalnum() or c in b"-_." for c in b2) or r.random() < .3 else b2)]
                if r.random() < .5: h.append(b"Content-Disposition: form-data; name=\"up\"")
                c = parts(b2, depth + 1, nl, deep)
                if b"\n--" + bd in b"\n" + c: c = b"--" + b2 + nl + b"A: b" + nl + nl + b"x" + nl + b"--" + b2 + b"--"
            else:
                ps = [attr(b"name", r.choice([word(), qtext(), b"a;b" * r.randrange(1, 6)]))]
                ty = b"form-data"
                if k < .5: ps.append(attr(r.choice([b"filename", b"filename", b"FileName"]), r.choice([word() + b".txt", qtext(), b"x; name=y", b"f" * r.randrange(1, 40) + b";" + b"g" * 20])))
                if depth and r.random() < .6: ty, ps = b"attachment", [attr(b"filename", qtext())]
                if r.random() < .1: ps.append(attr(b"x-foo", word()))
                r.shuffle(ps)
                sep = r.choice([b"; ", b";", b" ; "]) if r.random() < .2 else b"; "
                sep2 = b"; " if sep == b" ; " else sep
                h = [r.choice([b"Content-Disposition: ", b"content-disposition:", b"Content-Disposition:  "]) + ty + b"".join(sep2 + p for p in ps)]
                if r.random() < .5: h.append(b"Content-Type: " + r.choice([b"text/plain", b"application/octet-stream", b"image/png; a=b"]))
                if r.random() < .2: h.append(b"X-Other: " + word())
                if r.random() < .2: h.reverse()
                if r.random() < .03: h = [b"X-None: y"]
                c = content(bd)
            s += nl.join(h) + nl + nl + c + nl
        s += b"--" + bd + b"--" + r.choice([b"", nl, nl + b"epilogue", nl + b"--x"])
        return s

    def multipart():
        bd = boundary()
        nl = b"\r\n"
        b = parts(bd, 0, nl, r.randrange(3, 9) if r.random() < .06 else 0)
        q = not all(chr(c).isalnum() or c in b"-_.'+" for c in bd) or r.random() < .25
        ct = r.choice([b"multipart/form-data", b"multipart/mixed"]) + r.choice([b"; ", b"; ", b";", b"; charset=utf-8; "]) + b"boundary=" + (b"\"" + bd + b"\"" if q else bd) + r.choice([b"", b"", b"", b"; charset=x"])
        k = r.random()
        if k < .1: b = b[:r.randrange(len(b))]
        elif k < .17:
            i = r.randrange(len(b)); b = b[:i] + r.choice([b"\r\n", b"--", b"\"", b";", b"--" + bd, b"\n"]) + b[i + r.randrange(3):]
        elif k < .2: ct = r.choice([b"multipart/form-data", b"multipart/form-data; boundary=", b"multipart/", b"multipart/form-data; boundary=\"", b"xmultipart/y; boundary=z", b"multipart/form-data; Boundary=" + bd])
        return ct, b

    def form():
        k = r.random()
        me, qs, ct, cl, body = b"GET", b"", b"", b"", b""
        if k < .25: qs = urlenc()
        elif k < .45: me, body, ct = b"POST", urlenc(), r.choice([b"", b"application/x-www-form-urlencoded"])
        elif k < .95: me = b"POST"; ct, body = multipart()
        else: me, qs = r.choice([b"", b"HEAD", b"PUT"]), urlenc()
        if me == b"POST":
            n = len(body) if r.random() < .92 else r.choice([0, 1, len(body) + 1, max(0, len(body) - 1), 5000, 10 ** 8])
            cl = b"%d" % n if r.random() < .98 else r.choice([b"", b"abc", b"-1", b"99999999999999999999"])
            if r.random() < .1: body += b"trailing"
        env = []
        if r.random() < .3: env = [b"HTTP_COOKIE", r.choice([b"a=b; c=\"d\"", anyb(9).replace(b"\x00", b"")]), b"REMOTE_ADDR", b"1.2.3.4"]
        return "form %s %s %s %s %s %d %s %s" % (hexs(me), hexs(qs), hexs(ct), hexs(cl), hexs(body), r.choice([1 << 22] * 9 + [len(body), max(0, len(body) - 1)]), ",".join(hexs(x) for x in env) or ",", hexs(r.choice([b"", b"out\xff\n\n"])))

    cases = [["deep 3000"]]
    for _ in range(ctx.scale(700, 16000)): cases.append([form() for _ in range(r.randrange(1, 4))])
    for b in [b"--B", b"--B\r\n", b"--B--", b"", b"--B\r\n\r\n--B--", b"--B\r\n--B--", b"--B\r\n\r\n\r\n--B--", b"--B\r\nA: b\r\n--B--", b"\r\n--B", b"--B\r\nA: b\r\n\r\nx", b"--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nx\r\n--", b"--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nx\r\n--BB\r\ny\r\n--B--", b"--B\r\nContent-Type: multipart/x\r\n\r\nz\r\n--B--"]:
        for ct in (b"multipart/form-data; boundary=B", b"multipart/form-data; boundary=\"B\"", b"multipart/form-data", b"multipart/form-data; boundary="):
            cases.append(["form %s - %s %s %s 4096 , -" % (hexs(b"POST"), hexs(ct), hexs(b"%d" % len(b)), hexs(b))])
    for _ in range(ctx.scale(60, 600)):
        v = [r.choice([b"A=b", b"A=", b"=x", b"nope", b"B=c=d", b"A=b", b"C=" + anyb(6).replace(b"\x00", b"")]) for _ in range(r.randrange(0, 6))]
        cases.append(["env " + (",".join(hexs(x) for x in v) or ",")])

    def request():
        k = r.random()
        qs = urlenc()
        if r.random() < .3: qs += (b"&" if qs else b"") + b"st=" + r.choice([b"404+Not+Found", b"204+x", b"", b"500", b"abc", b"200+OK", b"404", b"302+Gone++there", b"201+Created"])
        if r.random() < .25: qs += (b"&" if qs else b"") + b"y=" + r.choice([b"", b"v", b"a+b%3B+c=d", b"%22q%22", b"x" * 200])
        if r.random() < .25: qs += (b"&" if qs else b"") + b"loc=1"
        if r.random() < .2: qs = b""
        ok = lambda s: b"\r\n" not in s and all(33 <= c < 127 for c in s)
        if k < .45: return (b"GET" if r.random() < .8 else r.choice([b"HEAD", b"PUT", b"DELETE", b"OPTIONS", b"get", b"M-SEARCH"])) + b" /cgi/x" + (b"?" + qs if qs and ok(qs) else b"") + b" HTTP/1.1\r\nHost: h\r\nCookie: a=b\r\n\r\n"
        ct, b = (b"application/x-www-form-urlencoded", qs) if k < .7 else multipart()
        if len(b) > 900: b = b"a=b"; ct = b""
        n = len(b) if r.random() < .9 else r.choice([0, len(b) + 3, 6000])
        m = b"POST /p HTTP/1.1\r\nContent-Length: %d\r\nContent-Type: " % n + ct + b"\r\n\r\n" + b
        if r.random() < .1: m = m[:r.randrange(len(m) + 1)]
        if r.random() < .05: m = r.choice([b"", b"\r\n", b"junk\r\n\r\n", b"GET / HTTP/1.1\r\nA"])
        return m
    for _ in range(ctx.scale(300 if serve else 150, 4000)):
        q = [request() for _ in range(r.randrange(1, 5))]
        cases.append(["serve %s %s %s %d" % (",".join(hexs(x) for x in q), hexs(r.choice([b"", b"hello\xff\r\n\r\n", b"x" * 300])), r.choice(["-", "1", "3,1", "50"]), r.choice([0, 10]))])
    if serve: cases = [c for c in cases if c[0].startswith("serve")]
    r.shuffle(cases)
    seq.check(ctx, "cgi", "Cgi_T", cases, srcs=CGI, chunk=4000)
    ctx.assumptions += ["texts that are not percent-coding, multipart bodies, content types or dispositions outside their grammar (or with quotes or backslashes inside quoted names) have no prescribed decoding: only that the program survives"]
