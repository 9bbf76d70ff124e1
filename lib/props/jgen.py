"""Random JSON values (as driver words) and JSON-like texts."""
from vf import hexs


def uni(r, valid=True):
    k = r.random()
    if k < .35: return bytes([r.choice(b"ab/\"\\ \x7f0")])
    if k < .5: return bytes([r.choice([0, 1, 8, 9, 10, 12, 13, 31, 127])])
    if k < .55 and not valid: return bytes([r.choice([0x80, 0xc0, 0xff, 0xe3, 0xed, 0xf4, 0xf8])])
    c = r.choice([0x80, 0xff, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600, r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000)])
    return chr(c).encode("utf8")


def s(r, n=6, valid=True):
    return b"".join(uni(r, valid) for _ in range(r.randrange(n)))


def flt(r, nd=12):
    d = "".join(r.choice("0123456789") for _ in range(r.randrange(nd)))
    m = r.choice("123456789") + d
    return "%s%s.%se%d" % (r.choice(["", "-"]), m[0], m[1:] or "0", r.choice([0, 0, 0, 1, 2, 5, 11, 12, -1, -4, -5, -6, 20, -20, 99, -99, 250, -250]))


I64 = [0, 1, -1, 9, 10, 255, 2**31 - 1, -2**31, 2**31, 2**63 - 1, -2**63, 10**18, -10**18, 123456789012]


def val(r, depth=3, valid=True, flts=True, n=4, keys=None):
    k = r.random()
    if depth and k < .4:
        m = r.randrange(n)
        if r.random() < .5:
            return " ".join(["a%d" % m] + [val(r, depth - 1, valid, flts, n, keys) for _ in range(m)])
        ks = []
        while len(ks) < m:
            x = r.choice(keys) if keys else s(r, 4, True)
            if x not in ks or (keys is None and r.random() < .1): ks.append(x)
        return " ".join(["o%d" % m] + ["k%s %s" % (hexs(x), val(r, depth - 1, valid, flts, n, keys)) for x in ks])
    k = r.random()
    if k < .1: return "n"
    if k < .25: return r.choice("tf")
    if k < .5: return "i%d" % r.choice(I64 + [r.randrange(-1000, 1000), r.randrange(-2**63, 2**63)])
    if k < .65 and flts: return "d" + flt(r)
    return "s" + hexs(s(r, 6, valid))


def text(r, depth=3, bad=.0):
    """JSON text as bytes; with probability bad per token something off."""
    def ws(): return bytes(r.choice(b" \t\n\r") for _ in range(r.choice([0, 0, 0, 1, 2])))
    def st():
        o = b'"'
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.random()
            if k < .4:
                x = uni(r)
                o += x if x[0] >= 32 and x not in b'"\\' else b"\\u%04x" % x[0] if len(x) == 1 else x
            elif k < .6: o += b"\\" + bytes([r.choice(b'"\\/bfnrt')])
            elif k < .75: o += (b"\\u%04" + r.choice([b"x", b"X"])) % r.choice([0, 1, 0x1f, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xabcd])
            elif k < .85:
                c = r.choice([0x10000, 0x10ffff, 0x1f600, 0x103ff, 0x10400]) - 0x10000
                o += b"\\u%04x\\u%04X" % (0xd800 + c // 1024, 0xdc00 + c % 1024)
            elif r.random() < bad * 4:
                o += r.choice([b"\\x", b"\\u12", b"\\ud800", b"\\udc00", b"\\ud800\\u0041", b"\\ud800\\ud800", b"\x01", b"\xff", b"\xe3\x81", b"\xc0\x80", b"\\u00g0", b"\n", b"\\"])
        return o + (b'"' if r.random() >= bad else b"")
    def nu():
        x = r.choice(["0", "-0", "7", "10", "-12", str(r.choice(I64)), str(r.choice(I64)), "9223372036854775808", "-9223372036854775809", "1" * 25])
        if r.random() < .5:
            x = r.choice(["0", "-0", "7", "12", "-305"])
            if r.random() < .7: x += "." + "".join(r.choice("0123459") for _ in range(r.choice([1, 1, 2, 5, 9])))
            if r.random() < .6: x += r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["0", "1", "5", "03", "12", "99", "250", "400"])
        if r.random() < bad: x += r.choice([".", "e", "a", "-", "e+", ".e1"])
        if r.random() < bad: x = r.choice(["", "0", "-", "+", "."]) + x
        return x.encode()
    def v(d):
        k = r.random()
        if d and k < .45:
            m = r.randrange(4)
            sep = ws() + (b"," if r.random() >= bad else r.choice([b"", b",,", b";"])) + ws()
            if r.random() < .5:
                o = b"[" + ws() + sep.join(v(d - 1) for _ in range(m)) + ws()
                if r.random() < bad: o += b","
                return o + (b"]" if r.random() >= bad else r.choice([b"", b"}"]))
            o = b"{" + ws() + sep.join((st() if r.random() >= bad else b"a") + ws() + (b":" if r.random() >= bad else b"=") + ws() + v(d - 1) for _ in range(m)) + ws()
            if r.random() < bad: o += b","
            return o + (b"}" if r.random() >= bad else r.choice([b"", b"]"]))
        k = r.random()
        if k < .3: return nu()
        if k < .7: return st()
        x = r.choice([b"true", b"false", b"null"])
        if r.random() < bad: x = r.choice([x[:-1], x.upper(), x[1:], b"nul1", b"\xef\xbb\xbf"])
        return x
    o = b""
    for i in range(r.choice([1, 1, 1, 2, 3])):
        o += ws() + v(depth) + (r.choice([b" ", b"\n"]) if r.random() < .9 else b"")
    if r.random() < bad: o = o[:r.randrange(len(o) + 1)]
    return o
