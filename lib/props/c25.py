import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("UStr_A.tla", "UStr_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    byt = [0x00, 0x09, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbd, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]
    B = lambda t, ops=("dec", "chk", "san", "strict", "first"): cmds.extend("%s %s" % (o, hexs(t)) for o in ops)
    for n in range(0, 3):
        for x in itertools.product(byt, repeat=n): B(bytes(x))
    for x in itertools.product(byt, repeat=3):
        if r.random() < ctx.scale(.12, 1): B(bytes(x), [r.choice(["dec", "chk", "san", "strict", "first"])])
    for c in range(256): B(bytes([c])); B(bytes([c, 0x41])); B(bytes([0xe3, c, 0x82])); B(bytes([0xe3, 0x81, c])); B(bytes([0xf0, c, 0x80, 0x80])); B(bytes([0xf4, c, 0x80, 0x80])); B(bytes([0xed, c, 0x80])); B(bytes([0xe0, c, 0x80]))
    cps = [0, 1, 9, 31, 32, 65, 127, 128, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x100000, 0x10fffd, 0x10ffff, 0x3042, 0xff76]

    def cp():
        while True:
            c = r.choice(cps) if r.random() < .6 else r.randrange(1 << r.choice([7, 11, 16, 20, 21]))
            if c < 0x110000 and not 0xd800 <= c < 0xe000: return c

    def raw(v, n):   # an n-byte encoding form of v, possibly overlong or out of range
        if n == 1: return bytes([v & 127])
        out = []
        for _ in range(n - 1): out.append(0x80 | v & 63); v >>= 6
        lead = {2: 0xc0, 3: 0xe0, 4: 0xf0, 5: 0xf8, 6: 0xfc}[n]
        return bytes([(lead | v & ((1 << (7 - n)) - 1))] + out[::-1])
    for _ in range(ctx.scale(6000, 100000)):
        t = b""
        for _ in range(r.choice([1, 1, 2, 3, 8])):
            k = r.random()
            if k < .5: t += chr(cp()).encode("utf-8")
            elif k < .75: t += raw(r.choice([0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x3ffffff]), r.randrange(2, 7))
            elif k < .9:
                x = raw(r.randrange(1 << 21), r.randrange(2, 7)); t += x[:r.randrange(1, len(x) + 1)]
            else: t += bytes([r.randrange(256)])
        B(t, [r.choice(["dec", "dec", "chk", "san", "strict", "first", "in"])])
    for _ in range(ctx.scale(500, 5000)):
        B(b"".join(r.choice([b" ", b"\t\n", chr(cp()).encode(), b"\xff"]) for _ in range(r.randrange(8))), ["in"])
    U = lambda op, u: cmds.append(op + "".join(" %d" % c for c in u))
    for _ in range(ctx.scale(1500, 30000)): U("enc", [cp() for _ in range(r.choice([0, 1, 1, 2, 5]))])
    for c in cps: U("enc", [c])
    kana = list(range(0xff60, 0xffa0)) + list(range(0x30a0, 0x3100)) + [0x2d, 0x41, 0x3042, 0x4e00, 0x80, 0x7f, 0, 0x10000]
    for c in kana:
        for m in (0xff9e, 0xff9f, 0x2d, 0xff76): U("wide", [c, m])
        U("wide", [c]); U("wide", [0x30ab, c]); U("wide", [0xff8a, c, 0xff9f, 0xff9e])
    for _ in range(ctx.scale(2500, 40000)): U("wide", [r.choice(kana + [0xff9e] * 30 + [0xff9f] * 30 + [0x2d] * 20) for _ in range(r.choice([0, 2, 3, 6, 15]))])
    lat = [0, 0x1f, 0x20, 0x21, 0x41, 0x7e, 0x7f, 0x80, 0x2fff, 0x3000, 0x3001, 0xff00, 0xff01, 0xff21, 0xff5e, 0xff5f]
    for n in range(0, 3):
        for x in itertools.product(lat, repeat=n): U("lat", x)
    cl = set()
    for e in (0, 48, 57, 65, 90, 97, 122, 127, 128, 256 + 65, 65536 + 65, 0x3040, 0x309f, 0x30a0, 0x30ff, 0x4e00, 0x9fff, 0xff60, 0xff9f, 0xff01, 0xff5e, 0x3000, 0x10ffff): cl.update((max(0, e - 1), e, e + 1))
    cl.update(range(300)); cl.update(r.randrange(0x11000) for _ in range(300))
    for c in cl: U("cls", [c])
    cmds = [c.strip() for c in cmds]
    r.shuffle(cmds)
    seq.check(ctx, "ustr", "UStr_T", [cmds[i:i + 20] for i in range(0, len(cmds), 20)], srcs=["data/string/ustring.cpp"])
