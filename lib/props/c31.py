import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Xhtml_A.tla", "Xhtml_A.cfg")
    r = seq.rng(ctx)
    cases = []
    names = [b"a", b"div", b"h1", b"x-y", b"n:s", b"_"]
    frags = [b"a", b" ", b"<", b">", b"&", b'"', b"'", b"&amp;", b"&lt;", b"]]>", b"\n", b"\t", b"/", b"=", b";", b"#", b"\x00", b"\xff", b"\xe3\x81\x82", b"-->", b"<b>", b"</a>", b"&#60;", b"&#x3c;", b"&quot;", b"&copy;", b"javascript:"]

    def text(): return b"".join(r.choice(frags) for _ in range(r.choice([0, 1, 1, 2, 4])))

    def attrs():
        ks = r.sample([b"href", b"id", b"x", b"a-b", b"zz"], r.choice([0, 0, 1, 1, 2, 4]))
        return "".join(" %s %s" % (hexs(k), hexs(text())) for k in ks)

    def kids(d, out):
        for _ in range(r.choice([0, 1, 1, 2, 4] if d else [1, 1, 2])):
            k = r.random()
            if k < .4: out.append("t " + hexs(text()))
            elif k < .48: out.append("p " + hexs(r.choice([b"<br/>", b"<i a='1'>x</i>", b"&lt;", b"plain", b""])))
            elif k < .54: out.append("d")
            elif d < 5: out.append("o " + hexs(r.choice(names)) + attrs()); kids(d + 1, out); out.append("c")
    for n in range(0, 4):
        for x in itertools.product(b"a<&>\"'", repeat=n):
            t = hexs(bytes(x))
            cases.append(["esc " + t, "o 61 62 " + t, "t " + t, "c", r.choice(["render", "build"])])
    for c in range(256): cases.append(["esc %02x" % c, "o 61 62 %02x" % c, "t %02x" % c, "c", "render"])
    for _ in range(ctx.scale(2500, 40000)):
        o = []; kids(0, o)
        cases.append(o + [r.choice(["render", "build"])])
    # long texts and attribute values
    for n in (9, 16, 31, 32, 33, 64, 65, 127, 128, 255, 256, 300):
        for _ in range(ctx.scale(2, 10)):
            t = b""
            while len(t) < n: t += r.choice(frags)
            t = t[-n:]
            cases.append(["esc " + hexs(t), "o 61 62 " + hexs(t), "t " + hexs(t), "c", r.choice(["render", "build"])])
    # many sibling elements at one place, told apart by name and text
    for _ in range(ctx.scale(60, 600)):
        o = ["o 61"] * r.randrange(3); d = len(o)
        for i in range(r.randrange(3, 12)):
            o.append("o " + hexs(r.choice(names)) + " 6964 " + hexs(b"%d" % i))
            o += ["t " + hexs(b"%d" % i)] * r.randrange(3) + (["o 62", "t 63", "c"] * r.randrange(3))
            o.append("c")
            if r.random() < .3: o.append("t " + hexs(text()))
        cases.append(o + ["c"] * d + [r.choice(["build", "build", "render"])])
    # deep and wide
    for n in (30, 120):
        cases.append(["o 61"] * n + ["t 62"] + ["c"] * n + ["build"])
        cases.append(["o 61"] + ["t 3c", "o 62", "c"] * n + ["c", "render"])
    for _ in range(300): cases.append(["esc " + hexs(bytes(r.randrange(256) for _ in range(20)))])
    seq.check(ctx, "xhtml", "Xhtml_T", cases, srcs=["text/xhtml.cpp", "network/cgi/xhtml_builder.cpp", "network/cgi/inserter.cpp"])
