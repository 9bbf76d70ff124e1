import itertools, sys
import seq
from vf import hexs
from props import jgen


def run(ctx):
    ctx.model_check("JsonText_A.tla", "JsonText_A.cfg")
    r = seq.rng(ctx)
    cmds = []

    def P(t): cmds.append("parse %d %s" % (r.choice([1, 2, 3, 1000]), hexs(t)))
    # every short text over the structural alphabet
    al = [b"[", b"]", b"{", b"}", b",", b":", b'"', b"1", b" ", b"null", b"-", b".", b"e"]
    for n in range(1, 4):
        for x in itertools.product(al, repeat=n): P(b"".join(x))
    short = [b"".join(x) for n in (4, 5, 6) for x in [[r.choice(al) for _ in range(n)] for _ in range(ctx.scale(1500, 20000))]]
    for x in short: P(x)
    # numbers at the end of the stream and before every delimiter
    for m in ["0", "1", "12", "-3", "-0", "1.5", "1.25", "1e5", "1E5", "2e+3", "2e-3", "1.5e3", "1.5e10", "0.1", "-0.5e-7", "1e05", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809"]:
        for d in ["", " ", "\n", ",", "]", "[1", "\"a\"", "-1", "true"]:
            P((m + d).encode()); P(("[" + m + d).encode()); P(("[" + m + "]").encode())
    for b in range(256): P(b'"' + bytes([b]) + b'"'); P(b'"\\' + bytes([b]) + b'"'); P(bytes([b])); P(b"[1" + bytes([b]) + b"2]")
    for h in ["0000", "001f", "0041", "007f", "0080", "07FF", "0800", "d7ff", "d800", "dbff", "dc00", "dfff", "e000", "fffD", "ffff", "12g4", "12"]:
        for t in ["", "\\u0041", "\\udc00", "\\uDFFF", "\\ud800", "\\udbff", "\\ue000", "\\u0000", "\\udc0", "\\\\udc00", "x", "\\n"]: P(('"\\u%s%s"' % (h, t)).encode())
    for _ in range(ctx.scale(3500, 60000)): P(jgen.text(r, 3, r.choice([0, 0, .03, .1])))
    # nested deeper than anything random, with names on every level
    for n in (15, 30, 45, 60):
        o = lambda i: "{\"k%d\":" % i + "%s" + (",\"z%d\":[%d]" % (i, i) if i % 3 else "") + "}"
        a = lambda i: "[%s" + ("" if i % 2 else ",%d" % i) + "]"
        for f in (lambda i: o(i), lambda i: a(i), lambda i: (o, a)[i % 2](i)):
            t = "1"
            for i in range(n): t = f(i) % t
            P(t.encode()); P(t[:-1].encode()); P(t.replace("1]", "1", 1).encode())
    # characters that only look like structure, blanks or digits in their low byte
    for t in [b'[1,2]', b' [ 1 ] ', b'{"a":1}', b'true', b'null', b'false', b'"x"', b'-12', b'1.5e3', b'[true]', b'1 2', b'"\\u0041"', b'{"a" : "b" , "c":[]}', b'"\\n"']:
        for i in range(len(t) + 1):
            for hi in (0x100, 0x2000, 0x1f600 - 0x1f600 % 256):
                if i < len(t): P(t[:i] + chr(hi + t[i]).encode("utf8") + t[i + 1:])
                P(t[:i] + chr(hi + r.choice(b" \t\n019,:]}e.")).encode("utf8") + t[i:])
    # strings of every length around the parser's buffer sizes
    for n in list(range(236, 262)) + list(range(500, 518)):
        P(b'"' + b"a" * n + "\u3042\U0001f600".encode() + b'"')
        P(b'{"' + b"k" * n + b'":"' + b"v" * (n + 3) + b'"}')
    for b in range(256):
        cmds.append("round s%s" % hexs(bytes([97, b, 98])) if b < 128 else "print s%s" % hexs(bytes([97, b, 98])))
    for _ in range(ctx.scale(3000, 40000)):
        v = r.random() < .7
        cmds.append("%s %s" % ("round" if v else "print", jgen.val(r, 4, v)))
    r.shuffle(cmds)
    cases = [cmds[i:i + 8] for i in range(0, len(cmds), 8)]
    seq.check(ctx, "jsontext", "JsonText_T", cases, srcs=["text/json/parser.cpp", "data/string/ustring.cpp"])
