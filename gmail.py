"""Mail headers as text: folding and encoded words."""
import base64
import gen
from gen import Scenarios, hx

FIELDS = ["Subject", "From", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References"]
def qword(r, b):
    return "".join("_" if c == 32 else chr(c) if chr(c).isalnum() and c < 128 and r.random() < .8 else r.choice(["=%02X", "=%02x"]) % c for c in b)

def word(r):
    cs = r.choice(["utf-8", "UTF-8", "Utf-8", "iso-8859-1", "ISO-8859-1"] * 2 + ["windows-1255", "Windows-1258"])
    n = r.choice([1, 1, 2, 2, 3, 4, r.choice([10, 40])])
    t = "".join(r.choice("a?= _\u00e9\u00ff\u0080Zz9") for _ in range(n))
    if cs.lower() == "utf-8":
        t = "".join(r.choice([c, c, "\u20ac", "\U0001f600"]) for c in t)
    if "windows" in cs.lower():
        t = "".join(r.choice("a?= Z9" + ("\u05d0\u05d9\u05ea" if cs[-1] == "5" else "eou")) for _ in range(n))
    b = t.encode(cs)
    if r.random() < .06:
        b = bytes(r.randrange(256) for _ in range(n))
    if r.random() < .5:
        w = "=?%s?%s?%s?=" % (cs, r.choice("bB"), base64.b64encode(b).decode())
    else:
        w = "=?%s?%s?%s?=" % (cs, r.choice("qQ"), qword(r, b))
    z = r.random()
    if z < .05:       # nearly a word
        w = r.choice([w[:-1], w[:-2], w[1:], w.replace("?b?", "?x?").replace("?q?", "?w?"), w.replace("utf-8", ""), w[:r.randint(0, len(w))]])
    return w

def value(r, nl):
    out, k = "", r.choice([0, 1, 1, 2, 3, 5])
    for _ in range(k):
        out += word(r) if r.random() < .55 else r.choice(["a", "Re:", "x=y", "=?", "?=", "b@c.d", "<q>", "=", "?", "text " * 3])
        out += r.choice([" ", " ", "", nl + " ", nl + "\t", "  ", nl + "  ", "\t", " " + nl + " "])
    while out.rstrip(" \t") != out and out.rstrip(" \t").endswith("\n"):
        out = out.rstrip(" \t").rstrip("\r\n")
    return out

def header(r, body=True):
    nl = r.choice(["\r\n", "\r\n", "\n"])
    out = b""
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        n = r.choice(FIELDS + ["Subject"] * 4 + ["X-To", "Subjects", "Date", "Content-Type"])
        n = r.choice([n, n, n.lower(), n.upper()])
        out += (n + ":" + r.choice([" ", " ", "", "  ", "\t", nl + " "]) + value(r, nl)).encode() + nl.encode()
    return out + nl.encode() + (b"body" if body else b"")

def mailtext(seed, n, tests=()):
    S = Scenarios(seed)
    r = S.r
    for t in (r.sample(tests, min(len(tests), n)) if tests else ()):
        S.new("mt-tlc")
        d = b"Subject:" + bytes(t["t"]) + b"\r\n\r\nb"
        S.add("src s string %s" % S.blob(d), "mailtext s " + hx(d))
        S.count("mailtext:tlc")
    for i in range(n):
        S.new("mt")
        d = header(r)
        if r.random() < .08:      # stops anywhere
            d = d[:r.randint(0, len(d))]
        gen.source(S, "s", d)
        S.add("mailtext s " + hx(d))
        S.count("mailtext")
    return S
