"""Scenarios from behaviours that TLC generates from the specifications."""
import json, re
import gen, vlib
from gen import Scenarios

class ModelError(vlib.CheckError):
    pass

def tests(scratch, spec, cfg, simulate=None, seed=1, limit=None, timeout=300, env=None):
    """The test histories a generator specification prints; returns (list, states)."""
    rc, st, out, t = vlib.model_check(scratch, spec, cfg, workers=1, simulate=simulate, seed=seed if simulate else None, timeout=timeout, env=env)
    if rc != 0:
        raise ModelError("TLC failed on %s %s:\n%s" % (spec, cfg, out[-2000:]))
    res, seen = [], set()
    for m in re.finditer(r'<<"TEST", "(.*)">>', out):
        s = m.group(1)
        if s not in seen:
            seen.add(s)
            res.append(json.loads(s.replace('\\"', '"')))
    if limit and len(res) > limit:
        import random
        random.Random(seed).shuffle(res)
        res = res[:limit]
    return res, st

def play(S, s, ops):
    for o in ops:
        if o[0] == "r":
            S.add("read %s %d %d" % (s, o[1], o[2]))
        elif o[0] == "k":
            S.add("skip %s %d" % (s, o[1]))
        elif o[0] == "z":
            S.add("reset %s %d" % (s, o[1]))
    S.add("drain %s 1 0 100" % s)

def ideal(seed, tests, kinds, per=1):
    """Every history of the ideal stream, on streams of the given kinds."""
    S = Scenarios(seed)
    for i, t in enumerate(tests):
        for j in range(per):
            k = kinds[(i * per + j + i // len(kinds) + seed) % len(kinds)]
            S.new("tl-" + k)
            if k in ("reader", "enc"):
                d = bytes(S.r.randrange(32, 96) for _ in range(t["L"]))
            elif S.r.random() < .3:
                d = bytes(S.r.choice([7, 65, 255, 10]) for x in range(t["L"]))
            else:
                d = bytes(S.r.sample(range(256), t["L"]))
            gen.fixed_sut(S, k, d)
            play(S, "s", t["ops"])
            S.count("tl:" + k)
    return S

def buffered(seed, tests):
    """Behaviours of the buffered stream model, on the buffered stream template."""
    S = Scenarios(seed)
    for t in tests:
        S.new("tl-buffered")
        d = bytes(range(1, t["L"] + 1))
        wide = S.r.random() < .3
        if wide:
            d = b"".join(bytes([x, 0, 0, 0]) for x in d)
        b = S.blob(d)
        sched = ",".join(str(max(1, x)) for x in t["sched"]) or "1"
        S.add("src s %s %s mode=sched sched=%s minbuf=%d known=%d fault=%d" % ("wbuf" if wide else "tbuf", b, sched, t["buf"], t["known"], t["fault"]))
        f = t["fault"]
        e = d if f < 0 else d[:f * (4 if wide else 1)]
        gen.expect(S, "s", e, "buf", "clean" if f < 0 else "error", decl=t["L"] if t["known"] and f < 0 else -1)
        play(S, "s", t["ops"])
        S.count("tl:buffered")
    return S

UCH = {1: "aZ0\n", 2: "\u00e9\u0416\u05d0", 3: "\u20ac\u65e5", 4: "\U0001f600\U00010000"}
UBAD = {1: [b"\xff", b"\x80", b"\xf8"], 2: [b"\xc3A", b"\xc0\x80", b"\xc1\xbf"], 3: [b"\xe2\x82A", b"\xed\xa0\x80", b"\xe0\x80\x80"], 4: [b"\xf0\x9f\x98A", b"\xf0\x80\x80\x80"]}
def transcode(seed, tests):
    """Behaviours of the model of the converting streams: characters of every width, invalid ones, chunks that end inside them, and
    converters that hold characters back."""
    import unicodedata
    S = Scenarios(seed)
    r = S.r
    for t in tests:
        S.new("tl-conv")
        raw, txt, ok = b"", "", True
        enc = "CP1258" if t["hold"] else "UTF-8"
        if not t["hold"] and t["chars"] and all(c["w"] in (2, 4) for c in t["chars"]):
            enc = r.choice(["UTF-8", "UTF-16BE", "UTF-16LE"])
        for c in t["chars"]:
            if t["hold"]:
                ch = r.choice("\u0300\u0301\u0323") if c["mark"] else r.choice("aeqoz1")
                b = bytes([r.choice([0x8a, 0x8d, 0x90])]) if c["y"] < 0 else ch.encode("cp1258")
            elif enc == "UTF-8":
                ch = r.choice(UCH[c["w"]])
                b = r.choice(UBAD[c["w"]]) if c["y"] < 0 else ch.encode()
            else:
                ch = r.choice(UCH[c["w"]])
                b = ch.encode(enc)
                if c["y"] < 0:
                    b = ("\udc00" if c["w"] == 2 else "\ud800A").encode(enc, "surrogatepass")
            if len(raw) + len(b) > t["cut"] or c["y"] < 0:
                ok = ok and len(raw) >= t["cut"]
            elif ok:
                txt += ch
            raw += b
        if t["hold"]:
            txt = unicodedata.normalize("NFC", txt) if all(a not in "\u0300\u0301\u0323" or b not in "\u0300\u0301\u0323" for a, b in zip(txt, txt[1:])) else None
            if txt is None:
                continue
        sched = list(t["sched"]) or [1]
        f = 0
        if r.random() < .6:       # the output buffer is nearly full
            f = r.randint(240, 262)
            fill = ("%03d-" * 66 % tuple(range(66)))[:f]
            raw, txt = fill.encode(enc) + raw, fill + txt
            f = len(fill.encode(enc))
            sched = [f] + sched
        end = "error" if t["fault"] or not ok else "clean"
        b = S.blob(raw if t["fault"] else raw[:f + t["cut"]])
        S.add("src p tbuf %s mode=sched sched=%s minbuf=1 known=0 fault=%d" % (b, ",".join(map(str, sched)), f + t["cut"] if t["fault"] else -1))
        if r.random() < .5:
            S.add("flt s reader p enc=" + enc)
            out, k = txt.encode("utf-32-le"), "reader"
            n = len(txt)
        else:
            o = r.choice(["UTF-8", "UTF-16LE", "UTF-32LE"])
            S.add("flt s enc p in=%s out=%s" % (enc, o))
            out, k = txt.encode(o), "enc"
            n = len(out)
        gen.expect(S, "s", out, k, end)
        if f:
            S.add("read s %d 0" % max(1, n - 2 * len(t["chars"]) - r.randint(0, 12)))
        for _ in range(r.randint(0, 4)):
            m = r.choice([1, 1, 2, r.randint(1, n + 3), max(1, n - 5)])
            S.add("read s %d %d" % (m, r.choice([0, m, m + 3])))
            if r.random() < .3:
                S.add("reset s %d" % r.randint(0, n))
        S.add("drain s 1 0 400")
        S.count("tl:conv:" + ("hold" if t["hold"] else enc))
    return S
