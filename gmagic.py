"""Recognition of formats: first bytes of streams, complete, cut short, damaged and made up."""
import struct
import gen, garch
from gen import Scenarios

H = {"zip": b"PK\3\4\x14\0\0\0\0\0", "ar": b"!<arch>\n", "cpio": b"070701", "rpm": b"\xed\xab\xee\xdb\x03\x00",
     "ole": b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1\0", "gzip": b"\x1f\x8b\x08", "bz2": b"BZh91AY&SY", "bz2e": b"BZh1\x17\x72\x45\x38\x50\x90"}

def hx(b):
    return b.hex() or "-"

def mailish(r):
    """text around what distinguishes a mail"""
    out = b""
    for _ in range(r.randint(1, 6)):
        z = r.random()
        if z < .6:
            nm = bytes(r.choice(b"abcXYZ-_!~09") for _ in range(r.randint(0 if r.random() < .2 else 1, 8)))
            out += nm + r.choice([b":", b":", b":", b": ", b"", b" :"]) + bytes(r.choice(b"text value:;=?\t ") for _ in range(r.randint(0, 12)))
        elif z < .8:
            out += r.choice([b" ", b"\t"]) + bytes(r.choice(b"folded: ") for _ in range(r.randint(0, 8)))
        out += r.choice([b"\r\n"] * 6 + [b"\n", b"\r", b"\r\r\n", b"\r\n\r\n", b""])
    if r.random() < .35 and out:
        q = bytearray(out); i = r.randrange(len(q)); q[i] = r.choice([0, 9, 10, 13, 31, 32, 58, 127, 128, 200, 255]); out = bytes(q)
    return out[:r.randint(0, len(out))] if r.random() < .3 else out

def sdfish(r):
    out = b""
    for i in range(r.choice([3, 4, 4, 4, 4, 5])):
        n = r.choice([0, 0, 1, 3, 20, 74, 75, 76, 79, 80, 80, 81, 82])
        l = bytes(r.choice(b"abc V2000") for _ in range(n))
        if i == 3 and r.random() < .85 and n >= 5:
            k = r.choice([0, n - 5, r.randint(0, n - 5)]); l = l[:k] + b"V2000" + l[k + 5:]
        elif r.random() < .2 and n >= 5:
            l = b"V2000" + l[5:]
        out += l + r.choice([b"\n", b"\n", b"\r", b"\r\n", b"\r\n"])
    out += bytes(r.choice(b"xyz\n") for _ in range(r.choice([0, 0, 1, 2, 30])))
    return out

def lzmaish(r):
    d = r.choice([0, 1, 4095, 4096, 4097, 65536, 1 << 23, 0x2000000, 0x2000001, 0x1ffffff, 0x80000000, 0xffffffff, r.randrange(1 << 32)]) & ~(0xff if r.random() < .9 else 0)
    s = r.choice([-1, -1, 0, 1, 4096, 4097, d, d + 1, max(0, d - 1), (1 << 40) - 1, 1 << 40, (1 << 40) + 1, 1 << 62, -2, -(1 << 63), r.randrange(1 << 41)])
    return bytes([r.choice([0x5d] * 9 + [0x5e])]) + struct.pack("<I", d) + struct.pack("<q", s if s < 1 << 63 else -1) + bytes(r.randint(0, 3))

def tarish(r):
    h = bytearray(garch.tar_header(bytes(r.choice(b"abc/") for _ in range(r.choice([1, 5, 99, 100]))), r.randrange(5000), r.randrange(1 << 30), b"0", r, r.choice(["gnu", "ustar"])))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        i = r.choice([0, 1, 50, 98, 99, 100, 107, 107, 115, 123, 135, 147, 148, 155, 156, 255, 256, 256, r.randrange(257)])
        h[i] = r.choice([0, 0, 32, 1, 48, 255])
    if r.random() < .1:
        h[r.choice([0, 100]):r.choice([156, 256])] = b""; h += bytes(512)
    if r.random() < .05:
        h[100:256] = bytes(156)
        if r.random() < .6:
            h[r.choice([100, 101, 108, 200, 254, 255])] = 1
    return bytes(h)

def magic(seed, n, tests=()):
    S = Scenarios(seed)
    r = S.r
    for i, t in enumerate(tests):
        if i % 200 == 0:
            S.new("mg-mail")
        S.add("magic " + hx(bytes(t["t"])))
        S.count("magic:tlc")
    for i in range(n):
        if i % 20 == 0:
            S.new("mg")
        k = r.choice(["head", "head", "mail", "mail", "sdf", "lzma", "tar", "tar", "own", "own", "rand"])
        if k == "head":
            d = r.choice(list(H.values())) + r.randbytes(r.choice([0, 0, 1, 5, 300]))
            if r.random() < .5:
                d = d[:r.randint(0, 13)]
            if r.random() < .5 and d:
                q = bytearray(d); j = r.randrange(min(12, len(q))); q[j] = r.choice([q[j] ^ 1 << r.randrange(8), 0, 0x30, 0x31, 0x68]); d = bytes(q)
        elif k == "mail":
            d = mailish(r)
        elif k == "sdf":
            d = sdfish(r)
            if r.random() < .3:
                d = d[:r.randint(0, len(d))]
        elif k == "lzma":
            d = lzmaish(r)
            if r.random() < .1:
                d = d[:r.choice([12, 13, 5])]
        elif k == "tar":
            d = tarish(r)
            d = d[:r.choice([257, 257, 256, 258, 512, 255, r.randint(0, 300)])]
        elif k == "rand":
            d = r.choice([r.randbytes(r.randint(0, 300)), bytes(r.randint(0, 300)), b" " * r.randint(0, 300)])
        else:
            f = r.choice(list(garch.MAKE))
            a = garch.MAKE[f](r)
            m = min(len(a.data), r.choice([600, 1024]))
            whole = f in ("tar", "zip", "ar", "cpio", "rpm", "ole") and m >= 512 and len(a.ms) > 0
            S.add("magicb %s %d fmt=%s whole=%d" % (S.blob(a.data[:1024]), m, f, whole))
            S.count("magic:%s%s" % (f, ":whole" if whole else ""))
            continue
        S.add("magic " + hx(d))
        S.count("magic:" + k)
    return S

def clean_sniff(k, d):
    """the first bytes of this archive select its reader"""
    if k == "zip":
        return d[:4] == b"PK\3\4" and len(d) > 8
    if k == "mail":
        return max(d, default=0) < 128 and len(d) > 0
    return any(x in d[:d.find(b":") if b":" in d else len(d)] for x in b"\n\r ") and len(d) < 1000

def sniff(seed, n):
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        S.new("sniff")
        z = r.random()
        if z < .45:
            k = r.choice(["mail", "zip", "sdf"])
            for _ in range(20):
                a = garch.MAKE[k](r)
                if clean_sniff(k, a.data):
                    break
            else:
                continue
            if len(a.data) > 4096:
                d = a.data[:4096]
            else:
                d = a.data
        elif z < .6:
            d = r.choice(list(garch.MAKE.values()))(r).data[:r.choice([1, 2, 3, 4, 10, 600, 3000])]
        elif z < .75:
            d = mailish(r)
        elif z < .9:
            d = sdfish(r)
        else:
            d = r.choice([b"", b"a", b"PK\3", r.randbytes(r.randint(0, 2000)), bytes(r.choice(b"abc \n") for _ in range(r.choice([1000, 1024, 1500]))) + r.choice([b"", b"\xff", b"x\x80y"])])
        p0 = r.choice([0, 0, 1, 7, 700])
        pre = r.randbytes(p0)
        gen.source(S, "s", pre + d)
        if p0:
            S.add("read s %d %d" % (p0, p0) if r.random() < .5 else "skip s %d" % p0)
        S.add("sniff s %s %d" % (S.blob(pre + d), p0))
        S.count("sniff")
    return S

def sniffed(seed, n):
    """the reader that was selected reads the whole archive"""
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        k = r.choice(["mail", "zip", "sdf"])
        for _ in range(20):
            a = garch.MAKE[k](r)
            if clean_sniff(k, a.data):
                break
        else:
            continue
        S.new("sniffed-" + k)
        gen.source(S, "s", a.data)
        S.add("prov p sniff s")
        garch.pexp(S, a)
        if a.hdr is not None:
            S.add("mailhdr p")
        garch.iterate(S, a, k)
        S.add("pfin p")
        S.count("sniffed:" + k)
    return S
