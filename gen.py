"""Scenario generators (random, seeded). Behaviours generated by TLC are mapped to scenarios in tlcgen.py."""
import random, zlib, gzip, bz2, lzma, base64, io, os, struct

class Scenarios:
    """A list of scenarios; large blobs become files beside the scenario file."""
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.scns = []      # (id, [lines])
        self.files = {}     # relpath -> bytes
        self.cov = {}
    def new(self, sid):
        self.cur = []
        self.scns.append(("%s#%d" % (sid, len(self.scns)), self.cur))
        self.nb = 0
        return self
    def add(self, *lines):
        self.cur.extend(lines)
    def blob(self, data, name=None):
        if name is None:
            name = "b%d" % self.nb
            self.nb += 1
        if len(data) <= 4096:
            self.add("blob %s hex %s" % (name, bytes(data).hex()))
        else:
            import hashlib
            rel = "blob-" + hashlib.sha1(data).hexdigest()[:16]
            self.files[rel] = bytes(data)
            self.add("blob %s file %s" % (name, rel))
        return name
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

def fr(r, p):
    """a fault is injected with probability p, more often if the check asks for it"""
    return r.random() < min(.8, p * getattr(r, "fp", 1))

def hx(b):
    return bytes(b).hex() or "-"

# ---------------------------------------------------------------- content
_tables = {}
def rnd_bytes(r, n, alpha=256):
    d = r.randbytes(n)
    if alpha < 256:
        if alpha not in _tables:
            _tables[alpha] = bytes(b % alpha for b in range(256))
        d = d.translate(_tables[alpha])
    return d

def content(r, cls=None, alpha=None):
    cls = cls or r.choice(["tiny", "tiny", "small", "small", "mid", "mid", "big"])
    n = {"tiny": lambda: r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 12, 16, 24]),
         "small": lambda: r.randint(10, 300),
         "mid": lambda: r.choice([r.randint(300, 5000), 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097]),
         "big": lambda: r.choice([r.randint(5000, 80000), 65535, 65536, 65537]),
         "huge": lambda: r.choice([262143, 262144, 262145, 300000, 524288, 524289, 700001, 1048575, 1048576, 1048577, 1200000])}[cls]()
    alpha = alpha or r.choice([2, 4, 16, 256, 256, 256])
    if n > 20000:
        k = r.choice([1, 2])
        if k == 1:
            return rnd_bytes(r, n, alpha)
        unit = r.randbytes(r.randint(50, 3000))          # long but locally distinguishable: counter blocks
        out = bytearray()
        i = 0
        while len(out) < n:
            out += struct.pack("<I", i) + unit
            i += 1
        return bytes(out[:n])
    return rnd_bytes(r, n, alpha)

# ---------------------------------------------------------------- sources
def chunk_args(r, n, mode=None):
    mode = mode or r.choice(["min", "min", "rand", "rand", "max", "sched"])
    a = ["mode=" + mode, "seed=%d" % r.randrange(1 << 30)]
    if mode == "min":
        a.append("extra=%d" % r.choice([0, 0, 1, 2, 5, 100]))
    if mode == "rand":
        a.append("extra=%d" % r.choice([0, 3, 10, 1000]))
    if mode == "sched":
        a.append("sched=" + ",".join(str(r.choice([1, 1, 2, 3, 4, 5, 8, 13, 64, 511, 512, 513])) for _ in range(r.randint(1, 6))))
    for k in ("known", "eager", "gen"):
        a.append("%s=%d" % (k, r.random() < 0.5))
    return a

def source(S, name, data, fault=None, kinds=None, rewindable=False):
    """Creates a contract-abiding stream over data; returns its properties."""
    r = S.r
    b = S.blob(data)
    if len(data) > 300000 and kinds is None:
        kinds = ["string", "chunk", "chunk", "file"]
    kinds = kinds or ["chunk"] * 6 + ["string", "string", "tbuf", "file"]
    if fault is not None:
        kinds = [k for k in kinds if k in ("chunk", "tbuf")] or ["chunk"]
    if rewindable:
        kinds = [k for k in kinds if k in ("chunk", "string")] or ["string"]
    k = r.choice(kinds)
    if k == "chunk":
        mode = r.choice(["rand", "max"]) if len(data) > 100000 else None
        a = chunk_args(r, len(data), mode)
        if rewindable:
            a = [x for x in a if not x.startswith("gen=")] + ["gen=1"]
        if fault is not None:
            a = [x for x in a if not x.startswith("known=") and not x.startswith("eager=")] + ["fault=%d" % fault, "known=%d" % (r.random() < .5 and fault < len(data))]
        S.add("src %s chunk %s %s" % (name, b, " ".join(a)))
    elif k == "string":
        S.add("src %s string %s copy=%d" % (name, b, r.random() < .5))
    elif k == "tbuf":
        a = ["mode=%s" % r.choice(["max", "rand", "min"] if len(data) < 3000 else ["max", "rand"]), "seed=%d" % r.randrange(1 << 30), "minbuf=%d" % r.choice([0, 1, 2, 16, 100, 4096]),
             "known=%d" % (r.random() < .5 and (fault is None or fault < len(data)))]
        if fault is not None:
            a.append("fault=%d" % fault)
        S.add("src %s tbuf %s %s" % (name, b, " ".join(a)))
    else:
        S.add("src %s file %s hint=%s bufsize=%d" % (name, b, r.choice(["auto", "buffered", "mmap", "unbuffered", "ctor", "skip2"]), r.choice([1048576, 64, 1000, 4096])))
    S.count("src:" + k)
    return k, b

# ---------------------------------------------------------------- operations on one stream
def ops(S, s, L, n=None, finish=True, small=False):
    r = S.r
    n = n if n is not None else r.randint(3, 18)
    def amount():
        return r.choice([1, 1, 2, 3, r.randint(1, 10), r.randint(1, max(1, L)), max(1, L // 2), max(1, L), L + 1, L + r.randint(1, 50)])
    big = L > 100000
    for _ in range(n):
        k = r.random()
        if k < 0.50:
            mn = amount()
            if big and r.random() < .5:
                mn = r.choice([1, 100, 70000, 262144, 300000])
            z = r.random()
            mx = 0 if z < 0.3 else mn if z < 0.55 else mn + r.choice([1, 2, 5, 100, L]) if z < 0.85 else r.choice([max(0, mn - 1), 1, mn // 2, -1])
            S.add("read %s %d %d" % (s, mn, mx))
        elif k < 0.65:
            S.add("skip %s %d" % (s, r.choice([0, 1, 1, 2, amount(), amount(), L // 3, L + 5, 3000000000 if r.random() < .1 else 7])))
        elif k < 0.85:
            S.add("rel %s %d" % (s, r.choice([0, 0, 0, 1000, 500, r.randint(0, 1000)])))
        elif k < 0.93:
            S.add("back %s %d" % (s, r.choice([0, 1, 2, amount(), amount()])))
        else:
            S.add("reset %s %d" % (s, r.choice([0, 0, L, L + 1, r.randint(0, L + 2)])))
    if finish:
        mn = r.choice([1, 1, 7, 512, 4096, L + 1]) if not big else r.choice([50000, 262144, L + 1])
        S.add("drain %s %d %d 3000" % (s, mn, r.choice([0, 0, mn, mn + 3])))
        S.add("read %s 1 0" % s, "read %s %d %d" % (s, amount(), 0))
        if r.random() < .6:
            S.add("rel %s 0" % s)
            S.add("back %s %d" % (s, r.choice([0, 1, 3, amount()])))
            S.add("read %s %d 0" % (s, amount()))
            S.add("rel %s %d" % (s, r.choice([0, 500, 1000])), "skip %s %d" % (s, r.choice([1, L + 1])))
            S.add("drain %s 1 0 3000" % s if L < 3000 else "drain %s 60000 0 200" % s)

def expect(S, s, data, kind, end="clean", **kw):
    b = S.blob(data) if data is not None else None
    a = ["expect", s, "kind=" + kind, "end=" + end]
    if b:
        a.append("blob=" + b)
    a += ["%s=%d" % (k, v) for k, v in kw.items()]
    S.add(" ".join(a))

# ---------------------------------------------------------------- streams under test
def sut_string(S):
    r = S.r
    d = content(r)
    b = S.blob(d)
    if r.random() < .3:
        d4 = d[:len(d) // 4 * 4]
        d4 = b"".join(bytes([x, 0, 0, 0]) for x in d[:500])
        b = S.blob(d4)
        S.add("src s wstring %s copy=%d" % (b, r.random() < .5))
        expect(S, "s", d4, "wstring", decl=len(d4) // 4, rew=1)
        return "s", len(d4) // 4
    if d and r.random() < .2:      # the length is that up to the first zero byte
        d = d[:50000].replace(b"\0", b"\1")
        S.add("src s string %s copy=%d strlen=1" % (S.blob(d), r.random() < .5))
    else:
        S.add("src s string %s copy=%d" % (b, r.random() < .5))
    expect(S, "s", d, "string", decl=len(d), rew=1)
    return "s", len(d)

def sut_file(S, cls=None):
    r = S.r
    h = r.choice(["auto", "buffered", "mmap", "unbuffered", "ctor", "skip2", "fp", "fp2"])
    d = content(r, cls or (None if r.random() < .9 else "huge"))
    b = S.blob(d)
    via = r.choice(["file"] * 7 + ["pipe", "pipe", "proc"])
    if via == "pipe" and len(d) >= 60000:
        via = "file"
    S.add("src s file %s hint=%s bufsize=%d via=%s pre=%d" % (b, h, r.choice([1048576, 1, 2, 64, 1000, 4096]), via, r.choice([0, 1, len(d) // 2, len(d) + 1])))
    S.count("file:%s:%s" % (h, via))
    if via == "proc":      # what the driver's command line is, is known to the driver
        S.add("expect s kind=file end=clean blob=@cmdline decl=-1 rew=0")
        return "s", 60
    expect(S, "s", d, "file", decl=len(d) if via == "file" else -1, rew=0 if h in ("buffered", "ctor", "skip2", "fp", "fp2") or via != "file" else 1)
    return "s", len(d)

def sut_nofile(S):
    r = S.r
    h = r.choice(["auto", "buffered", "mmap", "unbuffered", "ctor", "skip2", "fp", "fp2"])
    S.add("src s nofile hint=%s dir=%d null=%d" % (h, r.random() < .3, r.random() < .2))
    expect(S, "s", b"", "file", "error")
    return "s", 5

def sut_tbuf(S):
    r = S.r
    wide = r.random() < .25
    d = content(r, r.choice(["tiny", "small", "small", "mid"]))
    fault = r.randint(0, len(d)) if fr(r, .25) else None
    mode = r.choice(["max", "rand", "min", "sched"])
    a = ["mode=" + mode, "seed=%d" % r.randrange(1 << 30), "minbuf=%d" % r.choice([0, 1, 2, 3, 8, 64, 1000]), "known=%d" % (r.random() < .4)]
    if mode == "sched":
        a.append("sched=" + ",".join(str(r.choice([0, 1, 1, 2, 3, 5, 9, 100])) for _ in range(r.randint(1, 5))) + ",1")
    if fault is not None:
        a.append("fault=%d" % fault)
    if wide:
        d = b"".join(bytes([x, 0, 0, 0]) for x in d)
    b = S.blob(d)
    n = len(d) // (4 if wide else 1)
    S.add("src s %s %s %s" % ("wbuf" if wide else "tbuf", b, " ".join(a)))
    if fault is None:
        expect(S, "s", d, "buf", decl=n if "known=1" in a else -1)
    else:
        expect(S, "s", d[:fault * (4 if wide else 1)], "buf", "error")
    return "s", n

def sut_chunk(S):
    """The reference source itself (checks the machinery)."""
    r = S.r
    d = content(r)
    f = r.randint(0, len(d)) if r.random() < .3 else None
    source(S, "s", d, fault=f, kinds=["chunk"])
    expect(S, "s", d if f is None else d[:f], "chunk", "clean" if f is None else "error")
    return "s", len(d)

def sut_sub(S):
    r = S.r
    d = content(r)
    o0 = r.choice([0, 0, r.randint(0, len(d))])
    z = r.random()
    fault = r.randint(o0, len(d)) if fr(r, .15) and len(d) > o0 else None
    k, b = source(S, "p", d, fault=fault)
    if o0:
        S.add(r.choice(["skip p %d", "read p %d %d"]).replace("%d %d", "%d %d" % (o0, o0)).replace("%d", str(o0)))
    avail = (len(d) if fault is None else fault) - o0
    if z < .2:
        ln, end, exp = -1, ("clean" if fault is None else "error"), d[o0:o0 + avail]
    elif z < .75:
        ln = r.choice([0, min(1, avail), avail, max(0, avail - 1), r.randint(0, avail)])
        end, exp = "clean", d[o0:o0 + ln]
        if fault is not None and ln >= avail:
            if ln == avail:
                ln += 1
            end = "error"
            exp = d[o0:o0 + avail]
    else:
        ln = avail + r.choice([1, 2, 10, 1000])
        end, exp = "error", d[o0:o0 + avail]
    if fault is not None and end == "clean" and ln != -1:
        pass
    S.add("flt s sub p len=%d" % ln)
    expect(S, "s", exp, "sub", end, o0=o0, decl=ln if end == "clean" else -1)
    S.count("sub:" + end + (":nolimit" if ln == -1 else ""))
    return "s", len(exp)

def term_content(r):
    t = r.choice([b"\n", b"$$$$", b"ab", b"aba", b"aab", b"--x--", bytes([0]), bytes([255, 0]), b"abcab", b"aaaa", bytes(range(20))])
    pieces = []
    for _ in range(r.randint(1, 6)):
        n = r.choice([0, 1, 2, 3, 5, 10, 40, r.randint(0, 700)])
        al = bytes(set(t)) + b"xyz"
        p = bytes(r.choice(al) for _ in range(n)) if r.random() < .8 else r.randbytes(n)
        if r.random() < .4:
            p += t[:r.randint(0, len(t) - 1)]
        pieces.append(p)
    d = t.join(pieces)
    return t, d

def sut_term(S, fault_ok=True):
    r = S.r
    t, d = term_content(r)
    fault = r.randint(0, len(d)) if fault_ok and fr(r, .12) else None
    at = source_at(S, "p", d, fault=fault, kinds=["chunk"] * 6 + ["string", "tbuf", "file"])
    parts, rest, o = [], d, 0
    nsub = r.randint(1, 3)
    for i in range(nsub):
        j = d.find(t, o)
        L = (len(d) if j < 0 else j) - o
        tl = len(t) if j >= 0 else 0
        S.add("flt s sub p" if False else "flt s%d term p t=%s" % (i, t.hex()))
        if fault is None:
            expect(S, "s%d" % i, d[o:o + L], "term", o0=at + o, tl=tl)
        elif (j >= 0 and fault >= j + len(t)):
            expect(S, "s%d" % i, d[o:o + L], "term", "any", o0=at + o, tl=tl)   # read-ahead may meet the fault or not
        else:
            expect(S, "s%d" % i, d[o:min(o + L, fault)], "term", "error", o0=at + o, tl=tl)
        S.count("term:" + ("found" if tl else "absent"))
        if i < nsub - 1 and fault is None:
            ops(S, "s%d" % i, L, r.randint(0, 6), finish=False)
            S.add("drain s%d %d 0 3000" % (i, r.choice([1, 5, L + 1])), "read s%d 1 0" % i)
            if r.random() < .3:
                S.add("back s%d %d" % (i, r.choice([0, 1, 2])), "drain s%d 1 0 3000" % i)
            S.add("fin s%d" % i)
            if tl == 0:
                return None, 0
            o += L + tl
        else:
            ops(S, "s%d" % i, L)
            return None, 0
    return None, 0

def sut_event(S):
    r = S.r
    d = content(r)
    fault = r.randint(0, len(d)) if fr(r, .15) else None
    source(S, "p", d, fault=fault)
    stop = r.choice([-1, -1, -1, 0, 1, r.randint(0, len(d) + 1)])
    S.add("flt s event p stop=%d" % stop)
    expect(S, "s", d if fault is None else d[:fault], "event", "clean" if fault is None else "error")
    if r.random() < .25 and fault is None:
        S.add("flt s2 event s")
        expect(S, "s2", d, "event")
        S.count("event:chain")
        return "s2", len(d)
    S.count("event:%s" % ("stop" if stop >= 0 else "all"))
    return "s", len(d)

def compress(r, kind, d, level=None):
    lv = r.choice([1, 6, 9, 0]) if level is None else level
    if kind == "gzip":
        if r.random() < .5:
            return gzip.compress(d, compresslevel=max(lv, 1), mtime=r.randrange(1 << 31))
        buf = io.BytesIO()
        with gzip.GzipFile(filename="n%d" % r.randrange(100), mode="wb", fileobj=buf, compresslevel=max(1, lv), mtime=5) as f:
            f.write(d)
        return buf.getvalue()
    if kind == "zlib":
        return zlib.compress(d, lv)
    if kind == "deflate":
        c = zlib.compressobj(lv, zlib.DEFLATED, -15)
        return c.compress(d) + c.flush()
    if kind == "bz2":
        return bz2.compress(d, r.choice([1, 5, 9]))
    if kind == "lzma":
        c = lzma.compress(d, format=lzma.FORMAT_ALONE, filters=[{"id": lzma.FILTER_LZMA1, "dict_size": r.choice([4096, 4096, 65536, 1 << 20]), "lc": 3, "lp": 0, "pb": 2, "mode": lzma.MODE_FAST, "mf": lzma.MF_HC3, "nice_len": 16}])
        # "5d" header and size rules of the library: known size must exceed the dictionary size
        ds = struct.unpack("<I", c[1:5])[0]
        return c
    raise KeyError(kind)

def lzma_known_size(c, n):
    """An .lzma file with the size in the header (end marker kept)."""
    return c[:5] + struct.pack("<q", n) + c[13:]

def sut_z(S, kinds=("gzip", "zlib", "deflate", "bz2", "lzma"), cut_ok=True, cls=None):
    r = S.r
    k = r.choice(kinds)
    d = content(r, cls or r.choices(["tiny", "small", "mid", "big", "huge"], [30, 30, 30, 5, 2])[0])
    c = compress(r, k, d)
    decl = -1
    if k == "lzma" and r.random() < .5:
        ds = struct.unpack("<I", c[1:5])[0]
        if len(d) > ds:
            c = lzma_known_size(c, len(d))
            decl = len(d)
            S.count("z:lzma:known")
    trail = content(r, "tiny") if r.random() < .5 and k in ("gzip", "zlib", "deflate", "bz2") else b""
    end, fault = "clean", None
    src = c + trail
    o0 = 0
    if cut_ok and fr(r, .25):
        cut = r.choice([r.randint(0, len(c) - 1), len(c) - 1, max(0, len(c) - 4), max(0, len(c) - 8), r.randint(0, min(len(c) - 1, 30))])
        if k == "lzma":
            cut = min(cut, len(c) - (0 if decl < 0 else 12) - 1)
            cut = max(cut, 0)
        end = "error"
        if r.random() < .5:
            fault = cut
        else:
            src = c[:cut]
        S.count("z:%s:cut" % k)
    elif r.random() < .3:
        pre = content(r, "tiny")
        o0 = len(pre)
        src = pre + src
    source(S, "p", src, fault=fault)
    if o0:
        S.add("read p %d %d" % (o0, o0))
    S.add("flt s %s p" % k)
    expect(S, "s", d, "z", end, o0=o0, clen=len(c) if k != "lzma" and end == "clean" else -1, decl=decl)
    S.count("z:" + k)
    return "s", len(d)

def sut_zbad(S):
    """input without a valid header is rejected at construction"""
    r = S.r
    k = r.choice(["gzip", "bz2", "lzma"])
    d = compress(r, k, content(r, "small"))
    z = r.random()
    if z < .4:
        d = content(r, r.choice(["tiny", "small"]), 256)
        if d[:2] == b"\x1f\x8b" or d[:2] == b"BZ" or d[:2] == b"\x5d\0":
            d = b"x" + d
    elif z < .7:
        d = bytes([d[0] ^ (1 << r.randrange(8))]) + d[1:]
    else:
        d = d[:r.randint(0, {"gzip": 1, "bz2": 9, "lzma": 12}[k])]
    source(S, "p", d)
    S.add("flt s %s p" % k)
    expect(S, "s", b"", "z", "rejected")
    S.count("zbad:" + k)
    return "s", 5

def damaged(r, k, d):
    """Compressed data that delivers d (or less) and then is in error."""
    z = r.random()
    if k == "bz2":
        c = bytearray(bz2.compress(d, r.choice([1, 5, 9])))
        if z < .5 or not d:                        # the magic of the first block or of the end
            c[4 + r.randrange(6)] ^= 1 << r.randrange(8)
        else:                                      # the checksum of the first block
            c[10 + r.randrange(4)] ^= 1 << r.randrange(8)
            return bytes(c), "sum"
        return bytes(c), "block"
    w = {"gzip": 31, "zlib": 15, "deflate": -15}[k]
    if k == "zlib" and z < .3:
        o = zlib.compressobj(6, zlib.DEFLATED, w, zdict=b"a preset dictionary" + d[:9])
        return o.compress(d) + o.flush(), "dict"
    o = zlib.compressobj(r.choice([0, 1, 6, 9]), zlib.DEFLATED, w)
    if z < .6 or k == "deflate":
        return o.compress(d) + o.flush(zlib.Z_FULL_FLUSH) + bytes([r.choice([6, 7])]) + content(r, "tiny", 256), "type"
    c = bytearray(o.compress(d) + o.flush())
    c[-1 - r.randrange(8 if k == "gzip" else 4)] ^= 1 << r.randrange(8)
    return bytes(c), "sum"

def sut_zdam(S):
    """data that turns out to be damaged: an error with a message after the sound part"""
    r = S.r
    k = r.choice(["gzip", "zlib", "deflate", "bz2"])
    d = content(r, r.choice(["tiny", "small", "mid"]))
    c, how = damaged(r, k, d)
    source(S, "p", c + (content(r, "tiny", 256) if r.random() < .5 else b""))
    S.add("flt s %s p" % k)
    expect(S, "s", d if how in ("type", "sum") else b"", "z", "error", o0=0, clen=-1, decl=-1)
    S.count("zdam:%s:%s" % (k, how))
    return "s", len(d)

def b64_text(r, d):
    e = base64.b64encode(d)
    junk = r.random()
    if len(e) > 8000 and junk <= .6:
        parts, i = [], 0
        while i < len(e):
            n = r.randint(1, 3000)
            parts.append(e[i:i + n])
            i += n
        if parts and len(parts[-1]) < 3:
            parts[-2:] = [b"".join(parts[-2:])]
        return r.choice([b"\n", b"\r\n", b" ", b"*", b"\0\xff"]).join(parts)
    out = bytearray()
    for ch in e if junk < .35 else b"":
        if junk < .35 and r.random() < .3 and ch != 61:
            out += bytes(r.choice(b"\n\r \t-_.!\x00\xff*~") for _ in range(r.randint(1, 3)))
        out.append(ch)
    if junk >= .35:
        out = e
    if junk > .6:
        w = r.choice([4, 5, 7, 19, 64, 76])
        nl = r.choice([b"\n", b"\r\n"])
        out = nl.join(bytes(e[i:i + w]) for i in range(0, len(e), w))
        if r.random() < .5:
            out += nl
    return bytes(out)

def source_at(S, name, data, fault=None, p=.15, **kw):
    """a source, sometimes positioned after other data"""
    pre = content(S.r, "tiny") if S.r.random() < p and len(data) < 200000 else b""
    source(S, name, pre + data, fault=None if fault is None else fault + len(pre), **kw)
    if pre:
        S.add("read %s %d %d" % (name, len(pre), len(pre)))
        S.count("at-offset")
    return len(pre)

def sut_b64(S):
    r = S.r
    d = content(r, r.choices(["tiny", "small", "mid", "big", "huge"], [30, 30, 30, 3, 1])[0])
    t = b64_text(r, d)
    if t.endswith(b"=") and r.random() < .3:
        t += r.choice([b"QUJD", b"\n", b"=", b"junk"])
    fault = None
    end = "clean"
    if fr(r, .1) and b"=" not in t[:-4]:
        n = len(t) - 4
        if n > 0:
            fault = r.randint(0, n)
            end = "error"
    source_at(S, "p", t, fault=fault)
    S.add("flt s b64 p")
    expect(S, "s", d, "b64", end)
    return "s", len(d)

def sut_comp(S):
    """what the compressing stream delivers decompresses to its input"""
    r = S.r
    d = content(r, r.choices(["tiny", "small", "mid", "big", "huge"], [30, 30, 30, 8, 3])[0])
    fault = r.randint(0, len(d)) if fr(r, .12) else None
    source_at(S, "p", d, fault=fault)
    S.add("flt c gzc p level=%d" % r.choice([-1, -1, 0, 1, 6, 9, 77]))
    z = r.random()
    if z < .3:      # it is read, and gone back in, before it is decompressed
        k = r.choice([1, 2, 5, 100])
        S.add("read c %d %d" % (k, r.choice([0, k])), "reset c 0")
    elif z < .4 and fault is None:
        S.add("flt e event c")
    S.add("flt s zlib %s" % ("e" if S.cur[-1].startswith("flt e") else "c"))
    expect(S, "s", d, "z", "clean" if fault is None else "error")
    S.count("comp")
    return "s", len(d)

ENCS = ["UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "ISO-8859-1", "ISO-2022-JP", "SHIFT_JIS", "EUC-JP", "GB18030", "KOI8-R"]
HOLD = ["CP1258", "CP1255", "BIG5-HKSCS", "SHIFT_JISX0213"]    # the converter holds back characters that may combine with the next
ONLYIN = ["UTF-7", "UTF-16", "UTF-32", "ISO-2022-JP-3"]       # more than one way to write a text
PYENC = {"ISO-2022-JP": "iso2022_jp", "GB18030": "gb18030", "SHIFT_JIS": "shift_jis", "KOI8-R": "koi8_r", "CP1258": "cp1258", "CP1255": "cp1255", "BIG5-HKSCS": "big5hkscs",
         "SHIFT_JISX0213": "shift_jisx0213", "ISO-2022-JP-3": "iso2022_jp_3"}
def text(r, enc1, enc2="UTF-8"):
    n = r.choice([0, 1, 2, 3, 5, 10, 50, r.randint(50, 400), r.randint(400, 3000)])
    pools = [[0x41, 0x7a, 0x20, 0xa, 0x30], [0xe9, 0xe0, 0xff, 0xb0], [0x416, 0x44f, 0x43a], [0x3042, 0x65e5, 0x672c, 0x30a2], [0x1f600, 0x10ffff, 0x10000, 0x2070e],
             [0x5d0, 0x5d9, 0x5e9, 0x61, 0x65], [0x20ab, 0x1b0, 0x61, 0x65], ["\xca\u0304", "\xea\u030c", "\u304b\u309a", 0xca, 0x304b]]
    pools = [p for p in pools if r.random() < .6] or [pools[0]]
    pools = [[c if type(c) is str else chr(c) for c in p] for p in pools]
    s = [r.choice(r.choice(pools)) for _ in range(n)]
    def ok(ch):
        for e in (enc1, enc2):
            pe = PYENC.get(e, e)
            try:
                if ch.encode(pe).decode(pe) != ch:
                    return False
            except UnicodeError:
                return False
        return True
    keep = {c for c in set(s) if ok(c)}
    return "".join(c for c in s if c in keep)

def sut_reader(S):
    r = S.r
    enc = r.choice(ENCS + HOLD * 2 + ONLYIN + ["UTF-8", "UTF-16LE", "UTF-8"])
    s = text(r, enc)
    raw = s.encode(PYENC.get(enc, enc))
    end = "clean"
    fault = None
    out = s.encode("utf-32-le")
    z = r.random()
    if z < .12 * getattr(r, "fp", 1) and raw:
        fault = r.randint(0, len(raw))
        end = "error"
    elif z < .3 * getattr(r, "fp", 1) and enc in ("UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE"):
        bad = {"UTF-8": [b"\xff", b"\xc3", b"\xe3\x81", b"\xf0\x9f\x98", b"\x80", b"\xc0\x80", b"\xed\xa0\x80"], "UTF-16LE": [b"\x41", b"\x00\xd8", b"\x00\xdc", b"\x00\xd8\x41"],
               "UTF-16BE": [b"\x00", b"\xd8\x00", b"\xdc\x00", b"\xd8\x00\xdc"], "UTF-32LE": [b"A", b"AB", b"ABC", b"\0\0\x11\0"]}[enc]
        raw += r.choice(bad)
        end = "error"
        S.count("reader:bad")
    source_at(S, "p", raw, fault=fault)
    S.add("flt s reader p enc=%s" % enc if enc != "UTF-8" or r.random() < .5 else "flt s reader p")
    expect(S, "s", out, "reader", end)
    S.count("reader:" + enc)
    return "s", len(s)

def sut_enc(S):
    r = S.r
    e1, e2 = r.choice(ENCS + HOLD + ONLYIN), r.choice(ENCS + HOLD + ["UTF-8"] * 3)
    s = text(r, e1, e2)
    raw = s.encode(PYENC.get(e1, e1))
    out = s.encode(PYENC.get(e2, e2))
    end, fault = "clean", None
    z = r.random()
    if z < .12 * getattr(r, "fp", 1) and raw:
        fault = r.randint(0, len(raw))
        end = "error"
    elif z < .25 * getattr(r, "fp", 1) and e1 in ("UTF-8", "UTF-16LE"):
        raw += r.choice([b"\xff", b"\xc3", b"\xe3\x81"]) if e1 == "UTF-8" else r.choice([b"\x41", b"\x00\xd8", b"\x00\xdc"])
        end = "error"
    source_at(S, "p", raw, fault=fault)
    S.add("flt s enc p in=%s%s" % (e1, "" if e2 == "UTF-8" and r.random() < .5 else " out=" + e2))
    expect(S, "s", out, "enc", end)
    S.count("enc")
    return "s", len(out)

def sut_badenc(S):
    r = S.r
    source(S, "p", content(r, "tiny"))
    S.add(r.choice(["flt s reader p enc=NO-SUCH", "flt s enc p in=NO-SUCH", "flt s enc p in=UTF-8 out=NO-SUCH", "flt s enc p"]))
    expect(S, "s", b"", "enc", "rejected")
    return "s", 5

def sut_nested(S):
    """filters over filters"""
    r = S.r
    k = r.choice(["sub-z", "z-sub", "term-z", "event-z", "reader-z", "z-b64", "sub-sub", "event-sub", "reader-event"])
    d = content(r, r.choice(["tiny", "small", "mid", "big"]))
    if k in ("sub-z", "term-z", "event-z"):
        zk = r.choice(["gzip", "zlib", "deflate", "bz2", "lzma"])
        if k == "term-z":
            t, d = term_content(r)
        source(S, "p", compress(r, zk, d))
        S.add("flt z %s p" % zk)
        if k == "sub-z":
            o = r.randint(0, len(d)); n = r.randint(0, len(d) - o)
            if o:
                S.add("skip z %d" % o)
            S.add("flt s sub z len=%d" % n)
            expect(S, "s", d[o:o + n], "sub", o0=o, decl=n)
            return "s", n
        if k == "term-z":
            j = d.find(t); L = j if j >= 0 else len(d)
            S.add("flt s term z t=%s" % t.hex())
            expect(S, "s", d[:L], "term", o0=0, tl=len(t) if j >= 0 else 0)
            return "s", L
        S.add("flt s event z")
        expect(S, "s", d, "event")
        return "s", len(d)
    if k == "z-sub":
        zk = r.choice(["gzip", "zlib", "deflate", "bz2"])
        c = compress(r, zk, d)
        pre, post = content(r, "tiny"), content(r, "small")
        source(S, "p", pre + c + post)
        if pre:
            S.add("skip p %d" % len(pre))
        S.add("flt w sub p len=%d" % (len(c) + r.randint(0, len(post))), "flt s %s w" % zk)
        expect(S, "s", d, "z", o0=0, clen=len(c))
        return "s", len(d)
    if k == "reader-z":
        s = text(r, "UTF-8")
        source(S, "p", compress(r, "gzip", s.encode()))
        S.add("flt z gzip p", "flt s reader z")
        expect(S, "s", s.encode("utf-32-le"), "reader")
        return "s", len(s)
    if k == "reader-event":
        s = text(r, "UTF-8")
        source(S, "p", s.encode())
        S.add("flt e event p", "flt s reader e")
        expect(S, "s", s.encode("utf-32-le"), "reader")
        return "s", len(s)
    if k == "z-b64":
        source(S, "p", b64_text(r, compress(r, "bz2", d)))
        S.add("flt b b64 p", "flt s bz2 b")
        expect(S, "s", d, "z")
        return "s", len(d)
    if k == "sub-sub":
        o = r.randint(0, len(d)); n = r.randint(0, len(d) - o)
        o2 = r.randint(0, n); n2 = r.randint(0, n - o2)
        source(S, "p", d)
        if o:
            S.add("skip p %d" % o)
        S.add("flt w sub p len=%d" % n)
        if o2:
            S.add("read w %d %d" % (o2, o2))
        S.add("flt s sub w len=%d" % r.choice([n2, -1]))
        if S.cur[-1].endswith("=-1"):
            n2 = n - o2
        expect(S, "s", d[o + o2:o + o2 + n2], "sub", o0=o2)
        return "s", n2
    o = r.randint(0, len(d)); n = r.randint(0, len(d) - o)
    source(S, "p", d)
    if o:
        S.add("skip p %d" % o)
    S.add("flt w sub p len=%d" % n)
    # a listener stream starts at position 0 of its input: the window does
    S.add("flt s event w")
    expect(S, "s", d[o:o + n], "event")
    return "s", n

SUTS = {"string": sut_string, "file": sut_file, "nofile": sut_nofile, "tbuf": sut_tbuf, "chunk": sut_chunk, "sub": sut_sub, "term": sut_term,
        "event": sut_event, "z": sut_z, "zbad": sut_zbad, "zdam": sut_zdam, "comp": sut_comp, "b64": sut_b64, "reader": sut_reader, "enc": sut_enc, "badenc": sut_badenc, "nested": sut_nested}

def streams(seed, n, weights, fp=1):
    S = Scenarios(seed)
    S.r.fp = fp
    names = list(weights)
    for i in range(n):
        k = S.r.choices(names, [weights[x] for x in names])[0]
        S.new("st-" + k)
        s, L = SUTS[k](S)
        if s:
            ops(S, s, L)
        S.count("scn:" + k)
    return S

# ---------------------------------------------------------------- one stream with given content
def fixed_sut(S, k, d):
    r = S.r
    n = len(d)
    if k == "string":
        S.add("src s string %s copy=%d" % (S.blob(d), r.random() < .5))
        expect(S, "s", d, "string", decl=n, rew=1)
    elif k == "wstring":
        d4 = b"".join(bytes([x, 0, 0, 0]) for x in d)
        S.add("src s wstring %s" % S.blob(d4))
        expect(S, "s", d4, "wstring", decl=n, rew=1)
    elif k == "file":
        h = r.choice(["auto", "buffered", "mmap", "unbuffered", "ctor", "skip2"])
        S.add("src s file %s hint=%s bufsize=%d" % (S.blob(d), h, r.choice([1, 2, 3, 64, 1048576])))
        expect(S, "s", d, "file", decl=n, rew=0 if h in ("buffered", "ctor", "skip2") else 1)
    elif k in ("tbuf", "wbuf"):
        d4 = b"".join(bytes([x, 0, 0, 0]) for x in d) if k == "wbuf" else d
        kn = r.random() < .4
        S.add("src s %s %s mode=%s seed=%d minbuf=%d known=%d" % (k, S.blob(d4), r.choice(["min", "max", "rand"]), r.randrange(1 << 30), r.choice([0, 1, 2, 3]), kn))
        expect(S, "s", d4, "buf", decl=n if kn else -1)
    elif k == "chunk":
        source(S, "s", d, kinds=["chunk"])
        expect(S, "s", d, "chunk")
    elif k == "sub":
        a, b = bytes(r.randrange(256) for _ in range(r.randint(0, 3))), bytes(r.randrange(256) for _ in range(r.randint(0, 3)))
        if r.random() < .2:
            b = b""
        source(S, "p", a + d + b, kinds=["chunk", "chunk", "tbuf", "string"])
        if a:
            S.add("read p %d %d" % (len(a), len(a)))
        nolim = not b and r.random() < .7
        S.add("flt s sub p len=%d" % (-1 if nolim else n))
        expect(S, "s", d, "sub", o0=len(a), decl=-1 if nolim else n)
    elif k == "term":
        t = r.choice([b"\n\n", b"\xfe", b"aab", b"$$$$"])
        d = bytes(t[0] if r.random() < .6 else (x % 64) for x in d)
        found = r.random() < .7
        x = d + (t + b"zz"[:r.randint(0, 2)] if found else b"")
        i = x.find(t)
        L = i if i >= 0 else len(x)
        source(S, "p", x, kinds=["chunk", "chunk", "tbuf", "string"])
        S.add("flt s term p t=" + t.hex())
        expect(S, "s", x[:L], "term", o0=0, tl=len(t) if i >= 0 else 0)
    elif k == "event":
        source(S, "p", d, kinds=["chunk", "chunk", "tbuf", "string"])
        S.add("flt s event p stop=%d" % r.choice([-1, -1, -1, r.randint(0, n + 1)]))
        expect(S, "s", d, "event")
    elif k in ("gzip", "zlib", "deflate", "bz2", "lzma"):
        c = compress(r, k, d)
        trail = b"" if k == "lzma" else bytes(r.randrange(256) for _ in range(r.randint(0, 3)))
        source(S, "p", c + trail, kinds=["chunk", "chunk", "tbuf", "string"])
        S.add("flt s %s p" % k)
        expect(S, "s", d, "z", "clean", o0=0, clen=len(c) if k != "lzma" else -1)
    elif k == "b64":
        source(S, "p", b64_text(r, d), kinds=["chunk", "chunk", "tbuf", "string"])
        S.add("flt s b64 p")
        expect(S, "s", d, "b64")
    elif k in ("reader", "enc"):
        s = d.decode("latin1")
        s = "".join(ch if r.random() < .6 else r.choice("\u00e9\u0416\u3042\U0001f600") for ch in s)
        e = r.choice(["UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE"])
        source(S, "p", s.encode(e), kinds=["chunk", "chunk", "tbuf", "string"])
        if k == "reader":
            S.add("flt s reader p enc=" + e)
            expect(S, "s", s.encode("utf-32-le"), "reader")
        else:
            o = r.choice(["UTF-8", "UTF-16LE", "UTF-16BE"])
            S.add("flt s enc p in=%s out=%s" % (e, o))
            expect(S, "s", s.encode(o), "enc")
    else:
        raise KeyError(k)

# ---------------------------------------------------------------- text helpers
def f_kmp(seed, n, tests=()):
    S = Scenarios(seed)
    r = S.r
    for i, t in enumerate(tests):
        if i % 40 == 0:
            S.new("fn-kmp")
        m = r.choice([{97: 97, 98: 98}, {97: 0, 98: 255}, {97: 128, 98: 0}])
        f = lambda x: hx(bytes(m[b] for b in x))
        S.add("kmp %s %s %s" % (r.choice(["new", "reuse"]), f(t["q"]), f(t["t"])))
        S.count("kmp:tlc")
    for i in range(n):
        if i % 20 == 0:
            S.new("fn-kmp")
        al = r.choice([b"ab", b"ab", b"abc", b"\0\xff", bytes([0, 128, 255]), bytes(range(256))])
        ql = r.choice([1, 1, 2, 3, 4, 5, 6, 8, 12, 20, 33])
        q = bytes(r.choice(al) for _ in range(ql))
        if r.random() < .4:                     # periodic queries
            u = bytes(r.choice(al) for _ in range(r.randint(1, 4)))
            q = (u * 40)[:ql]
            if r.random() < .5:
                q = q[:-1] + bytes([r.choice(al)])
        t = bytearray(r.choice(al) for _ in range(r.choice([0, 1, ql - 1, ql, ql + 1, r.randint(0, 40), r.randint(0, 120)])))
        for _ in range(r.randint(0, 4)):        # near misses and occurrences
            x = bytearray(q)
            if r.random() < .6:
                x[r.randrange(ql)] = r.choice(al)
            k = r.randint(0, len(t))
            t[k:k] = x[r.randint(0, ql - 1) if r.random() < .3 else 0:]
        S.add("kmp %s %s %s" % (r.choice(["new", "reuse", "reuse"]), hx(q), hx(t)))
        S.count("kmp:found" if q in t else "kmp:absent")
    for i in range(max(4, n // 100)):
        S.new("fn-kmpbig")
        q = bytes(r.choice(b"ab\0") for _ in range(r.randint(1, 40)))
        d = bytes(r.choice(b"ab\0") for _ in range(r.randint(1000, 60000))) if r.random() < .5 else r.randbytes(r.randint(1000, 60000))
        if r.random() < .5:
            k = r.randint(0, len(d)); d = d[:k] + q + d[k:]
        b = S.blob(d)
        S.add("kmpbig %s %s want=%d" % (hx(q), b, d.find(q)))
    return S

def utf8_bytes(r):
    def ch():
        k = r.random()
        if k < .4:
            return bytes([r.choice([9, 10, 13, 32, 65, 126, 127, 0, 1, 31, 11])]) if r.random() < .25 else b"a"
        v = r.choice([0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0xfffff, 0x10ffff, r.randrange(0x80, 0xd800), r.randrange(0x10000, 0x110000)])
        return chr(v).encode("utf-8", "surrogatepass")
    s = b"".join(ch() for _ in range(r.randint(0, 8)))
    z = r.random()
    if z < .3:
        s += r.choice([b"\xf0\x8f\xbf\xbf", b"\xe0\x9f\xbf", b"\xc1\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xff", b"\xfe", b"\x80", b"\xc2a", b"\xe2\x82a", b"\xf0\x9f\x98a"])
        s += b"".join(ch() for _ in range(r.randint(0, 2)))
    elif z < .6 and s:
        s = s[:r.randint(0, len(s))]
    elif z < .75 and s:
        k = r.randrange(len(s)); s = s[:k] + bytes([r.randrange(256)]) + s[k + 1:]
    return s

def f_utf8(seed, n, tests=()):
    S = Scenarios(seed)
    r = S.r
    for i, t in enumerate(tests):
        if i % 100 == 0:
            S.new("fn-utf8")
        S.add("utf8 " + hx(bytes(t["t"])))
        S.count("utf8:tlc")
    for i in range(n):
        if i % 50 == 0:
            S.new("fn-utf8")
        S.add("utf8 " + hx(utf8_bytes(r)))
        s = utf8_bytes(r).replace(b"\0", b"\n") if r.random() < .3 else "".join(r.choice("a\n\r\t\u00e9\u3042\U0001f600") for _ in range(r.randint(0, 12))).encode()
        S.add("nl " + hx(s))
        S.count("utf8:random")
        S.count("nl")
    return S

def f_int(seed, n):
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        if i % 25 == 0:
            S.new("fn-int")
        off = r.randint(0, 7)
        b = bytearray(r.choice([r.randrange(256), 0, 255, 127, 128, 1]) for _ in range(off + 8))
        if i < 256:
            b = bytearray(off + 8); b[off + i % 8] = r.choice([1, 127, 128, 255, i & 255])
        S.add("int %s %d" % (b.hex(), off))
        S.count("int")
    return S

def f_b64(seed, n):
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        if i % 25 == 0:
            S.new("fn-b64")
        d = bytes(r.choice([r.randrange(256), 0, 255, 62, 63, 251]) for _ in range(i % 60 if i < 240 else r.randint(0, 60)))
        e = base64.b64encode(d)
        z = r.random()
        if z > .9:
            e = b64_text(r, d)
        elif z > .85:
            e = bytes(r.choice(b"AQ/+=\n\0\xff") for _ in range(r.randint(0, 16)))
        elif z > .8:
            e = e[:r.randint(0, len(e))]
        S.add("b64 " + hx(e))
        S.count("b64")
    return S
