"""Trees of archives and histories of queries for ArchiveReader."""
import base64, json, struct, zlib
import gen, garch
from gen import Scenarios, rnd_bytes, compress
from garch import tar_header, pad, dostime

FILE, DIR, LINK = 2, 1, 0
NAMES = ["a", "ab", "abc", "b", "a.b", "a-b", "x", "x.tar", "d", "dd", "readme.txt", "A", "a_b", "z.zip", ".h", "..a", "a.", "a#b", "~"]

class M:
    """A member of an archive."""
    def __init__(self, path, ty, data, mt, sub=(), late=0):
        self.path, self.ty, self.data, self.mt, self.sub, self.late, self.cid = list(path), ty, data, mt, list(sub), late, 0
        self.wild, self.end, self.whole = 0, -1, list(sub)

def content(r):
    z = r.random()
    if z < .1:
        return b""
    if z < .2:
        return r.choice([b"!<arch>\n", b"BZh91AY&SY" + rnd_bytes(r, 30), b"\x1f\x8b\x08" + rnd_bytes(r, 20), b"\x1f\x8b", b"PK", b"BZ", b"\x01"])
    if z < .3:
        return compress(r, r.choice(["gzip", "bz2", "lzma"]), b"\x01" + rnd_bytes(r, r.choice([0, 10, 3000]), 8))
    return b"\x01" + rnd_bytes(r, r.choice([0, 1, 10, 100, 511, 512, 1000, 5000]), r.choice([2, 250]))

# ---- encoders: bytes of an archive with the given members ------------------
def enc_tar(r, ms):
    style = r.choice(["gnu", "gnu", "ustar", "v7"])
    out = b""
    for m in ms:
        name = "/".join(m.path).encode()
        raw = (b"./" if r.random() < .15 else b"") + name + (b"/" if m.ty == DIR and r.random() < .8 else b"")
        m.mt = r.choice([0, 1, 1234567890, r.randrange(1 << 31), r.randrange(1 << 33)])
        if len(raw) > 100:
            out += tar_header(b"././@LongLink", len(raw) + 1, 0, b"L", r, "gnu") + pad(raw + b"\0", 512)
        out += tar_header(raw[:100], len(m.data), m.mt, b"5" if m.ty == DIR else r.choice([b"1", b"2"]) if m.ty == LINK else r.choice([b"0", b"0", b"\0"]), r, style, link=b"target" if m.ty == LINK else b"")
        m.end = len(out) + len(m.data)
        out += pad(m.data, 512)
    return out + bytes(512 * r.choice([2, 2, 3, 20]))

def enc_zip(r, ms):
    out, cd = b"", b""
    for m in ms:
        raw = "/".join(m.path).encode() + (b"/" if m.ty == DIR else b"")
        dos, m.mt = dostime(r)
        method, dd, c = r.choice([0, 8, 8]), 0, m.data
        if method == 8:
            z = zlib.compressobj(r.choice([1, 6, 9]), zlib.DEFLATED, -15)
            c = z.compress(m.data) + z.flush()
            if r.random() < .4 and m.ty == FILE:
                dd = r.choice([12, 16])
        crc = zlib.crc32(m.data)
        off = len(out)
        out += struct.pack("<4sHHHIIIIHH", b"PK\3\4", 20, 8 if dd else 0, method, dos, 0 if dd else crc, 0 if dd else len(c), 0 if dd else len(m.data), len(raw), 0) + raw + c
        if dd:
            out += (b"PK\7\x08" if dd == 16 else b"") + struct.pack("<III", crc, len(c), len(m.data))
        m.end = len(out)
        cd += struct.pack("<4sHHHHIIIIHHHHHII", b"PK\1\2", 20, 20, 8 if dd else 0, method, dos, crc, len(c), len(m.data), len(raw), 0, 0, 0, 0, 0, off) + raw
    return out + cd + struct.pack("<4sHHHHIIH", b"PK\5\6", 0, 0, len(ms), len(ms), len(cd), len(out), 0)

def enc_ar(r, ms):
    out = b"!<arch>\n"
    for m in ms:
        m.mt = r.choice([0, 1234567890, r.randrange(1 << 33)])
        out += (m.path[0].encode() + b"/").ljust(16) + (b"%d" % m.mt).ljust(12) + b"0     0     100644  " + (b"%d" % len(m.data)).ljust(10) + b"`\n" + m.data
        m.end = len(out)
        out += b"\n" * (len(m.data) % 2)
    return out

def enc_rpm(r, ms):
    def ent(name, d, mt, mode):
        f = "%08x" if r.random() < .5 else "%08X"
        h = b"070701" + "".join(f % x for x in (1, mode, 0, 0, 1, mt, len(d), 8, 1, 0, 0, len(name) + 1, 0)).encode()
        return pad(h + name + b"\0", 4) + pad(d, 4)
    out = b""
    for m in ms:
        m.mt = r.choice([0, 1234567890, r.randrange(1 << 32)])
        out += ent((b"./" if r.random() < .5 else b"") + "/".join(m.path).encode(), m.data, m.mt, 0o40755 if m.ty == DIR else 0o100644)
    out += ent(b"TRAILER!!!", b"", 0, 0)
    def header(align):
        store = rnd_bytes(r, r.randint(8, 60))
        h = b"\x8e\xad\xe8\x01" + bytes(4) + struct.pack(">II", 1, len(store)) + struct.pack(">IIII", 1000, 6, 0, 1) + store
        return h + bytes(-(16 + len(store)) % 8) if align else h
    return b"\xed\xab\xee\xdb\x03\x00" + rnd_bytes(r, 90) + header(True) + header(False) + compress(r, r.choice(["gzip", "bz2", "lzma"]), out)

def enc_mail(r, ms):
    n = r.choice([b"\r\n", b"\n"])
    b = b"bnd%d" % r.randrange(10**6)
    h = n.join([b"Received: from host%03d.example.org by mx.example.org; Mon, 1 Jan 2001 00:00:00" % k for k in range(r.choice([0, 0, 0, 1, 4, 7]))] + [b"From: a@b.c", b"To: d@e.f", b"Subject: s", b"Message-ID: <1@b.c>", b"Date: Mon, 1 Jan 2001 00:00:00 +0000", b"MIME-Version: 1.0",
                b'Content-Type: multipart/mixed; boundary="' + b + b'"']) + n + n
    for m in ms:
        m.mt = -1
        h += b"--" + b + n + b"Content-Type: application/octet-stream" + n + b"Content-Transfer-Encoding: base64" + n + \
             b'Content-Disposition: attachment; filename="' + m.path[0].encode() + b'"' + n + n + \
             (b"".join(base64.b64encode(m.data[k:k + 57]) + n for k in range(0, len(m.data), 57)) or n)
    return h + b"--" + b + b"--" + n

ENC = {"tar": enc_tar, "zip": enc_zip, "ar": enc_ar, "rpm": enc_rpm, "mail": enc_mail}

class Tree:
    """A physical file: data and members."""
    def __init__(self, r, depth=0, kinds=None, big=False, damage=0, chain=0):
        self.kind = fmt = r.choice(kinds or ["tar", "tar", "tar", "zip", "zip", "ar", "rpm", "mail"])
        flat = fmt in ("ar", "mail")
        self.ms, used = [], {}
        n = r.choice([1, 2, 3, 3, 4, 5, 7]) if depth == 0 else r.choice([1, 1, 2, 3])
        if big:
            n = r.randint(15, 40)
        pool = NAMES + ["n%d" % i for i in range(n)] if big else NAMES
        dirs = set()
        for _ in range(n):
            k = 1 if flat else r.choice([1, 1, 1, 2, 2, 3, 4])
            path = []
            if k > 1 and dirs and r.random() < .6:
                path = list(r.choice(sorted(dirs)))
                k = len(path) + 1
            while len(path) < k:
                path.append(r.choice(pool))
            if not flat and fmt != "rpm" and r.random() < .06:
                path[-1] = "l" * r.choice([60, 99, 100, 130])
            t = tuple(path)
            # no name is used twice, no file is also a directory
            if t in used or any(t[:i] in used and used[t[:i]] != DIR for i in range(1, len(t))) or t in dirs:
                continue
            ty = DIR if not flat and r.random() < .12 else LINK if fmt == "tar" and r.random() < .08 else FILE
            sub, data, all_, wild = [], b"", [], 0
            if ty == FILE:
                z = r.random()
                if chain > 1 and not any(m.sub for m in self.ms) or not chain and z < (.25, .2, .15, .3, .3)[depth] and depth < 4:
                    c = Tree(r, min(4, depth + 1), damage=damage, chain=max(0, chain - 1))
                    sub, data, all_, wild = c.ms, c.data, c.all, c.wild
                else:
                    data = content(r)
            used[t] = ty
            for i in range(1, len(t)):
                dirs.add(t[:i])
            self.ms.append(M(t, ty, data, 0, sub))
            self.ms[-1].whole, self.ms[-1].wild = all_, wild
        if not self.ms:
            self.ms.append(M((r.choice(NAMES),), FILE, content(r), 0))
        if not flat:
            # entries for the directories, before or after their content
            for d in sorted(dirs):
                if d not in used and r.random() < .4:
                    i = r.randint(0, len(self.ms))
                    self.ms.insert(i, M(d, DIR, b"", 0))
            for i, m in enumerate(self.ms):
                m.late = int(m.ty == DIR and any(x.path[:len(m.path)] == m.path for x in self.ms[:i]))
        self.data = ENC[fmt](r, self.ms)
        self.all, self.wild = self.ms, 0
        z = 0
        least = r.randint(3, 9) if r.random() < .01 else 0
        while r.random() < (.25 if depth == 0 else .15) or z < least:
            self.data = compress(r, r.choice(["gzip", "bz2", "lzma"]), self.data)
            z += 1
        if r.random() < damage and len(self.data) > 1:
            # the end is damaged: what comes before that is still there
            cut = r.choice([r.randrange(len(self.data)), r.randrange(len(self.data)), r.choice([m.end for m in self.ms])])
            cut = max(0, min(len(self.data) - 1, cut + r.choice([0, 0, 1, -1, 100])))
            self.ms, self.wild = [] if z else [m for m in self.ms if 0 <= m.end < cut], 1
            x = r.random()
            if x < .45:
                self.data = self.data[:cut]
            elif x < .7:
                self.data = self.data[:cut] + rnd_bytes(r, len(self.data) - cut)
            else:
                b = bytearray(self.data)
                for _ in range(r.choice([1, 1, 3, 20])):
                    b[r.randrange(cut, len(b))] = r.choice([0, 0xff, 0x30, r.randrange(256)])
                self.data = bytes(b)

def plain(r):
    t = Tree.__new__(Tree)
    t.kind, t.ms, t.all, t.wild, t.data = "plain", [], [], 0, content(r)
    return t

class World:
    def __init__(self, S, fs):
        self.S, self.r, self.fs, self.files, self.cid, self.blobs, self.disk = S, S.r, fs, {}, 0, {}, {}
        self.times, self.dirs = set(), []
        self.pre = "@/" if fs else ""
    def blob(self, d):
        if d not in self.blobs:
            self.blobs[d] = self.S.blob(d)
        return self.blobs[d]
    def model(self, ms):
        res = []
        for m in ms:
            self.cid += 1
            m.cid = self.cid
            res.append({"p": m.path, "ty": m.ty, "sz": len(m.data), "mt": m.mt % 10**9 if m.mt >= 0 else -1, "mth": m.mt // 10**9 if m.mt >= 0 else 0,
                        "c": m.cid, "late": m.late, "wild": m.wild, "sub": self.model(m.sub)})
        return res
    def seen(self):
        """the files as the reader sees them"""
        self.files = {}
        for o in reversed(self.os):
            self.files.update(self.disk.get(o, {}))
        self.dirs = [f for f in self.files if self.files[f] is None]
        self.files = {f: t for f, t in self.files.items() if t is not None}
    def put(self, path, t, mt, op="o"):
        self.cid += 1
        t.cid = self.cid
        m = {"ty": FILE, "sz": len(t.data), "mt": mt % 10**9, "mth": mt // 10**9, "c": t.cid, "wild": t.wild, "sub": self.model(t.ms)}
        self.disk.setdefault("FS" if self.fs else op, {})[path] = t
        self.seen()
        ch = ""
        if not self.fs and self.r.random() < .35:
            ch = " chunk=1 " + " ".join(gen.chunk_args(self.r, len(t.data), self.r.choice(["min", "rand", "rand"] if len(t.data) < 20000 else ["rand"])))
        self.S.add("arfile %s %s %s %d%s json=%s" % ("FS" if self.fs else op, self.pre + path, self.blob(t.data), mt, ch, json.dumps(m, separators=(",", ":"))))
    def rm(self, path):
        op = self.r.choice([o for o in self.os if path in self.disk.get(o, {})])
        del self.disk[op][path]
        self.seen()
        self.S.add("arrm %s %s" % ("FS" if self.fs else op, self.pre + path))
    def mkdir(self, path, mt):
        """a directory where there is no file"""
        self.disk.setdefault("o", {})[path] = None
        self.seen()
        self.S.add("ardir o %s %d" % (path, mt))
    def tick(self):
        """another time, as a rule a later one"""
        self.times.add(self.clock)
        while self.clock in self.times:
            self.clock = max(0, self.clock + self.r.choice([1, 2, 1000, 100000, 1, 2, 1000, 100000, -1, -2, -1000]))
        return self.clock
    def paths(self):
        """all paths: (path, kind, tree or member)"""
        res = [(d, "dir", None) for d in self.dirs]
        def walk(base, ms, all_):
            seen = set()
            for m in all_:
                if m not in ms:
                    res.append((base + "/" + "/".join(m.path), "lost", None))
            for m in ms:
                p = base + "/" + "/".join(m.path)
                for i in range(1, len(m.path)):
                    q = base + "/" + "/".join(m.path[:i])
                    if q not in seen:
                        seen.add(q)
                        res.append((q, "dir", None))
                res.append((p, "dir" if m.ty == DIR else "link" if m.ty == LINK else "arch" if m.whole else "file", m))
                seen.add(p)
                walk(p, m.sub, m.whole)
        for f, t in self.files.items():
            res.append((f, "arch" if t.all else "file", t))
            walk(f, t.ms, t.all)
        return res
    def wrong(self, ps):
        r = self.r
        p = r.choice(ps)[0] if ps else "none"
        z = r.random()
        if z < .25:
            return p + r.choice(["x", "b", "c", ".b"])
        if z < .45 and len(p) > 1 and p[-2] != "/":
            return p[:-1]
        if z < .75:
            return p + "/" + r.choice(NAMES)
        if z < .9 and "/" in p:
            q = p.split("/")
            del q[r.randrange(len(q))]
            return "/".join(q) or "none"
        return r.choice(["none", "none/x", "x.tar/none", "a", "b/a"])

def ops(W, n, weights):
    S, r = W.S, W.r
    ls, opened, k = [], [], 0
    files0 = list(W.files)
    mts = {}
    for _ in range(n):
        ps = W.paths()
        z = r.choices(["stat", "isarch", "can", "ls", "nx", "all", "cp", "as", "lsdel", "open", "use", "close", "mod", "rm"], weights)[0]
        rd = r.choice(W.readers)
        def pick(pref=None):
            if r.random() < .2 or not ps:
                return W.wrong(ps)
            q = [p for p in ps if pref is None or p[1] in pref]
            return r.choice(q or ps)[0]
        if z in ("stat", "isarch", "can"):
            S.add("ar%s %s %s" % (z, rd, W.pre + pick(("arch", "file") if z == "isarch" else None)))
        elif z == "ls":
            k += 1
            ls.append("l%d" % k)
            S.add("arls %s l%d %s" % (rd, k, W.pre + pick(("arch", "dir"))))
        elif z == "nx" and ls:
            S.add("arnx " + r.choice(ls))
        elif z == "all" and ls:
            S.add("arall " + r.choice(ls))
        elif z == "cp" and ls:
            k += 1
            S.add("arcp l%d %s" % (k, r.choice(ls)))
            ls.append("l%d" % k)
        elif z == "as" and len(ls) > 0:
            S.add("aras %s %s" % (r.choice(ls), r.choice(ls)))
        elif z == "lsdel" and ls:
            x = r.choice(ls)
            ls.remove(x)
            S.add("arlsdel " + x)
        elif z == "open":
            k += 1
            p = pick(("file", "arch") if r.random() < .9 else None)
            t = [x for x in ps if x[0] == p and x[1] in ("file", "arch")]
            S.add("aropen %s s%d %s%s" % (rd, k, W.pre + p, " blob=%s c=%d" % (W.blob(t[0][2].data), t[0][2].cid) if t else " c=-1 sink=1"))
            if t:
                opened.append(("s%d" % k, len(t[0][2].data), rd))
                if r.random() < .6:
                    S.add("drain s%d %d 0 300" % (k, max(1, len(t[0][2].data) // 40)))
        elif z == "use" and opened:
            x = r.choice(opened)
            gen.ops(S, x[0], x[1], r.randint(1, 4), finish=False)
            S.add("drain %s %d 0 300" % (x[0], max(1, x[1] // 40)))
        elif z == "close" and opened:
            x = r.choice(opened)
            opened.remove(x)
            S.add("arclose %s %s" % (x[2], x[0]))
        elif z == "mod":
            p = r.choice(files0)
            W.put(p, Tree(r) if r.random() < .7 else plain(r), W.tick(), "o")
            S.count("modified")
        elif z == "rm" and W.files:
            p = r.choice(sorted(W.files))
            W.rm(p)
            S.count("removed")
            if not W.fs and r.random() < .3 and p not in W.files:
                W.mkdir(p, r.choice([W.clock, W.tick()]) % 10**9)
                S.count("replaced by a directory")
    for x in ls:
        S.add("arall " + x)
    return opened

WEIGHTS = {
    "list": [4, 1, 1, 10, 22, 3, 4, 2, 2, 3, 1, 1, 0, 0],
    "open": [3, 1, 1, 4, 5, 1, 1, 0, 0, 14, 6, 5, 0, 0],
    "query": [14, 5, 5, 6, 6, 3, 1, 0, 1, 4, 1, 1, 0, 0],
    "modify": [12, 3, 4, 8, 8, 3, 1, 0, 1, 6, 2, 2, 6, 1.2],
}

def trees(seed, n, mode):
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        fs = r.random() < .15
        S.new(mode + ("-fs" if fs else ""))
        W = World(S, fs)
        W.readers = ["r1"] if r.random() < .8 else ["r1", "r2"]
        W.clock = r.choice([1, 1000, 1500000000, 4000000000 if not fs else 1])
        # the first opener that has a file is the one that is used
        W.os = ["FS"] if fs else ["o"] if r.random() < .8 else ["o", "p"]
        for x in W.readers:
            S.add("arnew %s %s" % (x, " ".join(W.os)))
        damage = r.choice([.15, .4, 1]) if r.random() < .25 else 0
        S.count("damaged" if damage else "sound")
        for j in range(r.choice([1, 1, 2, 3])):
            base = r.choice(["a", "ab", "x.tar", "top/x.tar", "top/deep/a.zip", "top/a"])
            if any(b == base or b.startswith(base + "/") or base.startswith(b + "/") for b in W.files):
                continue
            t = Tree(r, chain=r.randint(6, 13)) if r.random() < .02 else Tree(r, big=r.random() < .08, damage=damage) if r.random() < .88 else plain(r)
            W.put(base, t, W.clock, r.choice(W.os))
            S.count("kind:" + t.kind)
        if not fs and r.random() < .3:
            S.add("ardir o top 5")
        ops(W, r.choice([5, 15, 30, 60]), WEIGHTS[mode])
        S.count("fs" if fs else "mem")
    return S

# ---- histories that TLC generates ------------------------------------------
class Made(Tree):
    """A plain file with the members of a model."""
    def __init__(self, r, ms, depth=0):
        self.kind = r.choice(["tar", "tar", "zip", "rpm"]) if ms else "plain"
        self.ms, self.wild = [], 0
        for x in ms:
            c = Made(r, x["sub"], depth + 1) if x["sub"] else None
            self.ms.append(M(x["p"], x["ty"], c.data if c else content(r) if x["ty"] == FILE else b"", 0, c.ms if c else (), x["late"]))
        self.all = self.ms
        self.data = ENC[self.kind](r, self.ms) if ms else content(r)
        while ms and r.random() < (.25 if depth == 0 else .15):
            self.data = compress(r, r.choice(["gzip", "bz2", "lzma"]), self.data)

def histories(seed, tests):
    S = Scenarios(seed)
    r = S.r
    for t in tests:
        fs = r.random() < .06
        S.new("tl" + ("-fs" if fs else ""))
        W = World(S, fs)
        W.os = ["FS"] if fs else ["o"]
        W.clock = r.choice([1, 1000, 1500000000])
        S.add("arnew r1 " + W.os[0])
        root = r.choice(["a", "x.tar", "top/a", "top/deep/a.zip"])
        url = lambda u: W.pre + "/".join([root] + u[1:])
        v = 0
        W.put(root, Made(r, t["world"][0]), W.clock)
        live = []
        for o in t["ops"]:
            if o[0] == "touch":
                v += 1
                W.put(root, Made(r, t["world"][v]), W.tick())
            elif o[0] == "rm":
                W.rm(root)
            elif o[0] == "ls":
                S.add("arls r1 %s %s" % (o[1], url(o[2])))
                live.append(o[1])
            elif o[0] == "nx":
                S.add("arnx " + o[1])
            elif o[0] == "del":
                S.add("arlsdel " + o[1])
                live = [x for x in live if x != o[1]]
            elif o[0] == "cp":
                S.add("%s %s %s" % ("aras" if o[1] in live else "arcp", o[1], o[2]))
                live.append(o[1])
            elif o[0] == "stat":
                S.add("arstat r1 " + url(o[1]))
            elif o[0] == "isa":
                S.add("arisarch r1 " + url(o[1]))
                S.add("arcan r1 " + url(o[1]))
            S.count("op:" + o[0])
        for l in sorted(set(live)):
            S.add("arall " + l)
    return S
