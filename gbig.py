"""Streams and archives of many gigabytes. All amounts are in blocks of 512 bytes."""
import json, struct
import gen, garch
from gen import Scenarios
from garch import tar_header, member, Archive, dostime, mtime, fname

U = 512
G2, G4 = (1 << 31) // U, (1 << 32) // U

def length(r, mx=900000000):
    """a length around a limit of 32 bit arithmetic"""
    b = r.choice([G2, G2, G4, G4, 3 * G2, 2 * G4, r.randrange(G2, 3 * G4), min(mx, r.randrange(G4, 800000000))])
    return max(1, min(mx, b + r.choice([-3, -2, -1, 0, 0, 1, 2, 3, r.randint(-5000, 5000)])))

def ops(S, s, L, n=None, end=True, cheap=True):
    """cheap: skipping costs nothing"""
    r = S.r
    def small():
        return r.choice([1, 1, 2, 3, 8, 64, r.randint(1, 300)])
    def read():
        mn = small()
        S.add("read %s %d %d" % (s, mn, mn + r.choice([0, 0, 1, 5, 100])))
    def far():
        return r.choice([G2, G2 - 1, G2 + 1, G4 - 1, G4, G4 + 1, G2 * 3, r.randrange(1, G4), L // 2, max(0, L - small()), L + 1, L])
    for _ in range(n or r.randint(3, 14)):
        k = r.random()
        if k < .45:
            read()
        elif k < .75:
            S.add("skip %s %d" % (s, far() if r.random() < .6 else small()))
        elif k < .9:
            S.add("rel %s %d" % (s, r.choice([0, 0, 500, 1000])))
        elif k < .95:
            S.add("back %s %d" % (s, small()))
        elif cheap:
            S.add("reset %s %d" % (s, min(L, r.choice([0, far(), far()]))))
    if end:
        S.add("skip %s %d" % (s, L), "read %s 1 1" % s)
        if r.random() < .5 and cheap:
            S.add("reset %s 0" % s, "read %s 1 3" % s, "skip %s %d" % (s, max(0, L - r.choice([1, 2, 5]))), "read %s 1 1" % s, "read %s 9 9" % s, "read %s 1 1" % s)

def source(S, name, v, L, k=None, gen_=None):
    r = S.r
    k = k or r.choice(["virt", "virt", "virt", "virt", "mmap", "unbuffered", "auto"])
    S.add("bsrc %s %s %s known=%d eager=%d gen=%d seed=%d" % (name, k, v, r.random() < .5, r.random() < .5, r.random() < .5 if gen_ is None else gen_, r.randrange(1 << 30)))
    S.count("big:" + k)
    return k

def virt(S, L, overlays=(), zero=None):
    """declares virtual content and some blocks of it that are not zero"""
    r = S.r
    zero = r.random() < .3 if zero is None else zero
    S.add("virt v %d zero=%d" % (L, zero))
    if zero:
        for o in sorted({0, L // 2, max(0, L - 8), G2 - 2, G4 - 2, G4 + 1} | {r.randrange(L) for _ in range(3)}):
            if 0 <= o < L - 4:
                S.add("vput v %d count=4" % (o * U))
    return zero

FILEMAX = 1 << 25      # 16 GiB
def streams(S):
    r = S.r
    k = r.choice(["mmap", "unbuffered", "auto", "mmap", "unbuffered", "auto", "virt"] + (["buffered", "ctor", "tbuf"] if r.random() < .04 else []))
    slow = k in ("buffered", "ctor", "tbuf")
    L = length(r, G4 + 5000 if slow else FILEMAX if k != "virt" else 900000000)
    virt(S, L, zero=True if k != "virt" else None)
    S.add("bsrc s %s v known=%d eager=%d gen=1" % (k, r.random() < .5, r.random() < .5))
    S.add("expect s kind=%s end=clean virt=v unit=512 base=0 L=%d decl=%d rew=%d" % ("file" if k not in ("virt", "tbuf") else "chunk", L, L, 0 if slow else 1))
    S.count("bigstream:" + k)
    if slow:
        S.add("read s 1 5", "skip s %d" % (G2 - r.choice([0, 10])), "read s 5 9", "rel s 500", "read s 2 2", "skip s %d" % (max(0, L - G2 - 100) if r.random() < .5 else G2))
        ops(S, "s", L, 4, end=True, cheap=False)
    else:
        ops(S, "s", L)

def sub(S):
    r = S.r
    P = length(r)
    fileok = P <= FILEMAX
    zero = virt(S, P, zero=True if fileok and r.random() < .5 else None)
    source(S, "p", "v", P, "virt" if not (fileok and zero) else None)
    o0 = min(P, r.choice([0, 0, 1, r.randrange(P), length(r), max(0, P - 10)]))
    if o0:
        S.add("skip p %d" % o0)
    left = P - o0
    z = r.random()
    if z < .2:
        ln, end, L = -1, "clean", left
    elif z < .8:
        L = ln = min(left, r.choice([length(r), left, max(0, left - 1), 5]))
        end = "clean"
    else:
        ln, end, L = left + r.choice([1, 2, G2, G4]), "error", left
    S.add("flt s sub p len=%d unit=%d" % (ln, U if ln >= 0 else 1))
    S.add("expect s kind=sub end=%s virt=v unit=512 base=%d L=%d o0=%d decl=%d" % (end, o0, L, o0, ln if end == "clean" else -1))
    if r.random() < .3 and end == "clean" and L > 3:
        S.count("bigsub:nested")
        o1 = r.choice([0, 1, r.randrange(L), L - 2])
        S.add("skip s %d" % o1)
        l1 = r.choice([-1, L - o1, max(0, L - o1 - 1), r.randint(0, L - o1)])
        S.add("flt t sub s len=%d unit=%d" % (l1, U if l1 >= 0 else 1))
        L1 = L - o1 if l1 < 0 else l1
        S.add("expect t kind=sub end=clean virt=v unit=512 base=%d L=%d o0=%d decl=%d" % (o0 + o1, L1, o1, l1))
        ops(S, "t", L1, cheap=False)
        return
    ops(S, "s", L, cheap=False)
    S.count("bigsub:" + end)

def term(S):
    """a terminator far into the parent"""
    r = S.r
    P = length(r)
    virt(S, P, zero=False)
    o0 = max(0, P - r.randint(1, 400))
    n = P - o0
    t = bytes([r.randrange(256)]) * 3 + r.randbytes(U - 3)
    at = r.randrange(n + 1)
    found = at < n
    if found:
        S.add("vput v %d %s" % ((o0 + at) * U, S.blob(t)))
    source(S, "p", "v", P, "virt", gen_=r.random() < .5)
    S.add("skip p %d" % o0, "flt s term p t=%s" % t.hex())
    S.add("expect s kind=term end=clean virt=v unit=512 base=%d L=%d o0=%d tl=%d" % (o0, at, o0, 1 if found else 0))
    S.count("bigterm")
    for _ in range(r.randint(0, 6)):
        S.add(r.choice(["read s %d 0" % r.randint(1, 5), "rel s 0", "skip s 3"]))
    S.add("drain s 1 0 3000", "read s 1 1")

def big_archive(r, fmt):
    """(archive in units, overlays, [base of the members])"""
    a = Archive("big")
    over, bases, off, total = [], [], 0, 0
    n = r.choice([1, 1, 2, 2, 3])
    mx = {"tar": (8**11 - 1) // U, "zip": G4 - 1, "ar": 9999999999 // U, "cpio": G4 - 1}[fmt]
    style = r.choice(["gnu", "ustar"])
    def put(b):
        nonlocal off
        over.append((off, b))
        off += len(b)
    if fmt == "ar":
        put(b"!<arch>\n")
    huge = r.randrange(n)
    for i in range(n):
        L = length(r, mx) if i == huge or r.random() < .3 else r.choice([0, 1, 2, 10, 100])
        name = fname(r, {"tar": 99, "zip": 60, "ar": 14, "cpio": 60}[fmt], b"abcdXYZ019_-", slash=False)
        if fmt == "tar":
            mt = mtime(r)
            put(tar_header(name, L * U, mt, b"0", r, style))
        elif fmt == "zip":
            dos, mt = dostime(r)
            put(struct.pack("<4sHHHIIIIHH", b"PK\3\4", 20, 0, 0, dos, 0, L * U, L * U, len(name), 0) + name)
        elif fmt == "ar":
            mt = mtime(r)
            if mt > 999999999999: mt = 5
            put((name + b"/").ljust(16) + (b"%d" % mt).ljust(12) + b"0     0     100644  " + (b"%d" % (L * U)).ljust(10) + b"`\n")
        else:
            mt = mtime(r, (1 << 32) - 1)
            h = b"070701" + b"".join(b"%08X" % x for x in (1, 0o100644, 0, 0, 1, mt, L * U, 8, 1, 0, 0, len(name) + 1, 0)) + name + b"\0"
            put(h + bytes(-len(h) % 4))
        m = member(name, b"", mt, sz=L, len=L, dl=L)
        a.ms.append(m)
        bases.append(off)
        off += L * U
    if fmt == "tar":
        put(bytes(1024))
    elif fmt == "zip":
        # a central directory that only has to be recognised
        put(struct.pack("<4sHHHHIIIIHHHHHII", b"PK\1\2", 20, 20, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0) + b"x" + struct.pack("<4sHHHHIIH", b"PK\5\6", 0, 0, n, n, 47, 0, 0))
    elif fmt == "cpio":
        h = b"070701" + b"0" * 88 + b"0000000B" + b"0" * 8 + b"TRAILER!!!\0"
        put(h + bytes(-len(h) % 4))
    return a, over, bases, off

def archive(S):
    r = S.r
    fmt = r.choice(["tar", "tar", "zip", "ar", "cpio"])
    a, over, bases, total = big_archive(r, fmt)
    cut = None
    if r.random() < .2:    # the end is missing
        i = r.randrange(len(a.ms))
        if a.ms[i]["len"] > 1:
            cut = bases[i] + r.randrange(1, a.ms[i]["len"]) * U
    fileok = total <= FILEMAX * U
    zero = fileok and r.random() < .5
    ln = total if cut is None else cut
    S.add("virt v %d zero=%d plus=%d" % (ln // U, zero, ln % U))
    for o, b in over:
        if o < ln:
            S.add("vput v %d %s" % (o, S.blob(b[:ln - o])))
    if zero:
        for i, m in enumerate(a.ms):
            for k in (0, m["len"] // 2, m["len"] - 2):
                o = bases[i] + k * U
                if 0 <= k and m["len"] > 8 and o + 2 * U < ln:
                    S.add("vput v %d count=2" % o)
    source(S, "p0", "v", 0, "virt" if not zero else None)
    S.add("prov p %s p0" % fmt)
    ms = []
    for i, m in enumerate(a.ms):
        x = {k: v for k, v in m.items() if k[0] != "_"}
        x["name"] = garch.esc(m["name"])
        ms.append(x)
    vis = ms if cut is None else ms[:i + 1] if False else ms
    if cut is not None:
        j = max(k for k in range(len(ms)) if bases[k] <= cut)
        ms = ms[:j + 1]
        full = ms[j]["len"]
        have = (cut - bases[j]) // U
    S.add("pexp p " + json.dumps(dict(fmt="big", cut=1 if cut is None else 0, total=1, trail=0, flt=0, end="clean" if cut is None else "error", ms=ms), separators=(",", ":")))
    for k, m in enumerate(ms):
        S.add("ment p %d virt=v unit=512 base=%d L=%d" % (k, bases[k], m["len"]))
    for k, m in enumerate(ms):
        S.add("next p")
        z = r.random()
        if z < .3:
            continue
        if z < .5:
            S.add("skip p.e %d" % r.choice([m["len"], G2, G4, max(0, m["len"] - 1)]), "read p.e 1 1")
            continue
        ops(S, "p.e", m["len"], end=r.random() < .5, cheap=False)
    S.add("next p", "next p")
    S.count("bigarchive:%s%s" % (fmt, ":cut" if cut is not None else ""))

def tail(S):
    """an archive, damaged or not, and gigabytes of other data behind it"""
    r = S.r
    k = r.choice(["tar", "zip", "cpio", "rpm", "ole", "ole"])
    d = garch.fuzzbase(r, k) if r.random() < .7 else garch.small_archive(r, k).data
    P = length(r) if r.random() < .8 else len(d) // U + r.choice([1, 20, 30000])
    S.add("virt v %d zero=%d" % (max(P, len(d) // U + 1), k != "tar" and r.random() < .5))
    if d:
        S.add("vput v 0 " + S.blob(d))
    source(S, "s", "v", P, "virt")
    S.add("prov p %s s" % k, "pwalk p 1 -7 4000000 60000000", "next p", "next p", "pfin p")
    S.count("bigtail:" + k)

def hugeread(S):
    """a minimum for which the buffer cannot double any more"""
    r = S.r
    G1 = (1 << 30) // U
    L = 2 * G1 + r.randint(-5, 5)
    S.add("virt v %d zero=1" % L)
    for o in (0, 5, G1 - 1, G1, G1 + G1 // 4, G1 + G1 // 4 + 70, L - 5):
        S.add("vput v %d count=1" % (o * U))
    S.add("bsrc s tbuf v known=%d eager=%d gen=1" % (r.random() < .5, r.random() < .5))
    S.add("expect s kind=chunk end=clean virt=v unit=512 base=0 L=%d decl=%d rew=0" % (L, L))
    a = G1 + r.randint(0, 5)
    b = a + r.randint(1, G1 // 4)
    S.add("read s %d %d" % (a, a), "rel s 0", "read s %d %d" % (b, b), "rel s 500", "read s 1 3")
    S.count("hugeread")

def reader(S):
    """ArchiveReader over a file of many gigabytes"""
    r = S.r
    real = r.random() < .03        # a real file is read to its end, which takes time
    while True:
        fmt = "tar" if real else r.choice(["tar", "tar", "zip", "ar"])
        a, over, bases, total = big_archive(r, fmt)
        names = [m["name"].decode() for m in a.ms]
        if total <= (G4 + G2 if real else 100 * FILEMAX) * U and len(set(names)) == len(names):
            break
    S.add("virt v %d zero=%d plus=%d" % (total // U, real or r.random() < .3, total % U))
    for o, b in over:
        S.add("vput v %d %s" % (o, S.blob(b)))
    for i, m in enumerate(a.ms):
        for k in (1, m["len"] // 2, m["len"] - 2):
            if 0 < k and m["len"] > 8:
                S.add("vput v %d count=2" % (bases[i] + k * U))
    sub = [dict(p=[n], ty=2, sz=m["len"], mt=m["mt"], mth=m["mth"], c=i, sub=[], late=0, wild=0) for i, (n, m) in enumerate(zip(names, a.ms))]
    fm = dict(ty=2, sz=total // U if total % U == 0 else -2, mt=1000, mth=0, c=-1, sub=sub, wild=0)
    o = "FS" if real else "o"
    u = "@/d/big." + fmt if real else "d/big." + fmt
    S.add("arnew r " + o, "arfile %s %s - 1000 virt=v json=%s known=%d eager=%d gen=%d seed=%d" % (o, u, json.dumps(fm, separators=(",", ":")), r.random() < .5, r.random() < .5, r.random() < .5, r.randrange(1 << 30)))
    for j in range(2 if real else r.randint(3, 8)):
        i = r.randrange(len(names))
        z = r.random()
        if z < .2:
            S.add("arstat r " + u)
        elif z < .4:
            S.add("arls r l%d %s" % (j, u), "arall l%d" % j)
        elif z < .6:
            S.add("arstat r %s/%s" % (u, names[i]))
        elif z < .7:
            S.add("arisarch r " + u, "arcan r %s/%s" % (u, names[i]))
        else:
            s, L = "s%d" % j, a.ms[i]["len"]
            S.add("aropen r %s %s/%s c=%d virt=v base=%d L=%d" % (s, u, names[i], i, bases[i], L))
            ops(S, s, L, end=r.random() < .5, cheap=False)
            if r.random() < .7:
                S.add("arclose r " + s)
    S.count("bigreader:%s%s" % (fmt, ":file" if real else ""))

def big(seed, n, modes=("streams", "sub", "term", "archive")):
    S = Scenarios(seed)
    for i in range(n):
        m = S.r.choice(modes)
        S.new("big-" + m)
        globals()[m](S)
    return S
