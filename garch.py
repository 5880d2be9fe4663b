"""Archives with exact models of their layout, written by the generators themselves (no library of the code under test)."""
import base64, bz2, gzip, lzma, struct, zlib, time, calendar, random
import gen
from gen import Scenarios, source, content, rnd_bytes, compress, ops

FILE, DIR = 2, 1          # EntryInfo::Type
UNKNOWN = 0
NOTDIR = -2               # anything but a directory

def member(name, data, mt, ty=FILE, **kw):
    m = dict(name=name, sz=len(data), mt=mt % 10**9 if mt >= 0 else -1, mth=mt // 10**9 if mt >= 0 else 0, ty=ty, len=len(data), dl=len(data),
             ll=0, kl=0, nl=0, xl=0, dd=0, vis=1, dfl=0)
    m.update(kw)
    m["_data"] = data
    return m

def esc(b):
    """The form in which the driver logs strings."""
    r = ""
    for c in b:
        if c in (0x22, 0x5c):
            r += chr(c)       # json.dumps escapes it
        elif c < 0x20 or c > 0x7e:
            r += "%%%02x" % c
        elif c == 0x25:
            r += "%25"
        else:
            r += chr(c)
    return r

class Archive:
    def __init__(self, fmt):
        self.fmt, self.ms, self.out, self.trail = fmt, [], bytearray(), 0
        self.hdr = None
    def finish(self, trailer=b""):
        self.out += trailer
        self.trail = len(trailer)
        self.data = bytes(self.out)
        return self
    def model(self, cut=None, flt=0, end="clean"):
        ms = []
        for m in self.ms:
            x = {k: v for k, v in m.items() if k[0] != "_"}
            x["name"] = esc(m["name"])
            ms.append(x)
        r = dict(fmt=self.fmt, cut=len(self.data) if cut is None else cut, total=len(self.data), trail=self.trail, flt=flt, end=end, ms=ms)
        if self.hdr is not None:
            r["hdr"] = {k: esc(v) for k, v in self.hdr.items()}
        return r

# ---------------------------------------------------------------- content and names
def mdata(r):
    z = r.random()
    if z < .12:
        return b""
    if z < .5:
        return rnd_bytes(r, r.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 63, 64, 65]), r.choice([2, 256]))
    if z < .85:
        return rnd_bytes(r, r.choice([r.randint(1, 600), 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]), r.choice([4, 256]))
    if z < .985:
        return rnd_bytes(r, r.randint(600, 20000), r.choice([4, 256]))
    return rnd_bytes(r, r.choice([65536, 100000, 262143, 300000]), r.choice([4, 256]))

def fname(r, mx=99, chars=b"abcdefgXYZ0189_-+ .,%\"\\\xc3\xa9\xff", slash=True, dots=.12, tail=True):
    n = r.choice([1, 2, 3, 5, 8, 12, 20, r.randint(1, mx), mx])
    n = min(n, mx)
    s = bytearray(r.choice(chars) for _ in range(n))
    if slash and n > 4 and r.random() < .5:
        s[r.randint(1, n - 2)] = 0x2f
    if s[0] in b". ":
        s[0] = 0x61
    if s[-1] in b"/ .":
        s[-1] = 0x62
    if n > 12 and slash and r.random() < .2:      # several directories
        for q in range(3, n - 2, r.choice([3, 5, 9])):
            if 0x2f not in s[q - 1:q + 2]:
                s[q] = 0x2f
    if n > 3 and r.random() < dots:               # hidden files and the like
        k = r.choice([b".", b".", b"..", b"...", b"a."] + ([b"- "] if 0x20 in chars else []))
        s[:len(k)] = k
        if s[1] == 0x2f or s[2] == 0x2f:
            s[1] = s[2] = 0x63
    if n > 3 and tail and r.random() < .04:
        s[-1] = r.choice(b" ." if 0x20 in chars else b".")
    return bytes(s)

def longname(r, usual, p=.03):
    """the greatest length of a name, seldom a large one"""
    return r.choice([1023, 1025, 1100, 4095, 4096, 4097, 5000, 20000]) if r.random() < p else usual

def mtime(r, mx=(1 << 33) - 1):
    return min(mx, r.choice([0, 1, 1234567890, 86399, 86400, r.randrange(1 << 31), (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.randrange(1 << 32), mx, r.randrange(mx)]))

def nmembers(r):
    return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8])

# ---------------------------------------------------------------- tar
def tar_header(name, size, mt, tf, r, style, prefix=b"", mode=0o644, link=b""):
    h = bytearray(512)
    h[0:len(name)] = name
    def octal(off, n, v):
        s = b"%0*o" % (n - 1, v) + b"\0"
        h[off:off + n] = s
    octal(100, 8, mode); octal(108, 8, r.randrange(4096)); octal(116, 8, r.randrange(4096))
    h[124:136] = b"%011o" % size + r.choice([b"\0", b" "])
    h[136:148] = b"%011o" % mt + r.choice([b"\0", b" "])
    if size < 8**10 and r.random() < .1:
        h[124:136] = b"%11o " % size
    h[156:157] = tf
    h[157:157 + len(link)] = link
    if style == "ustar":
        h[257:265] = b"ustar\x0000"
        h[265:269] = b"user"; h[297:301] = b"grp\0"
        if prefix:
            h[345:345 + len(prefix)] = prefix
    elif style == "gnu":
        h[257:265] = b"ustar  \0"
        if r.random() < .4:        # where ustar has the prefix, there are times of access and change here
            h[345:357] = b"%011o\0" % r.randrange(1 << 31)
            h[357:369] = b"%011o\0" % r.randrange(1 << 31)
    h[148:156] = b"        "
    c = sum(h)
    h[148:156] = b"%06o\0 " % c
    return bytes(h)

def pad(b, k):
    return b + bytes(-len(b) % k)

def tar(r, n=None, datas=None):
    a = Archive("tar")
    style = r.choice(["gnu", "gnu", "ustar", "v7"])
    n = nmembers(r) if n is None else n
    if n == 0 and datas is None:
        n = 1
    for i in range(n):
        d = mdata(r) if datas is None else datas[i]
        mt = mtime(r)
        z = r.random()
        ll = kl = 0
        pre = dot = b""
        if datas is not None:
            z = .1
        if z < .55:
            name, raw, ty, tf = fname(r), None, FILE, r.choice([b"0", b"0", b"\0"])
            raw = name
        elif z < .68:
            name, ty, tf, d = fname(r, 90), DIR, b"5", b""
            raw = name + (b"/" if r.random() < .8 else b"")
        elif z < .76:
            name, ty, tf, d = fname(r), UNKNOWN, r.choice([b"1", b"2", b"2", b"3", b"4", b"6"]), b""
            raw = name
        elif z < .84:
            name, ty, tf = fname(r, 60), FILE, b"0"
            raw = b"./" + name
        elif z < .9 and style == "ustar":
            name, ty, tf = fname(r, 100), FILE, b"0"
            pre = fname(r, 155)
            raw = name
            name = pre + b"/" + raw
        elif style != "ustar":
            name, ty, tf = fname(r, longname(r, r.choice([101, 120, 511, 512, 513, 700]), .1)), FILE, b"0"
            if r.random() < .5:
                name = (name + bytes([0x71]) * 101)[:r.choice([101, 102, 150, 511, 512, 513, 600])]
            if r.random() < .15:
                tf, ty, d = b"5", DIR, b""
                name = name[:-1] + b"x"
            if r.random() < .3 and not name.startswith(b"./"):
                dot = b"./"
            ll = len(dot + name) + r.choice([1, 1, 0])
            raw = (dot + name)[:100]
        else:
            name, raw, ty, tf = fname(r, 100), None, FILE, b"0"
            raw = name
        if style == "gnu" and tf == b"2" and r.random() < .6 and not ll:
            link = b"l" * r.choice([101, 200, 511, 512, 600])
            kl = len(link) + 1
        def longlink(payload, t):
            a.out += tar_header(b"././@LongLink", len(payload), 0, t, r, style)
            a.out += pad(payload, 512)
        if kl and r.random() < .5:
            longlink(link + b"\0", b"K")
            kdone = True
        else:
            kdone = False
        if ll:
            longlink((dot + name + b"\0")[:ll], b"L")
        if kl and not kdone:
            longlink(link + b"\0", b"K")
        a.out += tar_header(raw, len(d), mt, tf, r, style, pre, link=b"target" if tf in (b"1", b"2") else b"")
        a.out += pad(d, 512)
        a.ms.append(member(name, d, mt, ty, ll=ll, kl=kl))
        if r.random() < .04 and datas is None and i == 0:
            # "./" itself is not an entry
            a.out += tar_header(b"./", 0, mt, b"5", r, style)
            a.ms.append(member(b".", b"", mt, DIR, vis=0))
    k = r.choice([2, 2, 2, 3, 20])
    return a.finish(bytes(512 * k))

# ---------------------------------------------------------------- zip
def dostime(r):
    y, mo, d = r.choice([1980, 1999, 2000, 2024, 2037, 2099, 2107]), r.randint(1, 12), r.randint(1, 28)
    if r.random() < .2:
        y, mo, d = r.choice([(1980, 1, 1), (2000, 2, 29), (2004, 12, 31), (2100, 3, 1), (2107, 12, 31)])
    h, m, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 29) * 2
    dos = ((y - 1980) << 25) | (mo << 21) | (d << 16) | (h << 11) | (m << 5) | (s // 2)
    return dos, calendar.timegm((y, mo, d, h, m, s, 0, 0, 0))

def zip_(r, n=None, datas=None):
    a = Archive("zip")
    n = max(1, nmembers(r)) if n is None else n
    cd = b""
    for i in range(n):
        d = mdata(r) if datas is None else datas[i]
        dos, mt = dostime(r)
        ty = FILE
        name = fname(r, longname(r, r.choice([30, 30, 300])))
        raw = name
        if r.random() < .12 and datas is None:
            ty, d, raw = DIR, b"", name + b"/"
        method = r.choice([0, 8, 8])
        dd = 0
        c = d
        dfl = 0
        if method == 8:
            z = zlib.compressobj(r.choice([1, 6, 9, 0]), zlib.DEFLATED, -15)
            c = z.compress(d) + z.flush()
            dfl = 1
            if r.random() < (.4 if ty == FILE else .2):
                dd = r.choice([12, 16])
        crc = zlib.crc32(d)
        extra = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 4, 9, 28, 300, longname(r, 20, .3)])))
        if r.random() < .01:
            extra = bytes(r.choice([32767, 32768, 40000, 65535]))
        fl = (8 if dd else 0) | r.choice([0, 0, 0x800, 2, 4, 6, 0x806] if method == 8 else [0, 0, 0x800])
        known = not dd or r.random() < .2          # some writers fill in the sizes and add a descriptor all the same
        h = struct.pack("<4sHHHIIIIHH", b"PK\3\4", r.choice([10, 20, 20, 45]), fl, method, dos, crc if known else 0, len(c) if known else 0, len(d) if known else 0, len(raw), len(extra))
        off = len(a.out)
        a.out += h + raw + extra + c
        if dd:
            a.out += (b"PK\7\x08" if dd == 16 else b"") + struct.pack("<III", crc, len(c), len(d))
        a.ms.append(member(name, d, mt, ty, nl=len(raw), xl=len(extra), dl=len(c), dd=dd, dfl=dfl, sz=-1 if dd else len(d)))
        cd += struct.pack("<4sHHHHIIIIHHHHHII", b"PK\1\2", 20, 20, fl, method, dos, crc, len(c), len(d), len(raw), 0, 0, 0, 0, 0, off) + raw
    t = cd + struct.pack("<4sHHHHIIH", b"PK\5\6", 0, 0, n, n, len(cd), len(a.out), 0)
    return a.finish(t)

# ---------------------------------------------------------------- ar
def ar(r, n=None, datas=None):
    a = Archive("ar")
    style = r.choice(["gnu", "gnu", "bsd"])
    a.out += b"!<arch>\n"
    n = nmembers(r) if n is None else n
    def hdr(name, size, mt):
        h = name.ljust(16) + (b"%d" % mt).ljust(12) + b"0     0     100644  " + (b"%d" % size).ljust(10) + b"`\n"
        assert len(h) == 60
        return h
    def put(name, d, mt, **kw):
        a.out += hdr(name, len(d), mt) + d
        if len(d) % 2:
            a.out += b"\n"
        a.ms.append(member(kw.pop("real", name), d, mt, **kw))
    items = []
    for i in range(n):
        d = mdata(r) if datas is None else datas[i]
        long = style == "gnu" and r.random() < .4
        if long:
            name = fname(r, longname(r, r.choice([16, 17, 40, 120])), b"abcdefg XYZ0189_-+.,\xc3\xa9")
            name = (name + b"q" * 17)[:max(len(name), 16)]
            if b"/" in name and (name.endswith(b"/") or name.startswith(b"/") or r.random() < .5):
                name = name.replace(b"/", b"_")
        else:
            name = fname(r, 15 if style == "gnu" else 16, b"abcdefgXYZ0189_-+.,\xc3\xa9" + (b" " if style == "gnu" else b""), slash=False, tail=style == "gnu")
        items.append((name, long, d, mtime(r, 10**11 - 1)))
    for _ in range(r.choice([1, 1, 1, 2]) if style == "gnu" and r.random() < .4 else 0):
        put(b"/", rnd_bytes(r, r.choice([0, 4, 5, 30, 900])), 0, vis=0)
    longs = b""
    offs = {}
    for name, long, d, mt in items:
        if long and name not in offs:
            offs[name] = len(longs)
            longs += name + b"/\n"
    if longs:
        put(b"//", longs, 0, vis=0)
    for name, long, d, mt in items:
        put(b"/%d" % offs[name] if long else name + (b"/" if style == "gnu" else b""), d, mt, real=name)
    return a.finish(b"")

# ---------------------------------------------------------------- cpio
def cpio(r, n=None, datas=None):
    a = Archive("cpio")
    n = nmembers(r) if n is None else n
    def hdr(name, size, mt, mode):
        f = "%08x" if r.random() < .5 else "%08X"
        h = b"070701" + "".join(f % x for x in (r.randrange(1 << 31), mode, r.randrange(1 << 16), r.randrange(1 << 16), 1, mt, size, 8, 1, 0, 0, len(name) + 1, 0)).encode()
        return pad(h + name + b"\0", 4)
    for i in range(n):
        d = mdata(r) if datas is None else datas[i]
        name = fname(r, longname(r, r.choice([20, 20, 200])))
        if r.random() < .02:
            name = r.choice([b"TRAILER!!!x", b"a/TRAILER!!!", b"TRAILER!!", b"TRAILER!!!/a", b"trailer!!!"])
        mt = mtime(r, (1 << 32) - 1)
        mode, ty = 0o100644, FILE
        if r.random() < .15 and datas is None:
            mode, ty, d = 0o40755, DIR, b""
        elif r.random() < .1:             # links, and with no data pipes, devices and sockets
            mode = r.choice([0o120777, 0o100755, 0o104711] + ([] if d else [0o10644, 0o20644, 0o60644, 0o140755]))
            ty = FILE if mode >> 12 == 8 else NOTDIR
        raw = (b"./" if r.random() < .2 else b"") + name
        a.out += hdr(raw, len(d), mt, mode) + pad(d, 4)
        a.ms.append(member(name, d, mt, ty, nl=len(raw) + 1))
    t = hdr(b"TRAILER!!!", 0, 0, 0)
    return a.finish(t + bytes(r.choice([0, 0, 4, 512 - (len(a.out) + len(t)) % 512])))

# ---------------------------------------------------------------- rpm
def rpm(r, n=None, datas=None):
    c = cpio(r, n, datas)
    a = Archive("rpm")
    a.ms = c.ms
    def header(magic=True, align=False):
        k = r.randint(1, 5)
        store = rnd_bytes(r, r.randint(k * 4, 80))
        offs = sorted(r.randrange(len(store)) for _ in range(k))
        h = b"\x8e\xad\xe8\x01" + bytes(4) + struct.pack(">II", k, len(store))
        for o in offs:
            h += struct.pack(">IIII", r.randrange(1000, 1200), r.choice([4, 6, 8]), o, 1)
        h += store
        return h + bytes(-(k * 16 + len(store)) % 8) if align else h
    lead = b"\xed\xab\xee\xdb\x03\x00" + rnd_bytes(r, 90)
    a.comp = r.choice(["gzip", "bz2", "lzma"])
    a.payload = compress(r, a.comp, c.data)
    head = lead + header(align=True) + header()
    a.head = len(head)
    a.cpio = c.data
    a.out += head + a.payload
    return a.finish()

def rpm_cut_end(a, cut):
    """error if the cut payload cannot hold the trailer of the cpio archive"""
    p = a.payload[:max(0, cut - a.head)]
    if cut < a.head + 16:
        return "error"
    try:
        d = {"gzip": lambda: zlib.decompressobj(31), "bz2": bz2.BZ2Decompressor, "lzma": lambda: lzma.LZMADecompressor(lzma.FORMAT_ALONE)}[a.comp]()
        out = d.decompress(p)
    except Exception:
        return "any"
    return "any" if b"TRAILER!!!\0" in out else "error"

# ---------------------------------------------------------------- mail
def mail_word(r, chars="abcdefghij XYZ019.,-_<>@()", mx=60):
    n = r.choice([1, 3, 8, 20, r.randint(1, mx)] + [mx] * (3 if mx > 60 else 0))
    s = "".join(r.choice(chars) for _ in range(n)).strip() or "x"
    return s

def fold(r, v, nl):
    """folds at white space"""
    if r.random() < .4 and " " in v[1:-1]:
        i = v.index(" ", 1)
        if v[i - 1] != " " and v[i + 1:i + 2] not in (" ", ""):
            return v[:i] + nl + v[i:]
    return v

def mail_header(r, nl, kind):
    """(raw header lines, expected values)"""
    exp = dict(subject="", to="", cc="", bcc="", messageid="", inreplyto="", references="", contenttype="")
    exp["from"] = ""
    names = {"subject": "Subject", "from": "From", "to": "To", "cc": "Cc", "bcc": "Bcc", "messageid": "Message-ID", "inreplyto": "In-Reply-To", "references": "References"}
    keys = [k for k in names if r.random() < .75] or ["subject"]
    r.shuffle(keys)
    out = ""
    if r.random() < .5:
        out += "Received: from a by b; Mon, 1 Jan 2001" + nl
    def other():
        """a field that is of no interest, seldom a long or a folded one"""
        k = r.choice(["Date", "X-To", "MIME-Version", "DKIM-Signature", "X-Subject", "Reply-To", "Content-Language", "Received"])
        v = mail_word(r, mx=longname(r, 60, .05))
        return k + ":" + r.choice([" ", " ", nl + "\t"]) + v + (nl + r.choice([" ", "\t"]) + mail_word(r) if r.random() < .3 else "") + nl
    for k in keys:
        if r.random() < .15:
            out += other()
        hn = names[k]
        hn = r.choice([hn, hn, hn.lower(), hn.upper()])
        v = mail_word(r, mx=longname(r, 60))
        raw = fold(r, v, nl)
        vb = v.encode()
        if k == "subject" and r.random() < .4:
            t = "".join(r.choice("aé日 b=?_€") for _ in range(r.randint(1, 12)))
            z = r.random()
            e = r.choice(["utf-8", "UTF-8", "ISO-8859-1"])
            if e == "ISO-8859-1":
                t = "".join(c for c in t if ord(c) < 256) or "é"
            tb = t.encode(e)
            if z < .5:
                w = "=?%s?B?%s?=" % (e, base64.b64encode(tb).decode())
            else:
                w = "=?%s?Q?%s?=" % (e, "".join("_" if c == 32 else chr(c) if chr(c).isalnum() and c < 128 else "=%02X" % c for c in tb))
            pre, post = r.choice(["", "Re: "]), r.choice(["", " tail"])
            raw = pre + w + post
            vb = (pre + t + post).encode()
        exp[k] = vb
        out += hn + ":" + r.choice([" ", " ", "", "  "]) + raw + nl
    for k in exp:
        if exp[k] == "":
            exp[k] = b""
    return out, exp

def mail(r):
    a = Archive("mail")
    nl = r.choice(["\r\n", "\r\n", "\n"])
    N = nl.encode()
    if r.random() < .25:
        h, exp = mail_header(r, nl, "single")
        if r.random() < .5:
            h += "Content-Type: text/plain; charset=us-ascii" + nl
            exp["contenttype"] = b"text/plain; charset=us-ascii"
        body = rnd_bytes(r, r.choice([1, 5, 100, 3000]), 97).translate(bytes(range(32, 129)) + bytes(range(129, 256)) + bytes(32)) if False else \
            "".join(r.choice("abc \n.-:=") for _ in range(r.choice([1, 5, 100, 3000]))).replace("\n", nl).encode()
        a.out += h.encode() + N + body
        a.ms.append(member(b"body", body, -1, -1, sz=-2))
        a.hdr = exp
        return a.finish()
    h, exp = mail_header(r, nl, "multi")
    count = [0]
    def part_text():
        k = r.choice([1, 3, 10, 40])
        return nl.join("".join(r.choice("abc xyz.-=:\xe9"[:-1]) for _ in range(r.choice([0, 1, 5, 60, 70]))) for _ in range(k)) or "x"
    def build(b, depth):
        """a multipart body with the boundary b"""
        out = b""
        if r.random() < .3 and depth == 0:
            out += b"This is a message in MIME format." + N
            if r.random() < .2:
                out += N + b"--not" + b + N + b"p" * longname(r, 100, .3) + N + b"--" + N
        for i in range(r.choice([1, 1, 2, 2, 3] + ([12] if r.random() < .1 and depth == 0 else []))):
            out += b"--" + b + N
            if depth < 4 and r.random() < .2:
                nb = b"in%d%d" % (depth, r.randrange(100000))
                if r.random() < .3:                # boundaries that begin with each other
                    nb = r.choice([b + b"i", b + b"=%d" % depth])
                fold_ = r.choice([b" ", b" ", N + b"\t", N + b" "])
                out += r.choice([b"Content-Type", b"Content-type", b"content-type"]) + b": multipart/alternative;" + fold_ + r.choice([b"", b"", b"charset=x;" + fold_]) + b"boundary=" + (b'"%s"' % nb) + r.choice([b"", b"", b"; type=x"]) + N
                out += r.choice([b"", b"", b"Content-Transfer-Encoding: 7bit" + N]) + N
                out += build(nb, depth + 1)
                continue
            count[0] += 1
            hd = []
            name = b""
            z = r.random()
            if z < .4:
                name = fname(r, 30, b"abcXYZ019_-+. ;=(", slash=False)
                q = r.random()
                if q < .6 or set(b" ;=(") & set(name):
                    p = b'"' + name + b'"'
                else:
                    p = name
                p += r.choice([b"", b"", b"", b"; size=12"])
                fold_ = r.choice([b" ", b" ", N + b"\t", N + b"   "])
                if r.random() < .6:
                    hd.append(r.choice([b"Content-Disposition: attachment;", b"content-disposition: INLINE;", b"Content-Disposition: attachment; size=12;"]) + fold_ + r.choice([b"filename=", b"filename=", b"FileName="]) + r.choice([b""] * 6 + [b" ", N + b" "]) + p)
                    if r.random() < .5:
                        hd.append(b"Content-Type: application/octet-stream")
                else:
                    hd.append(b"Content-Type: application/octet-stream;" + fold_ + r.choice([b"", b"charset=x;" + fold_]) + b"name=" + p)
            elif r.random() < .7:
                hd.append(b"Content-Type: text/plain")
            enc64 = r.random() < .45
            if enc64:
                hd.append(r.choice([b"Content-Transfer-Encoding: base64", b"content-transfer-encoding: BASE64"]))
                d = mdata(r)
                if len(d) > 30000:
                    d = d[:30000]
                raw = b"".join(base64.b64encode(d[k:k + 57]) + N for k in range(0, len(d), 57)) or N
            else:
                if r.random() < .3:
                    hd.append(b"Content-Transfer-Encoding: 7bit")
                raw = (part_text() + nl).encode()
                if raw.lstrip(b"\r\n") == b"":
                    raw = b"x" + N
                d = raw
            if r.random() < .1:
                hd.append(r.choice([b"Content-ID: <1>", b"Content-Description: the name of it", b"X-Long: " + b"z" * longname(r, 70, .2)]))
            r.shuffle(hd)
            out += N.join(hd) + (N if hd else b"") + N + raw
            a.ms.append(member(name, d, -1, -1, sz=-2))
        out += b"--" + b + b"--" + N
        return out
    b = b"bound%d" % r.randrange(10**6)
    q = b'"%s"' % b if r.random() < .6 else b
    fold_ = r.choice([b" ", b" ", b" ", N + b"\t", N + b" "])
    ct = b"multipart/mixed;" + fold_ + r.choice([b"", b"", b"charset=x;" + fold_]) + b"boundary=" + q + r.choice([b"", b"", b"; type=x"])
    body = build(b, 0)
    if N in ct:
        del exp["contenttype"]
    else:
        exp["contenttype"] = ct
    a.out += h.encode() + r.choice([b"Content-Type", b"Content-type", b"CONTENT-TYPE"]) + b": " + ct + N + r.choice([b"", b"", b"X-Mailer: x" + N]) + N + body
    a.hdr = exp
    return a.finish(r.choice([b"", N, b"epilogue" + N]))

# ---------------------------------------------------------------- sdf
def sdf(r, n=None, datas=None):
    a = Archive("sdf")
    nl = r.choice([b"\n", b"\r\n", b"\n", b"\r"])
    n = max(1, nmembers(r)) if n is None else n
    recs = []
    for i in range(n):
        if datas is not None:
            recs.append(datas[i])
            continue
        lines = [b"mol%d" % i, b"  prog", b"", b"  1  0  0  0  0  0  0  0  0  0999 V2000"]
        k = r.choice([0, 1, 3, 20, 100, 300])
        for _ in range(k):
            s = bytes(r.choice(b"abc 012.$$$-><") for _ in range(r.choice([0, 3, 10, 40, 79])))
            while b"$$$$" in s:
                s = s.replace(b"$$$$", b"$$x$")
            lines.append(s)
        if r.random() < .01:                       # a long record
            lines += lines[4:] * (r.choice([70000, 270000, 600000]) // max(200, sum(map(len, lines[4:])))) + [b"M  END"] * r.choice([0, 10000, 40000])
        rec = nl.join(lines) + nl
        if r.random() < .2:
            rec = rec[:-len(nl)] + b"$" * r.randint(0, 2) + nl
        while b"$$$$" in rec:
            rec = rec.replace(b"$$$$", b"$$x$")
        recs.append(rec)
    for i, rec in enumerate(recs):
        a.out += rec + b"$$$$" + nl
        a.ms.append(member(b"Molecule%d" % (i + 1), rec, -1, FILE))
    return a.finish()

# ---------------------------------------------------------------- ole
def ole(r, n=None, datas=None, gap=0):
    """gap: free mini blocks among those in use"""
    a = Archive("ole")
    n = nmembers(r) if n is None else n
    ents = []        # (name, type, data)
    used = set()
    for i in range(n):
        while True:
            name = bytes(r.choice(b"abcdefgXYZ019_ \x05\x01") for _ in range(r.choice([1, 2, 5, 10, 31])))
            if name not in used:
                break
        used.add(name)
        z = r.random()
        if datas is not None:
            d = datas[i]
        elif z < .4:
            d = rnd_bytes(r, r.choice([1, 2, 63, 64, 65, 127, 128, 129, r.randint(1, 1000), 511, 512, 513, 4095]))
        elif z < .9:
            d = rnd_bytes(r, r.choice([4096, 4097, 4608, 5000, r.randint(4096, 20000), 8191, 8192]))
        else:
            d = rnd_bytes(r, r.randint(1, 5000))
        if r.random() < .15 and datas is None:
            ents.append((name, 1, b""))
        else:
            ents.append((name, 2, d))
            a.ms.append(member(name, d, -1, -1, sz=len(d)))
    nsect = 0
    # mini stream
    mini = bytearray()
    minifat = {}
    chains = {}
    nmini = sum((len(d) + 63) // 64 for _, t, d in ents if t == 2 and len(d) < 4096)
    nmini += gap
    order = list(range(nmini))
    if gap or r.random() < .7:
        r.shuffle(order)
    it = iter(order)
    mini = bytearray(nmini * 64)
    start = {}
    for i, (name, t, d) in enumerate(ents):
        if t == 2 and 0 < len(d) < 4096:
            blk = [next(it) for _ in range((len(d) + 63) // 64)]
            for j, b in enumerate(blk):
                piece = d[j * 64:(j + 1) * 64]
                mini[b * 64:b * 64 + len(piece)] = piece
                minifat[b] = blk[j + 1] if j + 1 < len(blk) else -2
            start[i] = blk[0]
    mf = [minifat.get(i, -1) for i in range(nmini)]
    mfb = pad(struct.pack("<%di" % len(mf), *mf), 512) if mf else b""
    if len(mfb) > 4 * len(mf):
        mfb = mfb[:4 * len(mf)] + b"\xff" * (len(mfb) - 4 * len(mf))
    mini = pad(bytes(mini), 512)
    dirn = (len(ents) + 1 + 3) // 4
    want = {"dir": dirn, "mini": len(mini) // 512, "mf": len(mfb) // 512}
    for i, (name, t, d) in enumerate(ents):
        if t == 2 and len(d) >= 4096:
            want[i] = (len(d) + 511) // 512
    free = r.choice([0, 0, 1, 3])
    total = sum(want.values()) + free
    nfat, ndif = 1, 0
    while nfat * 128 < total + nfat + ndif:
        nfat += 1
        ndif = max(0, -(-(nfat - 109) // 127))     # blocks of the table that do not fit into the header
    total += nfat + ndif
    sect = list(range(total))
    if r.random() < .7:
        r.shuffle(sect)
    fatsec = sect[:nfat]
    difsec = sect[nfat:nfat + ndif]
    p = nfat + ndif
    fat = [-1] * (nfat * 128)
    for s in fatsec:
        fat[s] = -3
    for s in difsec:
        fat[s] = -4
    alloc = {}
    for k, c in want.items():
        alloc[k] = sect[p:p + c]
        p += c
        for j, s in enumerate(alloc[k]):
            fat[s] = alloc[k][j + 1] if j + 1 < c else -2
    img = bytearray(512 * total)
    def put(k, data):
        for j, s in enumerate(alloc[k]):
            piece = data[j * 512:(j + 1) * 512]
            img[s * 512:s * 512 + len(piece)] = piece
    def dent(name, t, st, size):
        u = name.decode("latin1").encode("utf-16-le") + b"\0\0"
        return u.ljust(64, b"\0") + struct.pack("<HBBiii", len(u), t, 1, -1, -1, -1) + bytes(16 + 4 + 8 + 8) + struct.pack("<iII", st, size, 0)
    dirb = dent(b"Root Entry", 5, alloc["mini"][0] if alloc["mini"] else -2, nmini * 64)
    for i, (name, t, d) in enumerate(ents):
        st = 0 if t == 1 else start[i] if i in start else alloc[i][0]
        dirb += dent(name, t, st, len(d))
        assert len(dirb) % 128 == 0
    dirb = dirb + bytes(dirn * 512 - len(dirb))
    put("dir", dirb); put("mini", mini); put("mf", mfb)
    for i, (name, t, d) in enumerate(ents):
        if i in alloc:
            put(i, d)
    for j, s in enumerate(fatsec):
        img[s * 512:(s + 1) * 512] = struct.pack("<128i", *fat[j * 128:(j + 1) * 128])
    h = bytearray(512)
    h[0:8] = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"
    struct.pack_into("<HHHHH", h, 24, 0x3e, 3, 0xfffe, 9, 6)
    struct.pack_into("<i", h, 44, nfat)
    struct.pack_into("<i", h, 48, alloc["dir"][0])
    struct.pack_into("<I", h, 56, 4096)
    struct.pack_into("<ii", h, 60, alloc["mf"][0] if alloc["mf"] else -2, len(alloc["mf"]))
    struct.pack_into("<ii", h, 68, difsec[0] if difsec else -2, ndif)
    difat = (fatsec + [-1] * 109)[:109]
    for j, s in enumerate(difsec):
        part = fatsec[109 + 127 * j:109 + 127 * (j + 1)]
        img[s * 512:(s + 1) * 512] = struct.pack("<128i", *(part + [-1] * (127 - len(part)) + [difsec[j + 1] if j + 1 < ndif else -2]))
    struct.pack_into("<109i", h, 76, *difat)
    a.out += bytes(h) + bytes(img)
    return a.finish()

MAKE = {"tar": tar, "zip": zip_, "ar": ar, "cpio": cpio, "rpm": rpm, "mail": mail, "sdf": sdf, "ole": ole}
LAYOUT = ("tar", "zip", "ar", "cpio")

# ---------------------------------------------------------------- consumption
def consume(S, e, L, how=None):
    r = S.r
    how = how or r.choice(["none", "none", "all", "all", "part", "part", "skip", "rewind", "mix", "over", "bit"])
    if how == "all":
        mn = r.choice([1, 1, 7, 512, L + 1])
        if L // mn > 300:
            mn = L // 100
        S.add("drain %s %d %d 400" % (e, mn, r.choice([0, 0, mn, mn + 3])))
    elif how == "part":
        k = r.randint(1, max(1, L))
        S.add("read %s %d %d" % (e, k, r.choice([0, k])))
    elif how == "bit":
        S.add("read %s 1 1" % e)
    elif how == "skip":
        S.add("skip %s %d" % (e, r.choice([1, L // 2, L, L + 1])))
        if r.random() < .5:
            S.add("read %s 1 0" % e)
    elif how == "rewind":
        k = r.randint(1, max(1, L))
        S.add("read %s %d 0" % (e, k), "rel %s %d" % (e, r.choice([0, 500, 300])), "read %s %d 0" % (e, k))
        if r.random() < .5:
            S.add("rel %s 0" % e)
    elif how == "over":
        S.add("drain %s %d 0 400" % (e, max(1, L)), "read %s 1 0" % e, "back %s %d" % (e, r.choice([0, 1])), "read %s 5 0" % e)
    elif how == "mix":
        ops(S, e, L, r.randint(1, 8), finish=r.random() < .3)
    S.count("consume:" + how)

def iterate(S, a, k, p="p", how=None, extra=None, destroy=True):
    r = S.r
    vis = [m for m in a.ms if m["vis"]]
    for i, m in enumerate(vis):
        S.add("ment %s %d %s" % (p, i, S.blob(m["_data"])))
    for i, m in enumerate(vis):
        S.add("next " + p)
        consume(S, p + ".e", m["len"], how)
    for _ in range(r.choice([1, 2, 3]) if extra is None else extra):
        S.add("next " + p)

def pexp(S, a, p="p", **kw):
    import json
    S.add("pexp %s %s" % (p, json.dumps(a.model(**kw), separators=(",", ":"))))

def whole(seed, n, kinds, filters=.12):
    """Well-formed archives, iterated with every consumption pattern, over every kind of source."""
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        k = kinds[i % len(kinds)]
        S.new("ar-" + k)
        a = MAKE[k](r)
        data = a.data
        if r.random() < filters and len(data) < 200000:
            z = r.choice(["gzip", "bz2", "lzma", "zlib", "b64", "sub", "event"])
            if z == "sub":
                pre = rnd_bytes(r, r.choice([1, 7, 512]))
                source(S, "q", pre + data + rnd_bytes(r, 5))
                S.add("read q %d %d" % (len(pre), len(pre)), "flt s sub q len=%d" % len(data))
            elif z == "b64":
                source(S, "q", gen.b64_text(r, data))
                S.add("flt s b64 q")
            elif z == "event":
                source(S, "q", data)
                S.add("flt s event q")
            else:
                source(S, "q", compress(r, z, data))
                S.add("flt s %s q" % z)
            if k == "ole":
                pass
            S.count("over:" + z)
        else:
            # the archive starts where the input is, not at its beginning
            gen.source_at(S, "s", data, p=.08)
        S.add("prov p %s s" % k)
        pexp(S, a)
        if a.hdr is not None:
            S.add("mailhdr p")
        if r.random() < .06 and a.ms:      # abandoned in the middle
            S.add("ment p 0 %s" % S.blob([m for m in a.ms if m["vis"]][0]["_data"]) if any(m["vis"] for m in a.ms) else "next p", "next p", "read p.e 1 0", "pfin p")
            S.count("abandoned")
        else:
            iterate(S, a, k)
            S.add("pfin p")
        if a.hdr is not None and r.random() < .3:
            pass
        S.count("prov:" + k)
        S.count("members:%d" % min(3, len(a.ms)))
    return S

def bigole(seed, n, kinds=None):
    """Documents whose tables do not fit into the header, and large containers of small streams."""
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        S.new("bigole")
        z = i % 3
        if z == 0:       # around the number of table blocks the header and each further block hold
            k = r.choice([109, 236, 237, 240, 300, r.randint(60, 300)])
            d = r.randbytes(512 * (127 * k + r.randint(-300, 300)))
            c = r.randint(0, len(d) // 2)
            ds = [d[:c], d[c:c + 4096 + r.randint(0, 5000)], d[c:], r.randbytes(700)]
            r.shuffle(ds)
            a = ole(r, 4, ds)
        elif z == 1:     # a container of small streams around what 1000 blocks of its table hold
            a = ole(r, 3, [r.randbytes(r.randint(1, 4095)) for _ in range(3)], r.choice([128 * 1000, 128 * 999, r.randint(1000, 200000)]))
        else:
            a = ole(r, 2, [r.randbytes(r.choice([10000000, r.randint(9900000, 25000000)])), b"small"])
        source(S, "s", a.data, kinds=["chunk", "chunk", "string", "file"])
        S.add("prov p ole s")
        pexp(S, a)
        iterate(S, a, "ole")
        S.add("pfin p")
        S.count("bigole:%d" % z)
    return S

def cuts(a, r):
    """interesting cut positions"""
    n = len(a.data)
    pts = {r.randint(0, n) for _ in range(2)}
    off = 8 if a.fmt == "ar" else 0
    return pts

def truncated(seed, n, kinds):
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        k = kinds[i % len(kinds)]
        S.new("cut-" + k)
        for _ in range(20):
            a = MAKE[k](r)
            if len(a.data) < 60000 and any(m["vis"] for m in a.ms):
                break
        n_ = len(a.data)
        flt = r.random() < .2
        z = r.random()
        if z < .5 or k == "rpm":
            cut = r.randint(0, n_ - 1)
        else:      # near the boundaries of the layout
            b = boundaries(a)
            cut = min(n_ - 1, max(0, r.choice(b) + r.choice([-1, 0, 0, 1, 2, -2])))
        if flt:
            gen.source_at(S, "s", a.data, fault=cut, p=.06)
            end = "error" if k not in LAYOUT else "clean"
        else:
            gen.source_at(S, "s", a.data[:cut], p=.06)
            end = rpm_cut_end(a, cut) if k == "rpm" else "clean"
        S.add("prov p %s s" % k)
        pexp(S, a, cut=cut, flt=int(flt), end=end)
        iterate(S, a, k)
        S.add("pfin p")
        S.count("cut:" + k + (":fault" if flt else ""))
    return S

def boundaries(a):
    res = []
    off = 8 if a.fmt == "ar" else 0
    up = lambda n, k: (n + k - 1) // k * k
    ll = lambda n: 512 + up(n, 512) if n else 0
    for m in a.ms:
        h = {"tar": lambda: 512 + ll(m["ll"]) + ll(m["kl"]), "zip": lambda: 30 + m["nl"] + m["xl"], "ar": lambda: 60, "cpio": lambda: up(110 + m["nl"], 4)}[a.fmt]()
        d = off + h
        e = d + m["dl"]
        t = {"tar": lambda: up(m["dl"], 512) - m["dl"], "zip": lambda: m["dd"], "ar": lambda: m["dl"] % 2, "cpio": lambda: up(m["dl"], 4) - m["dl"]}[a.fmt]() + e
        res += [off, d, e, t, (d + e) // 2]
        if m["ll"]:
            res += [off + 512, off + 512 + m["ll"]]
        off = t
    return res

# ---------------------------------------------------------------- malformed headers
def malformed(seed, n, kinds):
    """Well-formed members followed by one with a damaged header: an error after exactly these members."""
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        k = kinds[i % len(kinds)]
        S.new("bad-" + k)
        for _ in range(50):
            a = MAKE[k](r)
            if len(a.data) < 60000 and any(m["vis"] for m in a.ms) and not any(m["ll"] or m["kl"] for m in a.ms):
                break
        else:
            continue
        vis = [j for j, m in enumerate(a.ms) if m["vis"]]
        j = r.choice(vis)
        b = boundaries_of(a)[j]
        d = bytearray(a.data)
        h = b[0]
        if k == "tar":
            z = r.choice(["size", "mtime", "nul", "name", "hi"])
            if z == "size":
                d[h + 124:h + 136] = r.choice([b"xxxxxxxxxxx\0", b"\0" * 12, b" " * 11 + b"\0", b"/" * 12])
            elif z == "mtime":
                d[h + 136:h + 148] = r.choice([b"?0000000000\0", b"\0" * 12, b"9" * 11 + b"\0"])
            elif z == "hi":
                d[h + 124:h + 136] = b"\x80" + bytes(10) + b"\x01"        # base-256
            elif z == "nul":
                d[h + r.choice([107, 115, 123])] = r.choice([0x20, 0x37, 255])
            else:
                d[h:h + 100] = b"abc\0x".ljust(100, b"\0")
        elif k == "zip":
            if r.random() < .5:
                d[h + r.choice([0, 1])] ^= r.choice([1, 128, 255])
            else:                                     # no name
                d[h + 26:h + 28] = b"\0\0"
                del d[h + 30:h + 30 + a.ms[j]["nl"]]
        elif k == "cpio":
            if r.random() < .5:
                d[h + r.randint(0, 5)] ^= r.choice([1, 8, 128])
            else:
                d[h + r.choice([14, 46, 54, 94]) + r.randint(0, 7)] = r.choice(b"gG/:@` \0\xff")
        elif k == "ar":
            d[h + 48:h + 58] = r.choice([b"-1".ljust(10), b"-99999    "])
        bad = Archive(k)
        bad.ms = a.ms[:j]
        bad.data = bytes(d)
        bad.trail = len(d) - h if bad.ms or k != "ar" else len(d) - h
        source(S, "s", bad.data)
        S.add("prov p %s s" % k)
        pexp(S, bad, end="error")
        iterate(S, bad, k)
        S.add("pfin p")
        S.count("malformed:" + k)
    return S

def boundaries_of(a):
    b = []
    off = 8 if a.fmt == "ar" else 0
    up = lambda n, k: (n + k - 1) // k * k
    ll = lambda n: 512 + up(n, 512) if n else 0
    for m in a.ms:
        h = {"tar": lambda: 512 + ll(m["ll"]) + ll(m["kl"]), "zip": lambda: 30 + m["nl"] + m["xl"], "ar": lambda: 60, "cpio": lambda: up(110 + m["nl"], 4)}[a.fmt]()
        d = off + h
        e = d + m["dl"]
        t = {"tar": lambda: up(m["dl"], 512) - m["dl"], "zip": lambda: m["dd"], "ar": lambda: m["dl"] % 2, "cpio": lambda: up(m["dl"], 4) - m["dl"]}[a.fmt]() + e
        b.append((off, d, e, t))
        off = t
    return b

# ---------------------------------------------------------------- recognition
def headers(seed, n, kinds):
    S = Scenarios(seed)
    r = S.r
    magic = {"zip": (b"PK\3\4", 9), "ar": (b"!<arch>\n", 8), "cpio": (b"070701", 6), "rpm": (b"\xed\xab\xee\xdb\x03\x00", 6), "ole": (b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 9)}
    for i in range(n):
        if i % 10 == 0:
            S.new("hd")
        k = kinds[i % len(kinds)]
        o = r.choice(list(MAKE)) if r.random() < .4 else k
        a = MAKE[o](r)
        d = a.data[:2048]
        if r.random() < .2:
            d = content(r, "small")
        elif r.random() < .2 and d:
            q = bytearray(d); q[r.randrange(min(len(q), 12))] ^= 1 << r.randrange(8); d = bytes(q)
        ln = r.choice([len(d), 512, 1024, r.randint(0, min(300, len(d))), r.randint(0, 12)])
        ln = min(ln, len(d))
        want = "any"
        if k in magic:
            m, mn = magic[k]
            want = "yes" if ln >= mn and d[:len(m)] == m else "no"
        elif k == "tar":
            if ln < 257:
                want = "no"
            elif o == "tar" and d == a.data[:2048]:
                want = "yes"
        elif k == "mail" and o == "mail" and d == a.data[:2048] and max(d, default=0) < 128:
            want = "yes" if b"\r\n" in d else "any"
        elif k == "sdf" and o == "sdf" and d == a.data[:2048] and a.ms[0]["len"] > 60:
            want = "yes" if ln >= 120 else "any"
        S.add("hdr %s %s %d want=%s" % (k, S.blob(d), ln, want))
        S.count("hdr:%s:%s" % (k, want))
    return S

# ---------------------------------------------------------------- damage
def damage(r, d, other=b""):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        if not d:
            d = bytearray(b"\0")
        z = r.random()
        # the first bytes hold most of the structure
        at = lambda: r.randrange(len(d)) if r.random() < .6 else r.randrange(min(len(d), r.choice([16, 64, 600, 4096])))
        if z < .2:
            d[at()] ^= 1 << r.randrange(8)
        elif z < .35:
            d[at()] = r.choice([0, 255, 0x7f, 0x80, 32, 47, 57, 10, r.randrange(256)])
        elif z < .55:
            p = at()
            v = r.choice([b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\xff\xff\xff\x7f", b"\x80\0\0\0", b"\0\0\0\x80", b"\0\0\0\0", b"\1\0\0\0", b"\0\0\0\1", b"\xff\xff", b"\0\x10\0\0", b"99999999", b"-1      ", b"77777777777", b"ffffffff", b"\xfe\xff\xff\xff", b"$$$$", b"PK\3\4", b"PK\7\x08", b"070701", b"././@LongLink"])
            d[p:p + len(v)] = v
        elif z < .65:
            p = at(); del d[p:p + r.choice([1, 1, 2, 4, 60, 512, r.randint(1, len(d))])]
        elif z < .75:
            p = at(); d[p:p] = rnd_bytes(r, r.choice([1, 2, 4, 100, 512]))
        elif z < .83:
            p = at(); q = at(); n = r.choice([4, 16, 64, 512]); d[p:p + n] = d[q:q + n]
        elif z < .9:
            del d[r.randint(0, len(d)):]
        else:
            p = at(); n = r.choice([4, 12, 60, 512]); d[p:p + n] = bytes([r.choice([0, 255, 48, 32])]) * min(n, len(d) - p)
    return bytes(d)

def structured(r, a):
    """overwrites a length or offset field of the format with an absurd value"""
    d = bytearray(a.data)
    k = a.fmt
    off = 0
    if k in LAYOUT and a.ms:
        off = r.choice(boundaries_of(a))[0]
    f = {"tar": [(124, 12), (136, 12), (156, 1), (0, 100), (257, 8), (345, 155)], "zip": [(6, 2), (8, 2), (18, 4), (22, 4), (26, 2), (28, 2)], "ar": [(0, 16), (48, 10), (16, 12), (1, 15)],
         "cpio": [(54, 8), (94, 8), (14, 8)], "rpm": [(96 + 8, 4), (96 + 12, 4), (112 + 8, 4)], "ole": [(44, 4), (48, 4), (60, 4), (64, 4), (68, 4), (72, 4), (76, 4), (76 + 4 * r.randrange(109), 4)],
         "mail": [(0, 4)], "sdf": [(0, 4)]}[k]
    o, n = r.choice(f)
    o += off
    if k == "ole" and r.random() < .6 and len(d) > 1024:      # a table entry or directory field
        s = r.randrange(1, len(d) // 512)
        if r.random() < .4:
            # a directory entry
            dirsec = struct.unpack_from("<i", d, 48)[0]
            o, n = 512 * (dirsec + 1) + 128 * r.randrange(4) + r.choice([0x40, 0x42, 0x74, 0x78]), 4
        else:
            o, n = 512 * s + 4 * r.randrange(128), 4
    txt = k in ("tar", "ar", "cpio")
    v = r.choice([b"7" * n, b"9" * n, b"-1".ljust(n), b"0" * n, b"f" * n, b"1".ljust(n), b"/" * n, b"/99999999".ljust(n)[:n], bytes(n), b"\xff" * n, b"80000000"[:n].ljust(n)]) if txt else \
        r.choice([b"\xff" * n, bytes(n), b"\xff" * (n - 1) + b"\x7f", bytes(n - 1) + b"\x80", b"\1" + bytes(n - 1), b"\xfe" + b"\xff" * (n - 1), rnd_bytes(r, n), bytes([r.randrange(30)]) + bytes(n - 1), b"\x7f" + b"\xff" * (n - 1), bytes(n - 1) + b"\1"])
    d[o:o + n] = v[:n]
    return bytes(d[:max(len(a.data), 1)])

FZ = ["gzip", "zlib", "deflate", "bz2", "lzma", "b64", "utf16", "utf8", "term", "sub"]

def small_archive(r, k):
    for _ in range(30):
        a = MAKE[k](r)
        if len(a.data) < 30000:
            return a
    return a

def fuzzbase(r, k):
    if k in MAKE:
        a = small_archive(r, k)
        z = r.random()
        if z < .35:
            return structured(r, a)
        if z < .93:
            return damage(r, a.data)
        return {"tar": b"", "zip": b"PK\3\4", "ar": b"!<arch>\n", "cpio": b"070701", "rpm": b"\xed\xab\xee\xdb\x03\x00", "mail": b"Subject: x\nContent-Type: multipart/mixed; boundary=x\n\n", "sdf": b"a\nb\nc\nV2000\n", "ole": b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"}[k] + content(r, r.choice(["tiny", "small", "mid"]))
    if k in ("gzip", "zlib", "deflate", "bz2", "lzma"):
        z = r.random()
        d = compress(r, k, content(r, r.choice(["tiny", "small", "mid"])))
        return damage(r, d) if z < .85 else content(r, r.choice(["tiny", "small"])) if z < .9 else d[:r.choice([2, 4, 10, 13, 14])] + content(r, "small")
    if k == "b64":
        return damage(r, gen.b64_text(r, content(r, r.choice(["tiny", "small"]))))
    if k == "utf16":
        return damage(r, gen.text(r, "UTF-16LE").encode("utf-16-le"))
    if k == "utf8":
        return damage(r, gen.text(r, "UTF-8").encode())
    return content(r)

def fuzz(seed, n, kinds=None):
    """Arbitrary and damaged input for every decoder."""
    S = Scenarios(seed)
    r = S.r
    kinds = kinds or list(MAKE) * 2 + FZ
    for i in range(n):
        k = kinds[i % len(kinds)]
        S.new("fz-" + k)
        d = fuzzbase(r, k)
        source(S, "s", d)
        if k in MAKE:
            S.add("prov p %s s" % k)
            if k == "mail":
                S.add("mailhdr p")
            z = r.choice([(1, 0), (1, 1), (7, 7), (512, 0), (100, 200), (1, -7), (1, -7)])
            S.add("pwalk p %d %d %d %d" % (z[0], z[1], len(d) + 100, 60000000), "next p", "next p", "pfin p")
            S.add("hdr %s %s %d want=any" % (k, S.blob(d), r.randint(0, min(len(d), 1100))))
        else:
            if k == "utf16":
                S.add(r.choice(["flt f enc s in=UTF-16LE", "flt f reader s enc=UTF-16LE"]))
            elif k == "utf8":
                S.add(r.choice(["flt f reader s", "flt f enc s in=UTF-8 out=UTF-16LE", "flt f reader s enc=SHIFT_JIS", "flt f enc s in=ISO-2022-JP"]))
            elif k == "term":
                S.add("flt f term s t=" + r.choice(["0a0a", "00", "2424", "616162"]))
            elif k == "sub":
                S.add("flt f sub s len=%d" % r.choice([0, 1, len(d), len(d) + 1, 1 << 40, 1 << 31]))
            else:
                S.add("flt f %s s" % k)
            gen.expect(S, "f", b"", "fuzz", "any")
            ops(S, "f", len(d), r.randint(1, 10), finish=False)
            S.add("drain f %d 0 3000" % r.choice([1, 100, 4096]) if len(d) < 2000 else "drain f 4096 0 5000", "read f 1 0", "read f 9 0")
        S.count("fuzz:" + k)
    return S

def variants(seed, n, kinds=None):
    """The same bytes from differently behaving sources: the outcome must be the same."""
    S = Scenarios(seed)
    r = S.r
    kinds = kinds or list(MAKE) * 3 + FZ
    for i in range(n):
        k = kinds[i % len(kinds)]
        S.new("sv-" + k)
        z = r.random()
        if k == "rpm":
            # how much of a damaged compressed payload is delivered before the error is not determined
            a = small_archive(r, k)
            d = a.data if z < .4 else structured(r, a) if z < .8 else a.data[:r.randint(0, 300)]
        elif k == "zip":
            # likewise for deflated members that are cut
            a = small_archive(r, k)
            d = a.data if any(m["dfl"] for m in a.ms) or z < .2 else structured(r, a) if z < .4 else damage(r, a.data) if z < .7 else a.data[:r.randint(0, len(a.data))]
        elif z < .6:
            d = fuzzbase(r, k)
        elif k in MAKE:
            a = small_archive(r, k)
            d = a.data if r.random() < .4 else a.data[:r.randint(0, len(a.data))]
        else:
            d = content(r) if k in ("term", "sub") else compress(r, k, content(r, "mid")) if k in ("gzip", "zlib", "deflate", "bz2", "lzma") else fuzzbase(r, k)
            if k in ("gzip", "zlib", "deflate", "bz2", "lzma") and r.random() < .5:
                d = d[:r.randint(0, len(d))]
        if len(d) > 100000:
            d = d[:100000]
        b = S.blob(d)
        mn, mx = r.choice([(1, 0), (512, 0), (64, 100), (100000, 0)])
        srcs = ["string %s" % b]
        srcs += ["chunk %s %s" % (b, " ".join(gen.chunk_args(r, len(d), r.choice(["min", "rand", "max", "sched"]) if len(d) < 20000 else r.choice(["rand", "max"])))) for _ in range(3)]
        if r.random() < .3:
            srcs.append("file %s hint=%s bufsize=%d" % (b, r.choice(["auto", "buffered", "mmap", "unbuffered", "ctor"]), r.choice([1048576, 64, 1000])))
        if r.random() < .3:
            srcs.append("tbuf %s mode=%s seed=%d minbuf=%d known=%d" % (b, r.choice(["max", "rand"]), r.randrange(1 << 30), r.choice([1, 16, 4096]), r.random() < .5))
        r.shuffle(srcs)
        for j, s in enumerate(srcs):
            S.add("src s%d %s" % (j, s), "sig k %s s%d %d %d %d %d" % (k, j, mn, mx, len(d) + 100, 30000000), "fin s%d" % j)
        S.count("sig:" + k)
    return S
