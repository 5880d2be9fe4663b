"""What each check models, generates and counts."""
import random, re
import gen, tlcgen, garch, gproc, gtree, gbig, gmagic, gmail, gprov
from gen import f_kmp, f_utf8, f_int, f_b64

ASSUME = ["sources honour the stream contract", "callers honour the documented preconditions of read, skip and reset",
          "TLC, the sanitizer runtime and the reference encoders of Python are trusted"]

class Ctx:
    """Caches what TLC generates across rounds."""
    def __init__(self, scratch, tier):
        self.scratch, self.tier, self.cache = scratch, tier, {}
    def tests(self, spec, cfg, **kw):
        k = (spec, cfg, tuple(sorted(kw.items())))
        if k not in self.cache:
            self.cache[k] = tlcgen.tests(self.scratch, spec + ".tla", cfg + ".cfg", **kw)[0]
        return self.cache[k]

class Plan:
    def __init__(self, gens, models=(), thorough_models=(), labels=".*", require=(), assume=(), timeout=20, oracle="the stream contract (StreamContract.tla)", refuted=()):
        self.gens, self.models, self.tmodels = gens, list(models), list(thorough_models)
        self.labels = re.compile("(?:" + labels + ").*|X[12]-.*")
        self.require, self.assume, self.timeout, self.oracle = list(require), list(assume), timeout, oracle
        self.refuted = list(refuted)
    def models_for(self, tier):
        return self.models + (self.tmodels if tier == "thorough" else [])
    def generate(self, ctx, seed, tier):
        res = []
        for i, g in enumerate(self.gens):
            r = g(ctx, seed + 7919 * i, 1 if tier == "quick" else 4)
            res += r if isinstance(r, list) else [r]
        return res
    def counts(self, label, sid):
        return self.labels.fullmatch(label) is not None

# ---- generators -------------------------------------------------------------
def rand_streams(n, weights, fp=1):
    return lambda ctx, seed, mul: (gen.streams(seed, n * mul, weights, fp), "TraceStream")

def ideal(kinds, per=1):
    return lambda ctx, seed, mul: (tlcgen.ideal(seed, ctx.tests("IdealStream", "IdealStream_gen"), kinds, per * mul), "TraceStream")

def buffered(limit=1500):
    def g(ctx, seed, mul):
        t = []
        for x in "ABCD":
            t += ctx.tests("BufferedGen", "BufferedGen_" + x, simulate=("num=%d" % (25 * mul), 60), seed=seed, limit=limit * mul)
        return tlcgen.buffered(seed, t), "TraceStream"
    return g

BUF = [("BufferedStream", "BufferedStream_" + x) for x in "ABC"]
IDEAL = [("IdealStream", "IdealStream")]
ALLK = ["string", "wstring", "file", "tbuf", "wbuf", "sub", "term", "event", "gzip", "zlib", "deflate", "bz2", "lzma", "b64", "reader", "enc"]
ALLS = {"string": 1, "file": 2, "tbuf": 2, "sub": 2, "term": 2, "event": 2, "z": 3, "b64": 1, "reader": 1.5, "enc": 1.5, "nested": 1.5}

def converted(limit):
    """Texts and cuts of the model of the conversion of characters."""
    def g(ctx, seed, mul):
        t = []
        for x in ("", "H"):
            t += ctx.tests("Transcode", "Transcode_gen" + x, simulate=("num=%d" % (1000 * mul), 16), seed=seed, limit=limit * mul)
        return tlcgen.transcode(seed, t), "TraceStream"
    return g

def func(f, n, spec=None, cfg=None, limit=None):
    def g(ctx, seed, mul):
        t = ctx.tests(spec, cfg) if spec else ()
        return (f(seed, n * mul, t) if spec else f(seed, n * mul)), "TraceFunc"
    return g

def arch(mode, n, kinds=None):
    f = getattr(garch, mode)
    return lambda ctx, seed, mul: ((f(seed, n * mul, kinds) if kinds else f(seed, n * mul)), "TraceProvider")
def iters(kinds, limit, cuts=False):
    """Histories of the model of the iterators, on archives of these kinds."""
    def g(ctx, seed, mul):
        t = ctx.tests("ProviderIter", "ProviderIter_gen" + ("" if cuts else "W"), simulate=("num=%d" % (400 * mul), 14), seed=seed, limit=limit * mul)
        return gprov.histories(seed, t, kinds, cuts), "TraceProvider"
    return g
ITER = [("ProviderIter", "ProviderIter")]
ITERT = [("ProviderIter", "ProviderIter_big")]
ITERX = [("ProviderIter", "ProviderIter_" + x) for x in ("nopad", "noerror", "norest", "clean")]
ARCH = "the archive contract (ProviderContract.tla)"
def decoder(kinds, cut=True, *more):
    g = [arch("whole", 2500, kinds), arch("headers", 1500, kinds)]
    if cut:
        g.append(arch("truncated", 400, kinds))
    bad = [k for k in kinds if k in ("tar", "zip", "ar", "cpio")]
    if bad:
        g.append(arch("malformed", 400, bad))
    g.append(iters(kinds, 400))
    if cut and kinds[0] != "rpm" and [k for k in kinds if k in garch.LAYOUT]:
        g.append(iters([k for k in kinds if k in garch.LAYOUT], 300, True))
    return Plan(g + list(more), ITER, ITERT, oracle=ARCH, refuted=ITERX)
def procs(n):
    return lambda ctx, seed, mul: (gproc.procs(seed, n * mul), "TraceProcess")
def pump(limit):
    def g(ctx, seed, mul):
        t = ctx.tests("ProcessPump", "ProcessPump_gen", limit=None)
        r = random.Random(seed)
        return gproc.pump(seed, r.sample(t, min(len(t), limit * mul))), "TraceProcess"
    return g
def big(n, modes, spec):
    return lambda ctx, seed, mul: (gbig.big(seed, n * mul, modes), spec)
def sniffed(n):
    return lambda ctx, seed, mul: (gmagic.sniffed(seed, n * mul), "TraceProvider")
ALLF = ["tar", "zip", "ar", "cpio", "rpm", "mail", "sdf", "ole"]

TREE = "the tree of directories, archives and members (TreeContract.tla)"
def trees(mode, n):
    return lambda ctx, seed, mul: (gtree.trees(seed, n * mul, mode), "TraceArchive")
def histories(all_, gens, num=25):
    """Every short history and random long ones of the model of the reader."""
    def g(ctx, seed, mul):
        t = []
        for x in all_:
            t += ctx.tests("ArchiveReaderGen", "ArchiveReader_all" + x)
        for x in gens:
            t += ctx.tests("ArchiveReaderGen", "ArchiveReader_gen" + x, simulate=("num=%d" % (num * mul), 13), seed=seed)
        return gtree.histories(seed, t), "TraceArchive"
    return g
READERX = [("ArchiveReader", "ArchiveReader_moves"), ("ArchiveReader", "ArchiveReader_late")]
READER = [("ArchiveReader", "ArchiveReader_A"), ("ArchiveReader", "ArchiveReader_C")]
READERT = [("ArchiveReader", "ArchiveReader_B"), ("ArchiveReader", "ArchiveReader_big"), ("ArchiveReader", "ArchiveReader_bigC")]

PLANS = {
 "C01": Plan([rand_streams(3500, ALLS), ideal(ALLK, 2), buffered(), big(1, ("hugeread",), "TraceProvider")], BUF + IDEAL, labels="R|S0|S1|P5|P4|N1|E1"),
 "C02": Plan([rand_streams(3500, dict(ALLS, nofile=.3)), ideal(ALLK, 2), buffered()], BUF + IDEAL, labels="P1|P2|P5|R4|R5|R6|R3|S2|S3|N1"),
 "C03": Plan([rand_streams(3500, ALLS), ideal(ALLK, 2), buffered()], BUF + IDEAL, labels="Z|P4|R1|R4|R6|P5"),
 "C04": Plan([rand_streams(3500, ALLS), ideal(ALLK, 2), buffered()], BUF + IDEAL, labels="S|R1|P5|P1"),
 "C05": Plan([rand_streams(6000, dict(ALLS, string=.2, file=.5, nofile=.5, zbad=1, zdam=1, badenc=.3), 3.5), buffered()], BUF + IDEAL, labels="E1|P3|P5|P1|R6|R4|N2|D6|S2|R1-b"),
 "C06": Plan([arch("variants", 4000), arch("whole", 1200, ALLF), rand_streams(2000, {"sub": 2, "term": 2, "event": 1, "z": 3, "b64": 2, "reader": 2, "enc": 2, "nested": 2})], IDEAL),
 "C07": Plan([rand_streams(5000, {"sub": 6, "nested": 1}), ideal(["sub"], 3)], [("SubStream", "SubStream")] + IDEAL),
 "C08": Plan([rand_streams(5000, {"term": 1}), ideal(["term"], 3)], [("TermStream", "TermStream")], [("TermStream", "TermStream_big")]),
 "C09": Plan([rand_streams(5000, {"event": 5, "nested": 1}), ideal(["event"], 3)], [("EventStream", "EventStream")]),
 "C10": Plan([func(f_kmp, 6000, "Search", "Search_gen")], [("Search", "Search")], [("Search", "Search_big")], oracle="the declarative definitions of Text.tla"),
 "C11": Plan([rand_streams(4000, {"z": 6, "zbad": 1, "zdam": 1, "nested": 1}), ideal(["gzip", "zlib", "deflate", "bz2", "lzma"], 3)], [("Inflate", "Inflate")] + IDEAL, [("Inflate", "Inflate_big")],
            refuted=[("Inflate", "Inflate_" + x) for x in ("greedy", "noreset", "eofend")]),
 "C12": Plan([rand_streams(3000, {"b64": 6}), ideal(["b64"], 2), func(f_b64, 3000)], [("Base64Scan", "Base64Scan")], [("Base64Scan", "Base64Scan_big")]),
 "C13": Plan([rand_streams(4500, {"reader": 4, "enc": 4, "badenc": .5}), ideal(["reader", "enc"], 3), converted(2000)], [("Transcode", "Transcode")] + IDEAL, [("Transcode", "Transcode_big")],
            refuted=[("Transcode", "Transcode_" + x) for x in ("inferred", "noflush", "nopend", "tailok")]),
 "C14": decoder(["tar"]), "C15": decoder(["zip"]), "C16": decoder(["ar"]), "C17": decoder(["cpio", "rpm"]),
 "C18": decoder(["mail"], False), "C19": decoder(["sdf"], False), "C20": decoder(["ole"], False, arch("bigole", 15)),
 "C21": Plan([arch("whole", 4000, ALLF), arch("truncated", 500, ALLF[:5]), iters(ALLF, 1500)], ITER, ITERT, oracle=ARCH, refuted=ITERX),
 "C22": Plan([arch("truncated", 5000, ALLF[:5]), iters(ALLF[:4], 1500, True)], ITER, ITERT, oracle=ARCH, refuted=ITERX),
 "C23": Plan([arch("fuzz", 6000), arch("variants", 1500), big(400, ("tail",), "TraceProvider")], timeout=20),
 "C24": Plan([trees("list", 4000), trees("modify", 500), trees("open", 300), histories("AB", "C")], READER, READERT, labels="A", timeout=30, oracle=TREE, refuted=READERX),
 "C25": Plan([trees("open", 3000), trees("modify", 600)], labels="O|R|P|S|X|N|T|E", timeout=30, oracle=TREE),
 "C26": Plan([trees("query", 2500), trees("modify", 2500), histories("", "ABC")], READER[:1], READERT, labels="B|A", timeout=30, oracle=TREE),
 "C27": Plan([func(f_utf8, 8000, "Utf8Scan", "Utf8Scan_gen")], [("Utf8Scan", "Utf8Scan")], oracle="the declarative definitions of Text.tla"),
 "C28": Plan([procs(900), pump(400)], [("ProcessPump", "ProcessPump_big")], [("ProcessPump", "ProcessPump_huge")], timeout=30,
             oracle="the outcome of the command's script (ProcessContract.tla)", refuted=[("ProcessPump", "ProcessPump_block"), ("ProcessPump", "ProcessPump_nowait")]),
 "C29": Plan([func(f_int, 3000)], [], oracle="the declarative definitions of Text.tla"),
 "C30": Plan([big(3000, ("streams", "sub", "term", "archive"), "TraceProvider"), big(400, ("reader",), "TraceArchive")], IDEAL, timeout=60,
             oracle="the contracts of streams, archives and trees (StreamContract.tla, ProviderContract.tla, TreeContract.tla), counted in blocks"),
 "C31": Plan([func(gmagic.magic, 4000, "HeaderScan", "HeaderScan_gen"), func(gmagic.sniff, 2500), sniffed(1500)],
             [("HeaderScan", "HeaderScan")], [("HeaderScan", "HeaderScan_big")], oracle="the descriptions of the formats' first bytes (Magic.tla)"),
 "C32": Plan([func(gmail.mailtext, 4000, "HeaderWords", "HeaderWords_gen"), arch("headers", 1200, ["mail"]), arch("whole", 1000, ["mail"])],
             [("HeaderWords", "HeaderWords")], [("HeaderWords", "HeaderWords_big")], labels="M", oracle="the text of mail header fields (MailText.tla)"),
 "C33": Plan([rand_streams(5000, {"comp": 1})], IDEAL),
}
