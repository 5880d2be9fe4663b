"""Common machinery: build from /repo, run scenarios, validate traces with TLC, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN = "-w -O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds,null,integer-divide-by-zero,return,unreachable -fno-sanitize-recover=all"
NCPU = os.cpu_count() or 8

class CheckError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (cmd, r.stdout[-4000:]))
    return r.stdout

class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="lsv-", dir="/tmp")
    def __enter__(self):
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, *p):
        return os.path.join(self.dir, *p)

def build(scratch):
    """Builds the library (ASan, asserts on) and the driver from /repo's working tree."""
    pre = os.environ.get("VERIF_BUILD")      # development only: reuse a build
    if pre and os.path.exists(pre + "/drv") :
        return pre
    b = scratch.path("b") if not pre else pre
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, CC="gcc", CXX="g++")
    sh(["cmake", "-C", VERIF + "/harness/precache.cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Wno-dev",
        "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS=" + SAN, "-DCMAKE_C_FLAGS=" + SAN], env=env)
    procs = []
    inc = ["-I%s/include" % REPO, "-I%s/include" % b, "-I%s/lib" % REPO, "-I%s/lib" % b]
    objs = []
    for f in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        o = b + "/" + os.path.basename(f)[:-4] + ".drv.o"
        objs.append(o)
        procs.append((f, subprocess.Popen(["g++"] + SAN.split() + ["-DSTRIGI_INTERNAL_TEST", "-DSTREAMS_EXPORT=", "-DHAVE_CONFIG_H"] + inc + ["-c", f, "-o", o],
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    procs.append(("helper", subprocess.Popen(["gcc", "-O1", "-w", VERIF + "/harness/helper.c", "-o", b + "/helper"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    try:
        sh(["ninja", "-C", b, "-j", str(NCPU), "streamsstatic"])
    finally:
        outs = [(f, p.communicate()[0], p.returncode) for f, p in procs]
    for f, o, rc in outs:
        if rc != 0:
            raise CheckError("compiling %s failed\n%s" % (f, o[-3000:]))
    sh(["g++"] + SAN.split() + objs + [b + "/lib/libstreamsstatic.a", "-lz", "-lbz2", "-o", b + "/drv"])
    return b

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=3",
            "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77:print_stacktrace=0", "TZ": "UTC", "LC_ALL": "C"}

def unprivileged(b, scnfile, out, scratchdir):
    """The driver runs as a user that owns nothing but its scratch files: a changed kill() or unlink() reaches nothing real."""
    if os.getuid() != 0:
        return {}
    uid = 60000 + zlib.crc32(scratchdir.encode()) % 5000
    try:
        d = os.path.dirname(os.path.abspath(out))
        while d.startswith("/tmp/") and d != "/tmp":
            if os.stat(d).st_uid == 0:
                os.chmod(d, os.stat(d).st_mode | 0o11)
            d = os.path.dirname(d)
        for p in [out, scratchdir]:
            os.chown(p, uid, uid)
        for top, ds, fs in os.walk(scratchdir):
            for x in ds + fs:
                os.chown(os.path.join(top, x), uid, uid, follow_symlinks=False)
        who = dict(user=uid, group=uid, extra_groups=[])
        r = subprocess.run(["/bin/sh", "-c", 'test -r "$1" -a -x "$2" -a -w "$3" -a -w "$4"', "sh", scnfile, b + "/drv", out, scratchdir], **who)
        return who if r.returncode == 0 else {}
    except OSError:
        return {}

def run_driver(b, scnfile, out, scratchdir, timeout=20, max_crashes=12):
    """Runs all scenarios of one file, resuming after a scenario that crashed or hung."""
    os.makedirs(scratchdir, exist_ok=True)
    open(out, "w").close()
    start = 0
    who = unprivileged(b, scnfile, out, scratchdir)
    crashes = []
    env = dict(os.environ, **ASAN_ENV, DRV_HELPER=b + "/helper")
    while True:
        errf = out + ".err"
        with open(errf, "wb") as ef:
            p = subprocess.run([b + "/drv", scnfile, out, str(start), scratchdir, str(timeout)], stdout=subprocess.DEVNULL, stderr=ef,
                           stdin=subprocess.DEVNULL, env=env, **who)
        if p.returncode == 0:
            break
        err = open(errf, "rb").read()[-6000:].decode("latin1")
        if p.returncode == 9:
            raise CheckError("driver error on %s: %s" % (scnfile, err[-1500:]))
        last = None
        with open(out) as f:
            for line in f:
                if line.startswith('{"ev":"scn"'):
                    last = json.loads(line)
        if last is None:
            raise CheckError("driver died before the first scenario: " + err)
        hang = p.returncode == 3
        crashes.append((last["id"], "hang" if hang else "crash", err))
        if not hang:
            # drop a partial last line, then record the crash
            data = open(out, "rb").read()
            if not data.endswith(b"\n"):
                data = data[:data.rfind(b"\n") + 1]
            open(out, "wb").write(data + b'{"ev":"crash"}\n')
        with open(out, "a") as f:
            f.write('{"ev":"end","idx":%d}\n' % last["idx"])
        start = last["idx"] + 1
        if len(crashes) >= max_crashes:
            break
    return crashes

def tlc_cmd(spec, cfg, meta, workers=1, extra=()):
    return ["tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", str(workers), "-nowarning", "-deadlock", "-noGenerateSpecTE"] + list(extra) + [spec]

def model_check(scratch, spec, cfg, workers=4, timeout=600, simulate=None, seed=None, env=None, heap="4g"):
    """Runs TLC on a model; returns (states, distinct, output). Raises on anything but success."""
    meta = tempfile.mkdtemp(prefix="meta-", dir=scratch.dir)
    extra = []
    if simulate:
        extra += ["-simulate", simulate[0], "-depth", str(simulate[1])]
    if seed is not None:
        extra += ["-seed", str(seed)]
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + scratch.dir, "-cp", JAR + ":" + VERIF + "/spec"] + tlc_cmd(spec, cfg, meta, workers, extra)
    t = time.time()
    p = subprocess.run(cmd, cwd=VERIF + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    out = p.stdout
    m = re.search(r"^(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out, re.M)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if simulate:
        m = re.search(r"The number of states generated: (\d+)", out)
        st = (int(m.group(1)), 0) if m else st
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, st, out, time.time() - t

def split_trace(events, n):
    """Splits a list of lines into n shards at scenario boundaries."""
    scns, cur = [], []
    for line in events:
        if line.startswith('{"ev":"scn"') and cur:
            scns.append(cur); cur = []
        cur.append(line)
    if cur:
        scns.append(cur)
    n = max(1, min(n, len(scns)))
    shards = [[] for _ in range(n)]
    sizes = [0] * n
    for s in scns:
        i = sizes.index(min(sizes))
        shards[i].extend(s)
        sizes[i] += sum(len(x) for x in s) + 200 * len(s)
    return [s for s in shards if s]

FAILRE = re.compile(r'^<<"FAIL", (\d+), \{(.*?)\}>>', re.M)

def validate(scratch, spec, lines, nshards=NCPU, timeout=800, heap="2g"):
    """Validates recorded events against a trace specification; returns (failures, states).
    failures: list of (violated clauses, events of the shard, 1-based number of the event in the shard)"""
    todo = split_trace(lines, nshards)
    fails, states, again = [], 0, 0
    deadline = time.time() + timeout
    while todo:
        jobs = []
        for s in todo:
            d = tempfile.mkdtemp(prefix="tv-", dir=scratch.dir)
            tf = d + "/trace.ndjson"
            with open(tf, "w") as f:
                f.write("\n".join(s) + "\n")
            cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + scratch.dir, "-cp", JAR + ":" + VERIF + "/spec",
                   "tlc2.TLC", "-config", VERIF + "/spec/" + spec + ".cfg", "-metadir", d + "/meta", "-workers", "1", "-nowarning", "-deadlock", "-noGenerateSpecTE", VERIF + "/spec/" + spec + ".tla"]
            jobs.append((s, d, subprocess.Popen(cmd, cwd=d, stdout=open(d + "/out", "w"), stderr=subprocess.STDOUT, env=dict(os.environ, TRACE_FILE=tf))))
        todo = []
        for s, d, p in jobs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                for _, _, q in jobs:
                    q.kill()
                raise CheckError("TLC trace validation timed out")
            out = open(d + "/out").read()
            shutil.rmtree(d, ignore_errors=True)
            found = [(re.findall(r'"([^"]+)"', m.group(2)), s, int(m.group(1))) for m in FAILRE.finditer(out.replace("\n ", " "))]
            m = re.search(r"(\d+) states generated, (\d+) distinct", out)
            if "No error has been found" in out and "TRACE-DONE" in out and m and int(m.group(2)) == len(s) + 1:
                fails += found
                states += int(m.group(2))
                continue
            # an event outside the domain of the specification: TLC has no value for its clauses
            if not m or not re.search("TLC was (evaluating|unable to fingerprint)", out) or "OutOfMemory" in out or not 0 < int(m.group(2)) <= len(s):
                for _, _, q in jobs:
                    q.kill()
                raise CheckError("TLC failed on a trace (%s):\n%s" % (spec, out[-4000:]))
            k = int(m.group(2))
            fails += found + [(["X1-outside-specification"], s, k)]
            states += k
            again += 1
            while k < len(s) and not s[k].startswith('{"ev":"scn"'):
                k += 1
            if k < len(s) and again <= 64:
                todo.append(s[k:])
    return fails, states

def scenario_of(shard, ln):
    """The (idx, id) of the scenario that contains 1-based line ln of the shard."""
    for i in range(ln - 1, -1, -1):
        if shard[i].startswith('{"ev":"scn"'):
            e = json.loads(shard[i])
            return e["idx"], e["id"]
    return None, None
