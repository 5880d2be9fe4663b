"""Scenarios for process streams."""
import json
import gen
from gen import Scenarios, content, rnd_bytes

def pat(o, n):
    return bytes((i * 7 + (i >> 8) * 13 + (i >> 16)) & 255 for i in range(o, o + n))

def size(r):
    return r.choice([0, 1, 2, 100, 1000, 4095, 4096, 4097, 65535, 65536, 65537, r.randint(1, 3000), r.randint(1, 3000), r.randint(3000, 200000), 300000])

def outcome(script, inp):
    out, rec, off, dead, open_ = b"", 0, 0, False, True
    for op, n in script:
        if dead:
            break
        if op == "w":
            out += pat(off, n); off += n
        elif op == "r":
            rec += min(n, len(inp) - rec)
        elif op == "ra":
            rec = len(inp)
        elif op == "e":
            out += inp[rec:]; rec = len(inp)
        elif op == "tac":
            k = len(inp) - rec
            out += pat(off, k); off += k; rec = len(inp)
        elif op in ("x", "hold"):
            dead = True
    return out

def words(r, script):
    res = []
    for op, n in script:
        res.append("w:%d,%d" % (n, r.choice([1, 7, 512, 4096, 65536]) if n < 3000 else r.choice([4096, 65536, 1000])) if op == "w" else "%s:%d" % (op, n) if op in ("r", "s", "x") else op)
    return res

def model(script, inp, full, end="clean", flt=0, exists=1, L=0):
    return json.dumps({"script": [{"op": o, "n": n} for o, n in script], "nin": len(inp), "full": full, "flt": flt, "exists": exists, "end": end, "L": L}, separators=(",", ":"))

def start(S, name, script, inp=None, end="clean", exe=None, extra="", flt=0, src=None):
    r = S.r
    out = outcome(script, inp or b"")
    a = ""
    if inp is not None:
        b = S.blob(inp)
        s = "i" + name
        if src:
            S.add("src %s %s" % (s, src % b))
        else:
            z = r.random()
            if flt:
                S.add("src %s chunk %s mode=rand seed=%d fault=%d" % (s, b, r.randrange(1 << 30), flt - 1))
            elif z < .5:
                S.add("src %s chunk %s %s" % (s, b, " ".join(gen.chunk_args(r, len(inp), r.choice(["rand", "max", "sched"])))))
            elif z < .7:
                S.add("src %s string %s" % (s, b))
            elif z < .85:
                S.add("src %s tbuf %s mode=rand seed=%d minbuf=%d" % (s, b, r.randrange(1 << 30), r.choice([1, 100, 4096])))
            else:
                S.add("src %s file %s hint=%s bufsize=%d" % (s, b, r.choice(["auto", "buffered", "mmap", "unbuffered"]), r.choice([1048576, 64, 1000])))
        a = " in=%s inblob=%s" % (s, b)
    L = len(out)
    m = model(script, inp or b"", 0, end, 1 if flt else 0, 0 if exe else 1, L)
    S.add("proc %s%s%s%s json=%s %s" % (name, a, " exe=" + exe if exe else "", extra, m, " ".join(words(r, script))))
    gen.expect(S, name, out, "proc", end)
    return out

def finish(S, name, script, inp, full, **kw):
    S.add("procend %s json=%s" % (name, model(script, inp or b"", full, **kw)))

def drain(S, name, L):
    r = S.r
    if r.random() < .4:
        gen.ops(S, name, L, r.randint(1, 8), finish=False)
        if L > 3000:
            S.add("skip %s %d" % (name, r.randint(1, L)))
    if L > 3000:
        k = max(r.choice([1000, 4096, 70000]), L // 40)
        mx = r.choice([0, 0, k, 65536 + k])
    else:
        k, mx = r.choice([(1, 0), (1, 0), (1, 50), (10, 0), (10, 50)])
    S.add("drain %s %d %d" % (name, k, mx))
    S.add("read %s 1 0" % name)

def partial(S, name, L):
    """reads that need no more than L bytes"""
    r = S.r
    left = L
    for _ in range(r.randint(0, 4)):
        k = r.choice([1, 10, 4096, left]) if left else 0
        if k == 0 or k > left:
            break
        S.add(("read %s %d %d" % (name, k, k)) if r.random() < .7 else "skip %s %d" % (name, k))
        left -= k

def script(r, hasin):
    s = []
    for _ in range(r.randint(1, 4)):
        z = r.random()
        if z < .4 or not hasin:
            s.append(("w", size(r)))
        elif z < .6:
            s.append(("r", size(r)))
        elif z < .7:
            s.append(("e", 0))
        elif z < .78:
            s.append(("ra", 0))
        elif z < .86:
            s.append(("tac", 0))
        elif z < .92:
            s.append(("s", r.randint(1, 20)))
        else:
            s.append(("ci", 0))
            hasin = False
    z = r.random()
    if z < .1:
        s.append(("x", r.choice([0, 1, 3])))
    elif z < .2:
        s.append(("co", 0))
        if hasin and r.random() < .5:
            s.append(r.choice([("ra", 0), ("r", 10)]))
    return s

def closed(S):
    """the application has no standard input or no standard output"""
    if S.r.random() > .15:
        return ""
    m = S.r.choice([1, 2, 3])
    S.count("closed descriptors %d" % m)
    return " closed=%d" % m

def procs(seed, n):
    S = Scenarios(seed)
    r = S.r
    for i in range(n):
        z = r.random()
        S.new("proc")
        if z < .2:          # output only
            s = script(r, False)
            out = start(S, "p", s, extra=closed(S))
            drain(S, "p", len(out))
            finish(S, "p", s, None, 1)
            S.count("output only")
        elif z < .55:       # with input
            s = script(r, True)
            inp = content(r) if r.random() < .5 else rnd_bytes(r, size(r))
            out = start(S, "p", s, inp, extra=closed(S))
            drain(S, "p", len(out))
            finish(S, "p", s, inp, 1)
            S.count("with input")
        elif z < .7:        # destroyed before the end
            hasin = r.random() < .5
            s = [x for x in script(r, hasin) if x[0] not in ("co", "x")] + [("hold", 0)]
            inp = rnd_bytes(r, size(r)) if hasin else None
            out = start(S, "p", s, inp)
            if r.random() < .7:
                S.add("procwait p")
            partial(S, "p", len(out))
            finish(S, "p", s, inp, 0)
            S.count("destroyed early")
        elif z < .88:       # several at once
            ps = []
            for j in range(r.choice([2, 2, 3])):
                hasin = r.random() < .6
                hold = j > 0 and r.random() < .4
                s = script(r, hasin)
                if hold:
                    s = [x for x in s if x[0] not in ("co", "x")] + [("hold", 0)]
                inp = rnd_bytes(r, size(r)) if hasin else None
                out = start(S, "p%d" % j, s, inp, extra=closed(S) if j == 0 else "")
                if hold:
                    S.add("procwait p%d" % j)
                ps.append(["p%d" % j, s, inp, out, hold])
            r.shuffle(ps)
            for p in ps:
                if r.random() < .3 and not p[4]:
                    partial(S, p[0], len(p[3]))
            for name, s, inp, out, hold in ps:
                full = 0
                if hold:
                    partial(S, name, len(out)) if r.random() < .5 else None
                elif r.random() < .8:
                    drain(S, name, len(out)); full = 1
                finish(S, name, s, inp, full)
            S.count("several")
        elif z < .9:        # closes its output and goes on for ever
            hasin = r.random() < .7
            s = [x for x in script(r, hasin) if x[0] not in ("co", "x")] + [("co", 0), ("hold", 0)]
            inp = rnd_bytes(r, r.choice([size(r), 200000, 400000])) if hasin else None
            out = start(S, "p", s, inp)
            drain(S, "p", len(out))
            finish(S, "p", s, inp, 1)
            S.count("output closed")
        elif z < .93:       # failing input
            inp = rnd_bytes(r, max(1, size(r)))
            s = [r.choice([("e", 0), ("ra", 0), ("tac", 0)])]
            start(S, "p", s, inp, end="error", flt=1 + r.randint(0, len(inp) - 1))
            S.add("drain p %d 0" % max(1, len(inp) // 50), "read p 1 0")
            finish(S, "p", s, inp, 1, flt=1)
            S.count("failing input")
        elif z < .96:       # no such command
            hasin = r.random() < .5
            inp = rnd_bytes(r, size(r)) if hasin else None
            S.count("no command")
            start(S, "p", [], inp, end="maybe", exe="/nonexistent/command")
            S.add("drain p 1 0")
            finish(S, "p", [], inp, 0, exists=0)
        else:               # no descriptors left
            inp = rnd_bytes(r, 100) if r.random() < .6 else None
            start(S, "p", [("e", 0)] if inp else [("w", 100)], inp, end="error", extra=" nofd=1 spare=%d" % r.choice([0, 1] + ([2, 3] if inp else [])))
            S.add("drain p 1 0")
            finish(S, "p", [], inp, 0, exists=0)
            S.count("no descriptors")
    return S

def pump(seed, tests):
    """Terminal states of ProcessPump: a script, its input and the outcome, with units near the capacity of a pipe."""
    S = Scenarios(seed)
    r = S.r
    u = r.choice([40000, 50000, 65535, 65536, 65537])
    ins = {}
    for t in tests:
        S.new("pump")
        inp = ins.setdefault(t["nin"], rnd_bytes(r, t["nin"] * u))
        s = [(o["op"], o["n"] * u) for o in t["script"]]
        out = outcome(s, inp)
        assert len(out) == t["out"] * u, "the model and the scenario disagree"
        start(S, "p", s, inp, src=r.choice(["string %s", "chunk %%s mode=max seed=%d" % r.randrange(1 << 30), "chunk %%s mode=rand seed=%d" % r.randrange(1 << 30)]) if r.random() < .7 else None)
        k = r.choice([4096, u, 2 * u])
        S.add("drain p %d %d" % (k, r.choice([0, k])), "read p 1 0")
        finish(S, "p", s, inp, 1)
        S.count("model:" + "+".join(sorted({o["op"] for o in t["script"]})))
    return S
