"""Behaviours of the model of the archive iterators (ProviderIter.tla), on real archives of every format."""
import random
import garch, gen
from gen import Scenarios, rnd_bytes

def scaled(d, L, x):
    """item x of a member of d items, in a member of L bytes"""
    if d == 0:
        return x
    return x * L // d if x <= d else L + (x - d) * max(1, L // d)

def build(r, k, ds):
    u = r.choice([1, 1, 2, 3, 85, 170, 171, 256, 341, 512, 513, 1000, 1365, 1366, 4096])
    lens = [max(0, d * u + (r.choice([0, 0, 0, 1, -1]) if d else 0)) for d in ds]
    if k in ("sdf", "ole"):
        lens = [max(1, x) for x in lens]
    if k == "ole" and r.random() < .4:
        lens = [x + r.choice([0, 4095, 4096]) for x in lens]
    datas = [rnd_bytes(r, x, r.choice([4, 256])) for x in lens]
    if k == "sdf":
        datas = None if not datas else [x.replace(b"$", b"#") for x in datas]
    for _ in range(40):
        if k == "mail":
            a = garch.mail(r)
        elif k in ("tar", "zip") and not ds:
            return None
        else:
            a = garch.MAKE[k](r, len(ds), datas)
        if sum(m["vis"] for m in a.ms) == len(ds) and len(a.data) < 200000:
            return a
        if k != "mail":
            return None
    return None

def real_cut(a, t):
    """The byte of the real archive that corresponds to the cut of the abstract one."""
    if t["cut"] >= t["total"]:
        return len(a.data)
    b = garch.boundaries_of(a)
    vis = [j for j, m in enumerate(a.ms) if m["vis"]]
    off = 0
    for i, d in enumerate(t["ds"]):
        h, e = off + 2, off + 2 + d
        end = e + d % 2
        H, D, E, T = b[vis[i]]
        if t["cut"] < h:
            return H + (t["cut"] - off) * (D - H) // 2
        if t["cut"] <= e:
            return D + scaled(d, E - D, t["cut"] - h) if d else D
        if t["cut"] < end:
            return E + (T - E) // 2
        off = end
    T = b[-1][3] if b else 0
    return T + (len(a.data) - T) * (t["cut"] - off) // 2 if t["total"] > off else T

def histories(seed, tests, kinds, cuts):
    S = Scenarios(seed)
    r = S.r
    for i, t in enumerate(tests):
        k = kinds[i % len(kinds)]
        a = build(r, k, t["ds"])
        if a is None:
            continue
        S.new("tl-" + k)
        data = a.data
        cut = real_cut(a, t) if cuts else len(data)
        if t["flt"]:
            if cut >= len(data):
                continue
            gen.source_at(S, "s", data, fault=cut, p=.05)
        else:
            gen.source_at(S, "s", data[:cut], p=.05)
        S.add("prov p %s s" % k)
        garch.pexp(S, a, cut=cut, flt=t["flt"])
        vis = [m for m in a.ms if m["vis"]]
        for j, m in enumerate(vis):
            S.add("ment p %d %s" % (j, S.blob(m["_data"])))
        j = -1
        for o in t["ops"]:
            if o[0] == "n":
                S.add("next p")
                j += 1
                continue
            L, d = (vis[j]["len"], t["ds"][j]) if j < len(vis) else (1, 1)
            f = lambda x: scaled(d, L, x)
            if o[0] == "r":
                mn = max(1, f(o[1]))
                mx = f(o[2]) if o[2] >= o[1] else r.choice([0, mn - 1])
                S.add("read p.e %d %d" % (mn, mx))
            elif o[0] == "k":
                S.add("skip p.e %d" % f(o[1]))
            else:
                S.add("reset p.e %d" % f(o[1]))
        for _ in range(max(0, len(vis) - j) + r.choice([0, 1, 2])):
            S.add("next p")
        S.add("pfin p")
        S.count("tl:" + k)
        S.count("tlops:%d" % min(12, len(t["ops"])))
    return S
