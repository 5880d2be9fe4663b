#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree.

1. TLC checks the design models of the property against the contract.
2. Scenarios come from behaviours TLC generates from the specifications and from seeded generators.
3. The driver, built from the working tree, executes them and records one event per call.
4. TLC validates every recorded event against the trace specification.
Exit 0: held; 1: VIOLATION lines; 2: the check itself failed."""
import concurrent.futures as cf
import json, os, re, shutil, sys, time, traceback
import vlib, plans
from vlib import VERIF, log

def known_findings():
    """finding: property=<id> scenario=<tag> label=<clause> text"""
    res = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) label=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res

def write_scns(d, scns, files, tag):
    f = os.path.join(d, tag + ".scn")
    with open(f, "w") as o:
        for sid, lines in scns:
            o.write("scn %s\n%s\nend\n" % (sid, "\n".join(lines)))
    for k, v in files.items():
        p = os.path.join(d, k)
        if not os.path.exists(p):
            with open(p, "wb") as o:
                o.write(v)
    return f

def drive(scratch, b, batches, timeout, jobs):
    """batches: [(S, trace spec)]; runs the drivers, returns {spec: [trace files]} and crashes."""
    d = scratch.path("scn")
    os.makedirs(d, exist_ok=True)
    work = []
    for bi, (S, spec) in enumerate(batches):
        n = min(jobs, max(1, len(S.scns)))
        for i in range(n):
            part = S.scns[i::n]
            if part:
                tag = "s%d_%d" % (bi, i)
                work.append((write_scns(d, part, S.files, tag), os.path.join(d, tag + ".nd"), spec, scratch.path("x" + tag)))
    def one(w):
        return vlib.run_driver(b, w[0], w[1], w[3], timeout)
    with cf.ThreadPoolExecutor(jobs) as ex:
        cr = list(ex.map(one, work))
    out = {}
    for w in work:
        out.setdefault(w[2], []).append(w)
    return out, [(w, c) for w, cs in zip(work, cr) for c in cs]

def coverage_of(lines, cov):
    """What the recorded events exercised."""
    for line in lines:
        m = re.match(r'\{"ev":"(\w+)"', line)
        ev = m.group(1)
        cov["ev:" + ev] = cov.get("ev:" + ev, 0) + 1
        if ev in ("read", "skip", "reset"):
            m = re.search(r'"st":(\d)', line)
            cov["%s:st%s" % (ev, m.group(1))] = cov.get("%s:st%s" % (ev, m.group(1)), 0) + 1
            if ev == "reset" and '"po":' in line:
                cov["reset:in-segment"] = cov.get("reset:in-segment", 0) + 1

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = plans.PLANS[pid]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": plans.ASSUME + P.assume}
    states = trans = traces = events = 0
    cov, samples, viol, known = {}, [], {}, {}
    modelinfo = {}
    kf = known_findings()
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "thorough" else "0"))
    with vlib.Scratch() as scratch:
        with cf.ThreadPoolExecutor(4) as bg:
            bf = bg.submit(vlib.build, scratch)
            models = [(m, bg.submit(vlib.model_check, scratch, m[0] + ".tla", m[1] + ".cfg", 3, 850)) for m in P.models_for(tier)]
            wrong = [(m, bg.submit(vlib.model_check, scratch, m[0] + ".tla", m[1] + ".cfg", 2, 850)) for m in (P.refuted if tier == "thorough" else [])]
            rnd = 0
            ctx = plans.Ctx(scratch, tier)
            while True:
                s = seed * 1000 + rnd
                batches = P.generate(ctx, s, tier)
                b = bf.result()
                if rnd == 0:
                    for m, f in models:
                        rc, st, out, tm = f.result()
                        if rc != 0:
                            raise vlib.CheckError("model %s/%s: TLC exit %d\n%s" % (m[0], m[1], rc, out[-3000:]))
                        states += st[1]; trans += st[0]
                        modelinfo[m[1]] = {"states": st[1], "transitions": st[0], "s": round(tm, 1)}
                    for m, f in wrong:        # designs that are known to be wrong have to be refuted
                        rc, st, out, tm = f.result()
                        if rc not in (12, 13) or "violated" not in out:
                            raise vlib.CheckError("model %s/%s: not refuted (TLC exit %d)\n%s" % (m[0], m[1], rc, out[-3000:]))
                        modelinfo[m[1]] = {"states": st[1], "transitions": st[0], "s": round(tm, 1), "refuted": 1}
                for S, spec in batches:
                    for k, v in S.cov.items():
                        cov[k] = cov.get(k, 0) + v
                t1 = time.time()
                out, crashes = drive(scratch, b, batches, P.timeout, vlib.NCPU)
                log("drivers: %.1f s" % (time.time() - t1))
                for spec, works in out.items():
                    t1 = time.time()
                    lines, owner = [], {}
                    for w in works:
                        L = open(w[1]).read().split("\n")[:-1]
                        for x in L:
                            if x.startswith('{"ev":"scn"'):
                                owner[json.loads(x)["id"]] = w
                        lines += L
                    if not lines:
                        continue
                    traces += len(owner)
                    events += len(lines)
                    coverage_of(lines, cov)
                    fails, n = vlib.validate(scratch, spec, lines, vlib.NCPU)
                    log("%s: %d events, %.1f s" % (spec, len(lines), time.time() - t1))
                    states += n; trans += len(lines)
                    if len(samples) < 3:
                        i = len(lines) // 3
                        while i > 0 and not lines[i].startswith('{"ev":"scn"'):
                            i -= 1
                        samples.append([x if len(x) < 400 else x[:400] for x in lines[i:i + 12]])
                    bysc = {}
                    for labels, sh, ln in fails:
                        idx, sid = vlib.scenario_of(sh, ln)
                        labels = [l for l in labels if P.counts(l, sid)]
                        if labels:
                            bysc.setdefault(sid, []).append((labels, sh[ln - 1]))
                    todo = []
                    for sid, fl in bysc.items():
                        tag = sid.split("#")[0]
                        labs = sorted({l for ls, _ in fl for l in ls})
                        ks = [k for k in kf if k[0] == pid and k[1] == tag]
                        if ks and all(any(k[2] == l for k in ks) for l in labs):
                            for k in ks:
                                known[k[1] + k[2]] = k
                            continue
                        todo.append((sid, fl, labs))
                    # confirm on a second execution, of the same file and of the scenario alone
                    for sid, fl, labs in todo[:20]:
                        w = owner[sid]
                        key = (tuple(labs), sid.split("#")[0])
                        if key in viol or len(viol) >= 5:
                            continue
                        if not confirm(scratch, b, w, sid, spec, P, set(labs)):
                            log("not confirmed: %s %s" % (sid, labs))
                            cov["unconfirmed"] = cov.get("unconfirmed", 0) + 1
                            continue
                        viol[key] = save_replay(pid, sid, w, scratch, spec, fl, crashes)
                rnd += 1
                shutil.rmtree(scratch.path("scn"), ignore_errors=True)
                if viol or time.time() - t0 > budget:
                    break
                log("round %d done, %.0f s" % (rnd, time.time() - t0))
    ev["coverage"] = {"states": states, "transitions": trans, "traces_validated_against_impl": traces, "events_validated": events,
                      "samples": samples, "models": modelinfo, "exercised": dict(sorted(cov.items())), "rounds": rnd}
    missing = [k for k in P.require if not any(re.fullmatch(k, c) for c in cov)]
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = len(viol)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k[3], k[1]))
    if viol:
        for (labs, tag), path in viol.items():
            print("violated: %s in %s" % (", ".join(labs), tag))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if missing:
        print("check exercised nothing of: %s" % missing)
        return 2
    print("%s held: %d states, %d scenarios, %d events, %.0f s" % (pid, states, traces, events, time.time() - t0))
    return 0

def rerun(scratch, b, scnfile, spec, P, sid, tag):
    out = scratch.path(tag + ".nd")
    vlib.run_driver(b, scnfile, out, scratch.path(tag), P.timeout)
    lines = open(out).read().split("\n")[:-1]
    fails, _ = vlib.validate(scratch, spec, lines, vlib.NCPU)
    labs = set()
    for labels, sh, ln in fails:
        if vlib.scenario_of(sh, ln)[1] == sid:
            labs |= set(labels)
    return labs

def confirm(scratch, b, w, sid, spec, P, labs):
    one = os.path.join(os.path.dirname(w[0]), "one.scn")
    with open(one, "w") as f:
        f.write(extract(w[0], sid))
    for i in range(3):
        if rerun(scratch, b, one, spec, P, sid, "c%d" % i) & labs:
            return True
    for i in range(2):
        if rerun(scratch, b, w[0], spec, P, sid, "d%d" % i) & labs:
            return True
    return False

def extract(scnfile, sid):
    res, on = [], False
    for line in open(scnfile):
        if line.startswith("scn "):
            on = line.split()[1] == sid
        if on:
            res.append(line)
    return "".join(res)

def save_replay(pid, sid, w, scratch, spec, fl, crashes):
    d = VERIF + "/evidence/replay/%s-%s" % (pid, re.sub(r"[^A-Za-z0-9]", "_", sid))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    txt = extract(w[0], sid)
    with open(d + "/scenario.scn", "w") as f:
        f.write(txt)
    for m in set(re.findall(r" file (blob-\w+)", txt)):
        shutil.copy(os.path.join(os.path.dirname(w[0]), m), d)
    with open(d + "/failures.txt", "w") as f:
        f.write("trace specification: %s\n" % spec)
        for labels, e in fl[:50]:
            f.write("%s\n  %s\n" % (labels, e[:2000]))
        for ww, c in crashes:
            if c[0] == sid:
                f.write("%s:\n%s\n" % (c[1], c[2]))
    return os.path.relpath(d, VERIF)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except vlib.CheckError as e:
        log("check failed: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
