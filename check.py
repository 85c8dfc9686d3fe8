#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property on /repo's tree
   check.py replay <file>                    run one recorded scenario again
   check.py setup                            build everything once

Exit 0: held on everything explored.  Exit 1: violated, with a VIOLATION line.
Exit 2: the check itself could not be carried out."""
import concurrent.futures, hashlib, json, os, random, sys, threading, time, traceback, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import runner
from runner import ToolError
import gen, profiles, directed, models

LEVEL = "model_checking"


def known_findings():
    """keys of findings that are listed and not repaired: key -> (property, text)"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding:"):
            w = dict(x.split("=", 1) for x in l.split()[1:3])
            out[w["key"]] = (w["property"], l.split(None, 3)[3])
    return out


def scenarios(pid, tier, seed):
    """(name, scenario) to run for a property"""
    out = []
    for name, scn in directed.scenarios(pid, tier):
        out.append((name, scn))
    profs = profiles.PROFILES[pid]
    total = profiles.QUICK.get(pid, 64) if tier == "quick" else profiles.THOROUGH.get(pid, 700)
    wsum = sum(w for w, _ in profs)
    base = (zlib.crc32(pid.encode()) % 1000) * 1000 + (seed * 7919) % 1000 * 1000000
    k = 0
    for j, (w, prof) in enumerate(profs):
        n = max(1, round(total * w / wsum))
        for i in range(n):
            k += 1
            p = dict(prof)
            if tier == "thorough" and "variant" not in p and i % 6 == 5:
                p["variant"] = {"allon": 1}
            s = base + j * 10000 + i
            out.append(("random:%d:%d" % (j, s), (s, p)))
    return out


def materialise(items):
    res = []
    for name, x in items:
        if isinstance(x, tuple):
            x = gen.gen(x[0], dict(x[1]))
        res.append((name, x))
    return res


class Log:
    def __init__(self):
        self.t0 = time.time()

    def __call__(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)


def write_replay(pid, name, scn, bad, tr):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "scenario": scn, "name": name, "bad": bad,
            "step": tr["steps"][bad[0][0] - 1] if bad and tr else None}
    txt = json.dumps(body, indent=1, default=str)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        f.write(txt)
    return p


def decide(pid, tier, seed):
    log = Log()
    findings = known_findings()
    items = materialise(scenarios(pid, tier, seed))
    variants = ["default"] + sorted({s.get("variant", "default") for _, s in items} - {"default"})
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=4)
    fb = pool.submit(runner.simbuild.build, runner.REPO, variants)
    # the specification itself: every reachable state of the bounded models
    fm = pool.submit(models.check, pid, tier)
    try:
        bins = fb.result()
    except runner.simbuild.BuildError as e:
        print("cannot build the simulator from %s:\n%s" % (runner.REPO, e))
        return 2
    log("built", ",".join(variants))
    mc = fm.result()
    for m in mc:
        log("model %s: %d states, %d transitions" % (m["model"], m["distinct"], m["generated"]))
    items += [(n, s) for m in mc for n, s in m.get("behaviours", [])]
    more = sorted({s.get("variant", "default") for _, s in items} - set(bins))
    if more:
        bins.update(runner.simbuild.build(runner.REPO, more))
    scns = [s for _, s in items]
    violations, known, samples = [], {}, []
    states = sum(m["distinct"] for m in mc)
    trans = sum(m["generated"] for m in mc)
    ntr = nsteps = errors = 0
    errtext = None
    CH = 240
    for lo in range(0, len(items), CH):
        part = items[lo:lo + CH]
        recs = runner.run_all(bins, [s for _, s in part])
        trs = runner.traces_of([s for _, s in part], recs)
        log("ran %d scenarios, %d steps" % (len(part), sum(len(t["steps"]) for t in trs)))
        res, st, tg = runner.validate(trs)
        states += st
        trans += tg
        log("validated")
        for (name, scn), tr, r in zip(part, trs, res):
            if r.get("error"):
                errors += 1
                errtext = errtext or (name + ": " + r["error"])
                continue
            ntr += 1
            nsteps += len(tr["steps"])
            mine = [b for b in r["bad"] if pid in b[1] or "CRASH" in b[1]]
            for k in r["known"]:
                if k in findings:
                    known.setdefault(k, name)
                elif k.split(":")[0] == pid:
                    mine.append((0, [k]))
            if mine:
                # only what a second run repeats counts
                rec2 = runner.run_sim(bins[scn.get("variant", "default")], scn)
                tr2 = runner.traces_of([scn], [rec2])
                r2 = runner.validate(tr2)[0][0]
                again = [b for b in r2["bad"] if pid in b[1] or "CRASH" in b[1]] or \
                    [(0, [k]) for k in r2["known"] if k not in findings and k.split(":")[0] == pid]
                if again:
                    violations.append({"scenario": name, "steps": again, "replay": write_replay(pid, name, scn, again, tr2[0])})
                    if len(violations) >= 3:
                        break
            elif len(samples) < 2 and len(tr["steps"]) > 3:
                samples.append({"scenario": name, "argv": scn.get("argv"), "operations": scn.get("ops", [])[:6], "steps": len(tr["steps"])})
        if violations:
            break
    for k in sorted(known):
        if findings[k][0] == pid:
            print("KNOWN-FINDING: property=%s %s [%s, seen in %s]" % (pid, findings[k][1], k, known[k]))
    mcbad = [m for m in mc if m.get("violated")]
    for m in mcbad:
        print("the model %s does not satisfy %s" % (m["model"], m["violated"]))
    for v in violations:
        print("%s: %s" % (v["scenario"], "; ".join("step %d %s" % (s, ",".join(i)) for s, i in v["steps"][:3])))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL,
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntr,
                       "steps_validated": nsteps, "scenarios": len(items), "variants": sorted(bins),
                       "models": [{k: m[k] for k in ("model", "distinct", "generated", "depth") if k in m} for m in mc],
                       "behaviours_replayed": sum(len(m.get("behaviours", [])) for m in mc),
                       "directed": sum(1 for n, _ in items if n.startswith("directed")),
                       "known_findings": sorted(k for k in known if findings[k][0] == pid),
                       "samples": samples},
          "assumptions": ["the D-Bus daemon, object mapper and clock are simulated (sim/)",
                          "values lie on the grid on which the specification computes exactly; others are compared as unknown"],
          "wall_s": round(time.time() - log.t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%d traces, %d states" % (ntr, states))
    if violations:
        return 1
    if errors:
        print("TLC could not evaluate %d traces: %s" % (errors, errtext[:3000]))
        return 2
    if mcbad:
        return 2
    return 0


def replay(path):
    body = json.load(open(path))
    scn = body["scenario"]
    v = scn.get("variant", "default")
    bins = runner.simbuild.build(runner.REPO, [v])
    tr = runner.traces_of([scn], [runner.run_sim(bins[v], scn)])
    r = runner.validate(tr)[0][0]
    print(json.dumps({"bad": r["bad"], "known": sorted(r["known"]), "error": r.get("error")}, indent=1))
    pid = body["property"]
    if any(pid in b[1] or "CRASH" in b[1] for b in r["bad"]):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        runner.simbuild.build(runner.REPO, ["default"] + [v for v in runner.simbuild.VARIANTS if v != "default"])
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return decide(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    except (ToolError, runner.simbuild.BuildError) as e:
        print("error:", e)
        return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
