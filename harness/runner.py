"""Run scenarios on the simulator and validate the traces with TLC."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild
from convert import convert

SPEC = os.environ.get("VERIF_SPEC", os.path.join(VERIF, "spec"))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class ToolError(Exception):
    pass


def run_sim(binary, scn, timeout=300):
    d = tempfile.mkdtemp(prefix="swsim.")
    try:
        sj, out = os.path.join(d, "s.json"), os.path.join(d, "o.nd")
        with open(sj, "w") as f:
            json.dump(scn, f)
        try:
            p = subprocess.run([binary, sj, out, os.path.join(d, "root")], capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return [{"end": "hang", "t": 0, "cause": "boot", "ev": []}]
        recs = []
        if os.path.exists(out):
            with open(out, "rb") as f:
                for l in f:
                    try:
                        recs.append(json.loads(l))
                    except ValueError:
                        break
        if p.returncode == 2:
            raise ToolError("simulator: " + p.stderr.decode(errors="replace")[-500:])
        if not recs or "end" not in recs[-1]:
            recs.append({"end": "crash", "t": recs[-1]["t"] if recs else 0, "cause": "op", "ev": []})
        return recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def find_java():
    """the class path the installed tlc wrapper uses"""
    w = shutil.which("tlc")
    txt = open(w).read() if w else ""
    m = re.search(r"-cp\s+[\"']?([^\s\"']+)", txt)
    return m.group(1) if m else JAR


_CP = None


def tlc(module, cfg, env=None, extra=(), mem="3g", timeout=800, cwd=SPEC, workers=1, stop=None):
    global _CP
    if _CP is None:
        _CP = find_java()
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m"] + (["-Dtlc2.TLC.stopAfter=%d" % stop] if stop else []) + ["-cp", _CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise ToolError("TLC timed out: %s" % module)
        return p.returncode, p.stdout + p.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


MARK = re.compile(r'<<\s*"(BAD|KNOWN|DONE)",\s*(\d+),\s*(\d+)(?:,\s*\{([^}]*)\})?\s*>>', re.S)


def validate_once(traces, workers, extra_env=None):
    """one TLC run over the traces: (results, (generated, distinct), error text or None, tid in error)"""
    d = tempfile.mkdtemp(prefix="swtr.")
    try:
        f = os.path.join(d, "t.json")
        with open(f, "w") as h:
            json.dump(traces, h)
        env = {"SWAMPD_TRACES": f}
        env.update(extra_env or {})
        rc, out = tlc("SwampdTrace", "SwampdTrace.cfg", env, workers=workers, mem="8g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = [{"bad": [], "known": set(), "done": False} for _ in traces]
    for m in MARK.finditer(out):
        k, t, s, ids = m.group(1), int(m.group(2)) - 1, int(m.group(3)), m.group(4)
        ids = [x.strip().strip('"') for x in (ids or "").split(",") if x.strip()]
        if k == "BAD":
            res[t]["bad"].append((s, ids))
        elif k == "KNOWN":
            res[t]["known"].update(ids)
        else:
            res[t]["done"] = True
    for r in res:
        r["bad"].sort()
    st = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = (int(st.group(1)), int(st.group(2))) if st else (0, 0)
    err = tid = None
    if "Model checking completed. No error has been found" not in out:
        i = out.find("Error:")
        err = "\n".join(l[:400] for l in out[max(i, 0):].split("\n") if not l.startswith("/\\ S ="))[:6000]
        m = re.findall(r"^/\\ tid = (\d+)", out, re.M)
        tid = int(m[-1]) - 1 if m else None
    return res, stats, err, tid


def validate(traces, jobs=JOBS):
    """validate all traces; returns (results, distinct states, states generated).
    A trace TLC cannot evaluate is reported with an `error` entry."""
    n = len(traces)
    results = [None] * n
    todo = list(range(n))
    states = trans = 0
    fails = 0
    while todo:
        res, st, err, tid = validate_once([traces[i] for i in todo], min(jobs, len(todo)))
        states += st[1]
        trans += st[0]
        if err is None:
            for i, r in zip(todo, res):
                results[i] = r
            break
        if tid is None or fails >= 6:
            for i, r in zip(todo, res):
                r["error"] = err
                results[i] = r
            break
        fails += 1
        res[tid]["error"] = err
        results[todo[tid]] = res[tid]
        del todo[tid]
    return results, states, trans


def run_all(bins, scns, jobs=JOBS):
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(lambda s: run_sim(bins[s.get("variant", "default")], s), scns))


def traces_of(scns, recs, jobs=JOBS):
    return [convert(s, r) for s, r in zip(scns, recs)]
