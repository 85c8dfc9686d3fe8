"""Turn a scenario and what the simulator recorded for it into a trace for the
TLA+ trace specification (spec/SwampdTrace.tla)."""
import json, os, re
from fx import fx, fxlog, INEX

BASE_MS = 1700000000000
FAN_IFACE = "xyz.openbmc_project.Control.FanPwm"
PROPS = "org.freedesktop.DBus.Properties"
VARS = {"default": (0, 0, 0, 0), "allon": (1, 1, 1, 1), "strict": (1, 0, 0, 0), "offline": (0, 1, 0, 0),
        "unc": (0, 0, 1, 0), "missing": (0, 0, 0, 1)}
RE_IN = re.compile(r"Zone `(-?\d+)` is in failsafe mode\.\t\tWith update at `([^`]*)`: (.*)")
RE_OUT = re.compile(r"Zone `(-?\d+)` leaves failsafe mode\.\t\tWith update at `([^`]*)`: (.*)")


def sys_int(text):
    """what reading an integer from a file's text yields"""
    m = re.match(r"\s*([+-]?\d+)", text)
    return int(m.group(1)) if m else 0


def relpath(p):
    """scenario path -> path as the daemon sees it"""
    p = p.replace("@@", "@")
    if p.startswith("@/"):
        p = p[1:]
    return p


def tag(j):
    if j is None:
        return {"k": "z"}
    if isinstance(j, bool):
        return {"k": "b", "v": j}
    if isinstance(j, (int, float)):
        return {"k": "n", "v": fx(j)}
    if isinstance(j, str):
        return {"k": "s", "v": j.replace("@@", "")}
    if isinstance(j, list):
        return {"k": "a", "v": [tag(x) for x in j]}
    return {"k": "o", "v": {k: tag(v) for k, v in j.items()}}


def tagtext(c):
    if isinstance(c, str):
        try:
            return tag(json.loads(c))
        except ValueError:
            return {"k": "bad"}
    return tag(c)


def dval(sv):
    s, v = sv
    if s in ("d", "x", "t", "i", "u", "q", "n", "y"):
        return {"s": s, "v": fx(v)}
    if s == "ad":
        return {"s": s, "v": [fx(x) for x in v]}
    if s == "v":
        return dval(v)
    return {"s": s, "v": v}


def dprops(p):
    return {k: dval(v) for k, v in p.items()}


def basename(p):
    return p.rsplit("/", 1)[-1]


def all_strings(j, out):
    if isinstance(j, str):
        out.add(j.replace("@@", ""))
    elif isinstance(j, dict):
        for k, v in j.items():
            out.add(k)
            all_strings(v, out)
    elif isinstance(j, list):
        for v in j:
            all_strings(v, out)


class Files:
    """which files matter: the configuration candidates, numbers read by sensors
    and tuning, and write targets that cannot be opened"""

    def __init__(self, scn):
        self.conf = None
        argv = scn.get("argv", [])
        for i, a in enumerate(argv):
            if a == "-c":
                self.conf = relpath(argv[i + 1])
        self.cands = [self.conf] if self.conf else \
            ["/config.json", "/var/lib/swampd/config.json", "/usr/share/swampd/config.json"]
        self.alias = scn.get("alias", {})
        self.state = {}
        self.nums = {}
        self.broken = set()

    def put(self, path, content):
        """returns a list of trace ops"""
        p = relpath(path)
        isdir = isinstance(content, dict) and content.get("dir") is True and len(content) == 1
        if p in self.cands:
            if content is None:
                self.state.pop(p, None)
            else:
                self.state[p] = {"k": "bad"} if isdir else tagtext(content)
            return [{"op": "json", "json": self.json()}]
        if isinstance(content, (str, int)) or content is None or isdir:
            ap = self.alias.get(p, p)
            gone = content is None or isdir
            n = 0 if gone else sys_int(str(content))
            if gone:
                self.nums.pop(ap, None)
            else:
                self.nums[ap] = n
            self.broken.discard(ap)
            if isdir:
                self.broken.add(ap)
            return [{"op": "file", "path": ap, "n": n, "gone": gone, "broken": isdir}]
        return []

    def json(self):
        for c in self.cands:
            if c in self.state:
                return self.state[c]
        return {"k": "none"}


def fault(f):
    return {"m": f.get("member", ""), "path": f.get("path", ""), "arg": f.get("arg0", ""),
            "skip": f.get("skip", 0), "left": f.get("count", -1)}


def conv_op(o, files, world):
    """a scenario operation -> list of trace operations"""
    k = o["op"]
    if k == "multi":
        r = []
        for x in o["ops"]:
            r += conv_op(x, files, world)
        return r
    if k == "set" or k == "signal":
        d = {"op": k, "path": o["path"], "iface": o["iface"], "props": dprops(o["props"])}
        if k == "set":
            d["sig"] = o.get("signal", True)
        return [d]
    if k == "addobj":
        return [{"op": "addobj", "path": o["path"], "sig": o.get("signal", True),
                 "ifaces": {i: dprops(p) for i, p in o["ifaces"].items()}}]
    if k == "rmobj":
        w = world.get(o["path"], set())
        gone = list(o["ifaces"]) if "ifaces" in o else sorted(w)
        return [{"op": "rmobj", "path": o["path"], "gone": gone, "sig": o.get("signal", True)}]
    if k == "file":
        return files.put(o["path"], o["content"])
    if k == "fault":
        return [{"op": "faultclear"}] if o.get("clear") else [{"op": "fault", "fault": fault(o)}]
    if k == "sig":
        return [{"op": "hup" if o["n"] == "HUP" else "term"}]
    if k == "ipmi":
        return [{"op": "ipmi", "bytes": list(o["bytes"])}]
    if k == "setsensor":
        return [{"op": "setsensor"}]
    if k == "call" and o.get("iface") == PROPS:
        a = o["args"]
        if o["member"] == "Set":
            sv = dval(a[2])
            return [{"op": "setprop", "path": o["path"], "iface": a[0][1], "prop": a[1][1], "s": sv["s"], "v": sv["v"]}]
        if o["member"] == "Get":
            return [{"op": "getprop", "path": o["path"], "iface": a[0][1], "prop": a[1][1]}]
    if k == "nop":
        return [{"op": "nop"}]
    raise ValueError("operation not supported in traces: %r" % (o,))


def track_world(o, w):
    """keep path -> set of interfaces in step with the operations"""
    k = o["op"]
    if k == "multi":
        for x in o["ops"]:
            track_world(x, w)
    elif k == "set":
        w.setdefault(o["path"], set()).add(o["iface"])
    elif k == "addobj":
        w.setdefault(o["path"], set()).update(o["ifaces"])
    elif k == "rmobj":
        if "ifaces" in o:
            w.get(o["path"], set()).difference_update(o["ifaces"])
            if not w.get(o["path"]):
                w.pop(o["path"], None)
        else:
            w.pop(o["path"], None)


def reply(ev):
    r = ev[1]
    d = {"k": "call", "ok": bool(r["ok"]), "t": "", "v": 0}
    if r["ok"] and r.get("args"):
        v = r["args"][0]
        while isinstance(v, list):
            v = v[-1]
        if isinstance(v, bool):
            d["t"], d["v"] = "b", v
        elif isinstance(v, (int, float)) or v in ("nan", "inf", "-inf"):
            d["t"], d["v"] = "n", fx(v)
        else:
            d["t"], d["v"] = "s", v
    return d


def conf_rec(c):
    sens = {}
    for n, s in c["sensors"].items():
        sens[n] = {"type": s["type"], "rp": s["readPath"], "wp": s["writePath"], "min": s["min"], "max": s["max"],
                   "tmo": s["timeout"], "ignmm": s["ignoreDbusMinMax"], "uaf": s["unavailableAsFailed"],
                   "ignoff": s["ignoreFailIfHostOff"]}
    zones = []
    for z, d in c["zones"].items():
        if z not in c["pids"]:
            continue        # a zone nothing refers to
        pids = []
        for n in sorted(c["pids"].get(z, {}), key=lambda x: x.encode()):
            p = c["pids"][z][n]
            step = p["type"] == "stepwise"
            k, s = p["pid"], p["step"]
            pids.append({
                "name": n, "type": p["type"], "setpoint": fx(p["setpoint"]), "fsp": fx(p["failSafePercent"]),
                "inputs": [{"n": i["name"], "conv": bool(i["conv"]) if not isinstance(i["conv"], str) else False,
                            "zero": fx(i["zero"]), "miss": i["missing"]} for i in p["inputs"]],
                "c": {"ts": fx(k["ts"]), "kp": fx(k["proportionalCoeff"]), "ki": fx(k["integralCoeff"]),
                      "kd": fx(k["derivativeCoeff"]), "ffo": fx(k["feedFwdOffset"]), "ffg": fx(k["feedFwdGain"]),
                      "imin": fx(k["integralLimit.min"]), "imax": fx(k["integralLimit.max"]),
                      "omin": fx(k["outLim.min"]), "omax": fx(k["outLim.max"]), "sneg": fx(k["slewNeg"]),
                      "spos": fx(k["slewPos"]), "hpos": fx(k["positiveHysteresis"]),
                      "hneg": fx(k["negativeHysteresis"]), "chk": bool(k["checkHysterWithSetpt"])} if not step else None,
                "sw": {"pts": [[fx(a), fx(b)] for a, b in s["table"]], "hpos": fx(s["pos"]), "hneg": fx(s["neg"]),
                       "ceil": bool(s["ceil"])} if step else None})
        zones.append({"id": int(z), "minth": fx(d["min"]), "fsp": fx(d["fs"]), "acc": d["acc"], "fan": d["fan"],
                      "therm": d["therm"], "pids": pids, "extra": sorted(set(c["pids"]) - set(c["zones"])) != []})
    nozone = sorted(set(c["pids"]) - set(c["zones"]))
    zero = {k: 0 for k in ("ts", "kp", "ki", "kd", "ffo", "ffg", "imin", "imax", "omin", "omax", "sneg", "spos",
                           "hpos", "hneg")}
    zero["chk"] = False
    for z in zones:
        z.pop("extra")
        for p in z["pids"]:
            if p["c"] is None:
                p["c"] = dict(zero)
            if p["sw"] is None:
                p["sw"] = {"pts": [], "hpos": 0, "hneg": 0, "ceil": False}
    return {"sens": sens, "zones": zones, "nozone": len(nozone)}


def merge(recs):
    """join the records of one step"""
    out = []
    cur = None
    for r in recs:
        if cur is None:
            cur = dict(r)
        else:
            n = dict(r)
            n["cause"] = cur["cause"]
            if "info" in cur:
                n["info"] = cur["info"]
            n["ev"] = cur.get("ev", []) + r.get("ev", [])
            lg = dict(cur.get("logs", {}))
            for k, v in r.get("logs", {}).items():
                lg[k] = lg.get(k, "") + v
            n["logs"] = lg
            if "conf" in cur and "conf" not in n:
                n["conf"] = cur["conf"]
            n["t"] = cur["t"]
            cur = n
        if cur.get("idle") or "end" in cur:
            out.append(cur)
            cur = None
    if cur is not None:
        out.append(cur)
    return out


def convert(scn, recs):
    argv = scn.get("argv", [])
    files = Files(scn)
    for p, c in scn.get("files", {}).items():
        files.put(p, c)
    logdir = None
    for i, a in enumerate(argv):
        if a == "-l":
            logdir = relpath(argv[i + 1])
    extra = scn.get("opts", {})
    opts = {"log": "-l" in argv or extra.get("log", False), "tuning": "-t" in argv or extra.get("tuning", False),
            "debug": "-d" in argv or extra.get("debug", False), "core": "-g" in argv or extra.get("core", False),
            "nolog": extra.get("nolog", [])}
    logdir = extra.get("logdir", logdir)
    world, wif = {}, {}
    for svc in scn.get("world", {}).values():
        for path, ifs in svc.items():
            for i, p in ifs.items():
                world.setdefault(path, {})[i] = dprops(p)
                wif.setdefault(path, set()).add(i)
    v = VARS[scn.get("variant", "default")]
    names = set(scn.get("names", []))
    all_strings(scn.get("world", {}), names)
    all_strings(scn.get("ops", []), names)
    for p, c in scn.get("files", {}).items():
        all_strings(c, names)
        if isinstance(c, str) and c.lstrip().startswith("{"):
            try:
                all_strings(json.loads(c), names)
            except ValueError:
                pass
    for o in scn.get("ops", []):
        if isinstance(o.get("content"), str) and o["content"].lstrip().startswith("{"):
            try:
                all_strings(json.loads(o["content"]), names)
            except ValueError:
                pass
    paths = [n for n in names if n.startswith("/") and len(n) < 300]
    names |= {basename(p) for p in paths}
    names |= {n.replace(" ", "_") for n in names if len(n) < 100}
    if not files.conf and files.json()["k"] == "none":
        fins = [basename(p) for p in paths if "/sensors/" in p or "fan" in p]
        pw = [basename(p) for p in paths if "fan" in p or "pwm" in p]
        names |= {a + b for a in fins for b in pw}
    names = {n for n in names if len(n) < 300}
    rank = {n: i for i, n in enumerate(sorted(names, key=lambda x: x.encode()))}
    tr = {"var": {"strict": bool(v[0]), "offline": bool(v[1]), "unc": bool(v[2]), "missing": bool(v[3])},
          "opts": opts, "files": dict(files.nums), "broken": sorted(files.broken), "world": world,
          "faults": [fault(f) for f in scn.get("faults", [])], "json": files.json(), "rank": rank,
          "logged": False, "steps": []}
    recs = merge(recs)
    steps = tr["steps"]
    rows_at, hdr_at = {}, {}
    partial = {}
    for r in recs:
        if r.get("end") == "done" and not r.get("ev"):
            continue
        e = {"t": r["t"] // 1000, "cause": r.get("cause", ""), "ops": [], "w": [], "zones": [], "pids": [], "ext": [],
             "lg": [], "tr": [], "rows": [], "hdr": [], "core": [], "coef": [], "res": [], "end": ""}
        if e["cause"] == "op" and r.get("info") is not None:
            o = scn["ops"][r["info"]]
            e["ops"] = conv_op(o, files, wif)
            track_world(o, wif)
        if "end" in r:
            e["end"] = {"exit": "exit%d" % (1 if r.get("code") else 0)}.get(r["end"], r["end"])
            if e["end"] == "done":
                e["end"] = ""
        for ev in r.get("ev", []):
            if ev[0] == "sysw":
                p = relpath(ev[1])
                t = ev[2]
                e["w"].append({"path": files.alias.get(p, p), "k": "sys",
                               "v": int(t) if re.fullmatch(r"-?\d{1,9}", t) else -999999})
            elif ev[0] == "call" and ev[4] == "Set" and ev[3] == PROPS:
                a = ev[5]
                if a[0][1] == FAN_IFACE:
                    x = a[2]
                    while isinstance(x, list):
                        x = x[-1]
                    ok = a[1][1] == "Target" and isinstance(x, int) and abs(x) < 1000000000
                    e["w"].append({"path": ev[2], "k": "dbus", "v": x if ok else -999999})
            elif ev[0] == "result":
                e["res"].append(reply(ev))
            elif ev[0] == "ipmi":
                if ev[1] == "nohandler":
                    e["res"].append({"k": "ipmi", "cc": -1, "reply": []})
                else:
                    e["res"].append({"k": "ipmi", "cc": ev[1], "reply": ev[3][:ev[2]] if ev[1] == 0 else []})
        for l in r.get("logs", {}).get("err", "").split("\n"):
            m = RE_IN.match(l)
            if m:
                e["lg"].append([int(m.group(1)), "in", m.group(2), m.group(3)])
                continue
            m = RE_OUT.match(l)
            if m:
                e["lg"].append([int(m.group(1)), "leave", m.group(2), m.group(3)])
        for f, txt in r.get("logs", {}).items():
            if not f.startswith("/"):
                continue
            b = basename(f)
            txt = partial.pop(f, "") + txt
            if not txt.endswith("\n"):
                txt, partial[f] = txt[:txt.rfind("\n") + 1], txt[txt.rfind("\n") + 1:]
            for l in txt.split("\n"):
                if not l:
                    continue
                c = l.split(",")
                m = re.fullmatch(r"zone_(-?\d+)\.log", b)
                if m:
                    zid = int(m.group(1))
                    if c[0] == "epoch_ms":
                        e["hdr"].append({"z": zid, "cols": c})
                    else:
                        t = int(c[0]) - BASE_MS
                        vals = [fxlog(x) for x in c[3:-1]]
                        rows_at.setdefault(t, []).append((zid, t, fxlog(c[1]), c[2], vals, c[-1]))
                elif b.startswith("pidcore.") or b.startswith("pidcoeffs."):
                    if c[0] == "epoch_ms":
                        continue
                    row = [b.split(".", 1)[1], int(c[0]) - BASE_MS, [fxlog(x) for x in c[1:]]]
                    e["core" if b.startswith("pidcore.") else "coef"].append(row)
        if "next" in r:
            nx = r["next"]
            e["next"] = e["t"] + 300000 if nx < 0 else nx // 1000
        objs = r.get("objs", [])
        mode, leader, en, proc = {}, {}, {}, {}
        for o in objs:
            if o["iface"] == "xyz.openbmc_project.Control.Mode":
                mode[o["path"]] = o["props"]
            elif o["iface"] == "xyz.openbmc_project.Debug.Pid.Zone":
                leader[o["path"]] = o["props"]
            elif o["iface"] == "xyz.openbmc_project.Object.Enable":
                en[o["path"]] = o["props"]
            elif o["iface"] == "xyz.openbmc_project.Debug.Pid.ThermalPower":
                proc[o["path"]] = o["props"]
            elif o["iface"] == "xyz.openbmc_project.Sensor.Value" and "/extsensors/" in o["path"]:
                e["ext"].append({"path": o["path"], "v": fx(o["props"]["Value"])})
        zids = {}
        for z in r.get("zones", []):
            d = {"id": z["id"], "setpt": fx(z["setpt"]), "fspct": fx(z["fspct"]), "fs": z["fs"],
                 "cache": {n: [fx(c[0]), fx(c[1])] for n, c in z.get("cache", {}).items() if c}}
            if "failing" in z:
                d["failing"] = {n: fx(p) for n, p in z["failing"].items()}
            if z["path"] in mode:
                d["man"] = mode[z["path"]]["Manual"]
                d["fs"] = mode[z["path"]]["FailSafe"]
            if z["path"] in leader:
                d["who"] = leader[z["path"]]["Leader"]
            zids[z["path"]] = z["id"]
            e["zones"].append(d)
        for p in sorted(set(en) | set(proc)):
            zp, n = p.rsplit("/", 1)
            if zp not in zids:
                m = re.search(r"zone(-?\d+)$", zp)
                zid = int(m.group(1)) if m else -1
            else:
                zid = zids[zp]
            q = proc.get(p, {})
            d = {"z": zid, "name": n, "en": en.get(p, {}).get("Enabled", True)}
            if q:
                d.update({"sp": fx(q["Setpoint"]), "cls": q["ClassType"], "lead": q["Leader"], "in": fx(q["Input"]),
                          "out": fx(q["Output"])})
            e["pids"].append(d)
        if "conf" in r:
            e["conf"] = conf_rec(r["conf"])
        steps.append(e)
    # zone log rows belong to the cycle whose time they carry
    tr["logged"] = bool(scn.get("logged")) and bool(recs) and recs[-1].get("end") == "exit"
    if tr["logged"]:
        byt = {}
        for i, e in enumerate(steps):
            byt.setdefault(e["t"], i)
        for t, rows in sorted(rows_at.items()):
            e = steps[byt[t]] if t in byt else steps[-1]
            for zid, tt, sp, who, vals, fs in rows:
                nf = scn["logged"].get(str(zid), 0) * 4
                e["rows"].append({"z": zid, "t": tt, "sp": sp, "who": who, "fans": vals[:nf], "therms": vals[nf:],
                                  "fs": fs == "1"})
    return tr
