"""Configurations published on D-Bus (what EntityManager would export)."""
import re
from gen import PV, pick

EM = "xyz.openbmc_project.EntityManager"
INV = "/xyz/openbmc_project/inventory"
IPID = "xyz.openbmc_project.Configuration.Pid"
IZONE = IPID + ".Zone"
ISTEP = "xyz.openbmc_project.Configuration.Stepwise"
ITHM = "xyz.openbmc_project.Control.ThermalMode"
MODE = "/xyz/openbmc_project/control/thermal_mode"
SENS = "/xyz/openbmc_project/sensors/"


def num(r, v):
    """a number in one of the types EntityManager uses"""
    if float(v) == int(v) and r.random() < 0.3:
        return ["t" if v >= 0 and r.random() < 0.5 else "x", int(v)]
    return ["d", float(v)]


def spaced(r, n):
    return n.replace("_", " ") if r.random() < 0.25 else n


def pattern(r, name):
    """a pattern that matches the name (and perhaps others)"""
    m = r.random()
    k = r.randrange(len(name))
    if m < 0.4:
        return name[:k] + "." + name[k + 1:]
    if m < 0.6:
        return name[:max(1, k)] + ".*"
    if m < 0.8:
        return name[:max(1, k)] + ".+" if k < len(name) and len(name) > max(1, k) else name
    return ".*" + name[max(1, k):] if name[max(1, k):] else name


def build(g):
    r = g.r
    g.cfg = None
    scn = g.scn
    scn["argv"] = []
    objs = {}
    profiles = g.yes("profiles")
    modes = ["Acoustic", "Performance", "Quiet"]
    nz = pick(r, g.p["zones"])
    znames = r.sample(["Zone 1", "Main", "left", "Zone_2", "PSU zone", "Aux"], nz)
    idx = {}
    given = r.random()
    pool = list(range(0, 12)) + [40, 128, 255]
    ids = r.sample(pool, nz)
    for i, n in enumerate(znames):
        if given < 0.5 or given < 0.75 and i == 0:
            idx[n] = ids[i]
    if len(idx) > 1 and r.random() < 0.2:
        idx[znames[1]] = idx[znames[0]]
    real = {}
    if len(idx) == nz and len(set(idx.values())) == nz:
        real = dict(idx)
    else:
        for i, n in enumerate(znames):
            real[n] = idx.get(n, 0)
            while list(real.values()).count(real[n]) > 1:
                real[n] += 1
    g.pidnames_used = []
    seq = 0

    def prof(b):
        if profiles and r.random() < 0.6:
            b["Profiles"] = ["as", r.sample(modes, r.choice([0, 1, 1, 2]))]
        return b

    def add(name, iface, b, board=None):
        p = "%s/system/board/%s/%s" % (INV, board or r.choice(["Base", "Riser"]), "".join(c if c.isalnum() else "_" for c in name))
        while p in objs:
            p += "x"
        objs[p] = {iface: b}
        return p

    pats = []
    groups = []      # thermal sensors that share flags: (class, uaf, ign, [sensors])
    for n in znames:
        acc = g.yes("acc")
        out = r.choice([1, 1, 10])
        b = {"Name": ["s", n], "MinThermalOutput": num(r, r.choice([0, 10, 20, 30]) * out),
             "FailSafePercent": num(r, r.choice([75, 100, 60, 90.5, 30]))}
        if r.random() < 0.05:
            del b["FailSafePercent"]
        if n in idx:
            b["ZoneIndex"] = ["d", float(idx[n])] if r.random() < 0.95 or nz > 1 else ["x", idx[n]]
            if b["ZoneIndex"][0] == "x":
                real[n] = 0
        cy, th = pick(r, g.p["cycle"]), pick(r, g.p["therm"])
        if cy is not None:
            b["CycleIntervalTimeMS"] = num(r, cy)
        if th is not None:
            b["UpdateThermalsTimeMS"] = num(r, th)
        if r.random() < 0.1:
            b["CycleIntervalTimeMS"] = r.choice([["d", 0.0], ["d", -100.0], ["d", 0.5], ["d", 100.75]])
        if acc:
            b["AccumulateSetPoint"] = ["b", True]
        elif r.random() < 0.2:
            b["AccumulateSetPoint"] = ["b", False]
        b = prof(b) if r.random() < 0.15 else b
        ctl, zf = [], []
        pids = []
        # fan controllers
        for k in range(pick(r, g.p["fanpids"])):
            fl = [g.newfan(True) for _ in range(pick(r, g.p["fans"]))]
            one = r.random() < 0.3
            c = g.coeffs("fan", False, out)
            a = coeffs(r, c)
            a.update({"Name": ["s", "Fan %d%s" % (seq, r.choice(["", "_a", " b"]))], "Class": ["s", "fan"],
                      "Inputs": ["as", [spaced(r, f["n"]) for f in fl]]})
            if one:
                for f in fl:
                    f["wpath"] = fl[0]["wpath"]
                a["Outputs"] = ["as", [spaced(r, fl[0]["wpath"].rsplit("/", 1)[1])]]
                if r.random() < 0.3 and len(fl) > 1:
                    a["Inputs"] = ["as", ["fan%s" % ("[0-9]" if False else fl[0]["n"][3:])] + [f["n"] for f in fl[1:]]]
            else:
                a["Outputs"] = ["as", [spaced(r, f["wpath"].rsplit("/", 1)[1]) for f in fl]]
            if r.random() < 0.3:
                a["SetPoint"] = num(r, 90)
            if r.random() < 0.05:
                a["Inputs"][1].append("nofan")
            if g.yes("miss"):
                a["MissingIsAcceptable"] = ["as", [f["n"] for f in fl if r.random() < 0.7]]
            seq += 1
            zf += fl
            pids.append((IPID, a))
        nt, ns = pick(r, g.p["therms"]), pick(r, g.p["steps"])
        if nt + ns == 0:
            nt = 1
        names = g.pidnames(nt + ns, acc)
        for k in range(nt + ns):
            step = k >= nt
            typ = "temp" if step else pick(r, g.p["ttype"])
            want = pick(r, g.p["inputs"])
            grp = [x for x in groups if x[0] == typ and len(x[3]) >= want]
            if grp and g.yes("share"):
                cl, uaf, ign, lst = r.choice(grp)
                ins = r.sample(lst, want)
            else:
                uaf = r.choice([None, None, True]) if not g.yes("uaf") else False
                ign = True if g.yes("ignoff") else r.choice([None, False])
                ins = [g.newsensor(typ, True) for _ in range(want)]
                groups.append((typ, uaf, ign, ins))
            for s in ins:
                s["timeout"] = 0
                s["ign"] = bool(ign)
            inp = [spaced(r, s["n"]) for s in ins]
            if r.random() < 0.12:
                i = r.randrange(len(inp))
                nm = ins[i]["n"].replace(" ", "_")
                pats.append((inp, i, nm[:-1] + "." if r.random() < 0.7 else r.choice([".", ".*", ".+"]) + nm[1:],
                             {s["n"].replace(" ", "_") for s in [x for x in groups if ins[0] in x[3]][0][3]}))
            if r.random() < 0.08:
                inp.insert(r.randint(0, len(inp)), "nosuch%d" % seq)
            a = {"Name": ["s", "%s%d" % (names[k], seq)], "Zones": ["as", []], "Inputs": ["as", inp]}
            seq += 1
            if uaf is not None:
                a["InputUnavailableAsFailed"] = ["b", uaf]
            if ign is not None:
                a["IgnoreFailIfHostOff"] = ["b", ign]
            if g.yes("miss"):
                a["MissingIsAcceptable"] = ["as", [x for x in inp if r.random() < 0.7]]
            if step:
                m = r.choice([1, 2, 3, 4, 5, 20])
                xs, ys = g.table(m, out)
                a["Class"] = ["s", "Ceiling" if g.yes("ceil") else "Floor"]
                a["Reading"], a["Output"] = ["ad", xs], ["ad", ys]
                if g.yes("hyst"):
                    a["PositiveHysteresis"] = num(r, r.choice([0.5, 1.0, 2.0, 3.5]))
                    a["NegativeHysteresis"] = num(r, r.choice([0.5, 1.0, 2.0, 3.5]))
                    if r.random() < 0.2:
                        del a[r.choice(["PositiveHysteresis", "NegativeHysteresis"])]
                for s in ins:
                    s["pts"] += xs
                pids.append((ISTEP, a))
            else:
                c = g.coeffs(typ, False, out)
                a.update(coeffs(r, c))
                a["Class"] = ["s", typ]
                sp = g.grid(10, 60)
                a["SetPoint"] = num(r, sp)
                if typ == "margin" and g.yes("ttm"):
                    a["TempToMargin"] = ["ad", [g.grid(60, 100) for _ in range(r.choice([len(ins), len(ins), max(1, len(ins) - 1)]))]]
                if r.random() < 0.12:
                    a["SetPointOffset"] = ["s", r.choice(["CriticalHigh", "CriticalLow", "WarningHigh", "WarningLow"])]
                for s in ins:
                    s["pts"] += [sp]
                pids.append((IPID, a))
            ctl.append(("%s" % a["Name"][1]).replace(" ", "_"))
        zo = add(n, IZONE, b)
        for iface, a in pids:
            a["Zones"] = ["as", [n]]
            if g.yes("fsp"):
                a["FailSafePercent"] = num(r, 0 if g.yes("zerofsp") else r.randint(20, 100) + r.choice([0, 0, 0, 0.5]))
            if iface == ISTEP:
                a.pop("FailSafePercent", None) if r.random() < 0.8 else None
            add(a["Name"][1], iface, prof(a))
            g.pidnames_used.append(a["Name"][1].replace(" ", "_"))
        g.zones.append({"id": real[n], "name": n, "fans": [f["n"] for f in zf], "ctl": ctl, "acc": acc, "nfans": len(zf)})
    # thermal controllers of several zones
    if nz > 1 and r.random() < 0.2:
        c = [p for p, o in objs.items() for i in o if i in (IPID, ISTEP) and o[i]["Class"][1] != "fan"]
        if c:
            o = objs[r.choice(c)]
            for i in o:
                o[i]["Zones"] = ["as", list(znames)]
    allnames = {s["n"].replace(" ", "_") for s in g.sens.values()} | {f for f in g.fans} | \
        {f["wpath"].rsplit("/", 1)[1] for f in g.fans.values()}
    for inp, i, pat, grp in pats:
        # a pattern selects only sensors its controller's flags suit
        if all(n in grp for n in allnames if re.fullmatch(pat, n)):
            inp[i] = pat
    m = r.random()
    if m < 0.04:
        for p in [p for p, o in objs.items() if IZONE in o][:1]:
            del objs[p]
    elif m < 0.07:
        for p in [p for p, o in objs.items() if IPID in o or ISTEP in o]:
            i = list(objs[p])[0]
            objs[p][i]["Zones"] = ["as", []]
    elif m < 0.14:
        p = r.choice(sorted(objs))
        i = list(objs[p])[0]
        k = r.choice(sorted(objs[p][i]))
        if k != "ObjectManager":
            del objs[p][i][k]
    elif m < 0.18:
        p = r.choice(sorted(objs))
        i = list(objs[p])[0]
        k = r.choice(sorted(k for k in objs[p][i]))
        v = objs[p][i][k]
        objs[p][i][k] = ["s", "text"] if v[0] not in ("s",) else ["d", 3.0]
    if profiles and r.random() < 0.85:
        g.svc.setdefault("svc.thermal", {})[MODE] = {ITHM: {"Current": ["s", r.choice(modes)], "Supported": ["as", modes]}}
    late = None
    if g.yes("cfgops") and r.random() < 0.3:
        # part of the configuration arrives later
        k = r.choice(sorted(objs))
        late = (k, objs.pop(k))
    em = g.svc.setdefault(EM, {})
    em[INV] = {"org.freedesktop.DBus.ObjectManager": {}}
    em.update(objs)
    g.surroundings()
    g.dbus = True

    def mix(g, res, base, end):
        last = 0
        ops = []
        if late:
            ops.append({"op": "addobj", "svc": EM, "path": late[0], "ifaces": late[1], "signal": True})
            # EntityManager announces a configuration by its properties
            i = list(late[1])[0]
            ops.append({"op": "signal", "svc": EM, "path": late[0], "iface": i, "props": {"Name": late[1][i].get("Name", ["s", "x"])}})
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.random()
            ps = sorted(p for p in objs)
            if k < 0.45 and ps:
                p = r.choice(ps)
                i = list(objs[p])[0]
                b = objs[p][i]
                c = [a for a in ("SetPoint", "FailSafePercent", "MinThermalOutput", "OutLimitMax", "PCoefficient") if a in b]
                if c:
                    a = r.choice(c)
                    v = float(r.choice([20, 35, 50, 80]))
                    ops.append({"op": "set", "svc": EM, "path": p, "iface": i, "props": {a: ["d", v]}})
            elif k < 0.6:
                ts = sorted(s["path"] for s in g.sens.values() if s["kind"] == "dbus" and s["here"])
                if ts:
                    p = r.choice(ts)
                    s = [x for x in g.sens.values() if x.get("path") == p][0]
                    s["here"] = False
                    ops.append({"op": "rmobj", "svc": s["svc"], "path": p, "signal": True})
                    if r.random() < 0.5:
                        ops.append({"op": "addobj", "svc": s["svc"], "path": p, "ifaces": s["ifs"], "signal": True})
            elif k < 0.75:
                ops.append({"op": "addobj", "svc": "svc.adc", "path": SENS + "temperature/new%d" % r.randint(0, 9),
                            "ifaces": {PV: {"Value": ["d", 20.0]}}, "signal": True})
            elif k < 0.85 and MODE in g.svc.get("svc.thermal", {}):
                ops.append({"op": "set", "svc": "svc.thermal", "path": MODE, "iface": ITHM, "props": {"Current": ["s", r.choice(modes)]}})
            elif k < 0.93:
                ops.append({"op": "signal", "svc": EM, "path": INV + "/system/board/Base",
                            "iface": "xyz.openbmc_project.Inventory.Item", "props": {"Present": ["b", True]}})
            else:
                ops.append({"op": "addobj", "svc": "svc.adc", "path": SENS + "temperature/assoc%d" % r.randint(0, 9),
                            "ifaces": {"xyz.openbmc_project.Association.Definitions": {"Associations": ["as", []]}}, "signal": True})
        t = base + r.randint(300, 1500)
        for o in ops:
            if not res:
                break
            t += r.choice([150, 700, 1500, 2600, 9000])
            tt = t // 50 * 50 + res.pop()
            g.emit(tt, o)
            last = tt
        if last:
            end = max(end, last + 13000 + r.randint(500, 2500))
            save = g.p["nops"]
            g.p["nops"] = (3, 10)
            g.operations(last + 12500, end - last - 12500)
            g.p["nops"] = save
        return end
    if g.yes("cfgops"):
        g.p["cfgmix"] = mix
        g.hasmix = True
    elif late:
        em[late[0]] = late[1]


def coeffs(r, c):
    a = {"PCoefficient": num(r, c["proportionalCoeff"]), "ICoefficient": num(r, c["integralCoeff"]),
         "FFOffCoefficient": num(r, c["feedFwdOffsetCoeff"]), "FFGainCoefficient": num(r, c["feedFwdGainCoeff"]),
         "ILimitMin": num(r, c["integralLimit_min"]), "ILimitMax": num(r, c["integralLimit_max"]),
         "OutLimitMin": num(r, c["outLim_min"]), "OutLimitMax": num(r, c["outLim_max"]),
         "SlewNeg": num(r, c["slewNeg"]), "SlewPos": num(r, c["slewPos"])}
    if "derivativeCoeff" in c:
        a["DCoefficient"] = num(r, c["derivativeCoeff"])
    if "positiveHysteresis" in c:
        a["PositiveHysteresis"] = num(r, c["positiveHysteresis"])
    if "negativeHysteresis" in c:
        a["NegativeHysteresis"] = num(r, c["negativeHysteresis"])
    if c.get("checkHysteresisWithSetpoint"):
        a["CheckHysteresisWithSetpoint"] = ["b", True]
    return a
