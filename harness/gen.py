"""Seeded scenario generator.  gen(seed, profile) -> scenario for sim/sim.cpp.

Every value lies on the grid the specification computes exactly on; times of
operations never coincide with due times of the loops (loops run at multiples
of 50 ms after boot; operations carry other residues; operations that restart
loops carry residues of their own)."""
import json, random

PV = "xyz.openbmc_project.Sensor.Value"
PC = "xyz.openbmc_project.Sensor.Threshold.Critical"
PW = "xyz.openbmc_project.Sensor.Threshold.Warning"
PA = "xyz.openbmc_project.State.Decorator.Availability"
PO = "xyz.openbmc_project.State.Decorator.OperationalStatus"
PF = "xyz.openbmc_project.Control.FanPwm"
PR = "xyz.openbmc_project.Control.FanRedundancy"
PH = "xyz.openbmc_project.State.Host"
HOST = "/xyz/openbmc_project/state/host0"
DBP = "org.freedesktop.DBus.Properties"
ZSVC = "xyz.openbmc_project.State.FanCtrl"
ESVC = "xyz.openbmc_project.Hwmon.external"
ZP = "/xyz/openbmc_project/settings/fanctrl/zone%d"
SENS = "/xyz/openbmc_project/sensors/"

# Every knob a profile may set.
DEFAULT = {
    "variant": {"default": 1},
    "dbusconf": 0.0,          # probability of a D-Bus configuration
    "zones": {1: 5, 2: 3, 3: 1},
    "zoneids": [0, 1, 1, 1, 2, 3, 5, 7, 42, 100, 127, 128, 200, 255, 300],
    "cycle": {None: 4, 100: 2, 50: 2, 150: 1, 200: 2, 250: 1, 500: 1},
    "therm": {None: 3, 100: 2, 200: 2, 250: 1, 300: 1, 400: 1, 500: 2, 1000: 1, 1300: 1},
    "fanpids": {1: 4, 2: 1}, "fans": {1: 4, 2: 3, 3: 1},
    "therms": {1: 3, 2: 4, 3: 2}, "steps": {0: 4, 1: 3, 2: 1},
    "ttype": {"temp": 4, "margin": 3, "power": 1, "powersum": 1},
    "inputs": {1: 4, 2: 4, 3: 2},
    "share": 0.2,             # a thermal sensor is used by another controller, too
    "tkind": {"dbus": 6, "ext": 1, "sys": 1},
    "fread": {"dbus": 4, "sys": 2}, "fwrite": {"sys": 3, "dbus": 4, "none": 0.1},
    "norm": 0.1,              # readings are normalised
    "scale": 0.15,
    "timeout": {None: 4, 0: 3, 1: 1, 2: 1, 3: 1, 5: 1},
    "keep": 0.75,             # sensors with a timeout are kept fresh
    "ignoff": 0.15, "uaf": 0.2, "miss": 0.1, "ttm": 0.4,
    "fsp": 0.4, "zerofsp": 0.1,
    "hyst": 0.25, "chk": 0.1, "slew": 0.35, "ki": 0.6, "kd": 0.3, "ff": 0.5,
    "ceil": 0.25, "acc": 0.2,
    "host": {"on": 4, "off": 2, "none": 1},
    "redun": 0.15,
    "argv": {"": 5, "-l": 0, "-t": 0, "-g": 0, "-d": 0.3},
    "dur": (3000, 7000), "nops": (6, 25),
    "ops": {"value": 12, "nan": 2, "alarm": 2, "avail": 2, "func": 2, "tach": 4, "ext": 3, "sys": 3,
            "manual": 1.5, "ipmi": 0.5, "enable": 1, "host": 1, "redun": 1, "tune": 0, "hup": 0, "term": 0,
            "get": 1, "badset": 0.3, "newconf": 0, "burst": 0.5, "walk": 2},
    "hups": 0, "term": 0.0, "late": 0.0, "confdamage": 0.0, "faults": 0.0, "wfaults": 0.0, "bootfail": 0.0,
    "absent": 0.0, "cfgops": 0.0, "profiles": 0.0,
}


def pick(r, w):
    ks = list(w)
    return r.choices(ks, [w[k] for k in ks])[0]


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        for k, v in prof.items():
            if k == "ops" or k == "argv":
                d = dict(DEFAULT[k])
                d.update(v)
                self.p[k] = d
            else:
                self.p[k] = v
        self.files = {}
        self.svc = {}
        self.sens = {}     # name -> dict
        self.fans = {}
        self.zones = []
        self.ops = []
        self.alias = {}
        self.groups = []
        self.tuned = []
        self.variant = pick(self.r, self.p["variant"])
        self.scn = {"variant": self.variant}

    def yes(self, k):
        return self.r.random() < self.p[k]

    def grid(self, lo, hi, den=2):
        return self.r.randint(int(lo * den), int(hi * den)) / den

    # ---- sensors
    def tval(self, s):
        """a reading for sensor s, close to what its users care about"""
        r = self.r
        base = r.choice(s["pts"]) if s["pts"] and r.random() < 0.7 else self.grid(s["lo"], s["hi"])
        v = base + r.choice([0, 0, 0.5, -0.5, 1, -1, 2, -2, 3.5, -3.5, 8, -8])
        if s["type"] == "margin":
            v = max(v, -8)
        return v

    def raw(self, s, v):
        k = s.get("scale", 0)
        if not k or not isinstance(v, (int, float)):
            return v
        if k > 0:
            return float(int(v) // (10 ** k))
        x = round(v * 10 ** -k)
        return float(x) if x * (10.0 ** k) == x / 10 ** -k else float(round(v) * 10 ** -k)

    def newsensor(self, typ, dbusconf=False):
        r = self.r
        i = len(self.sens)
        kind = "dbus" if dbusconf else pick(r, self.p["tkind"])
        stem = r.choice({"temp": ["t", "cpu_temp", "Inlet_t", "dimm"], "margin": ["m", "cpu_margin", "die"],
                         "power": ["p", "psu_power"], "powersum": ["w", "sum"]}[typ])
        n = "%s%d" % (stem, i)
        if dbusconf and r.random() < 0.15:
            n = "%s x%d" % (stem, i)
        s = {"n": n, "kind": kind, "type": typ, "pts": [], "lo": 0, "hi": 80, "al": {}, "avail": True, "func": True,
             "scale": 0, "norm": False, "here": True}
        if typ == "margin" and not dbusconf and r.random() < 0.5:
            s["type"] = "margin"
        if kind == "dbus":
            cls = "temperature" if typ in ("temp", "margin") else "power"
            s["path"] = SENS + cls + "/" + n.replace(" ", "_")
            s["svc"] = r.choice(["svc.hwmon", "svc.hwmon", "svc.adc"])
            if self.yes("scale"):
                s["scale"] = r.choice([-3, -2, -1, 1])
            if not dbusconf and self.yes("norm"):
                s["norm"] = True
                s["scale"] = 0
            s["has"] = [i for i in (PC, PW, PA, PO) if r.random() < 0.7]
            s["timeout"] = pick(r, self.p["timeout"])
            v = self.tval(s)
            if r.random() < 0.05:
                v = "nan"
            props = {"Value": ["d", self.raw(s, v)]}
            if s["scale"]:
                props["Scale"] = ["x", s["scale"]]
                if r.random() < 0.3:
                    props["Value"][0] = "x" if isinstance(props["Value"][1], float) and props["Value"][1] == int(props["Value"][1]) else "d"
                    if props["Value"][0] == "x":
                        props["Value"][1] = int(props["Value"][1])
            if s["norm"]:
                lo, w = r.choice([(0, 64), (0, 128), (-64, 128), (16, 64), (0, 256)])
                props["MinValue"], props["MaxValue"] = ["d", float(lo)], ["d", float(lo + w)]
            elif r.random() < 0.5:
                props["MinValue"], props["MaxValue"] = r.choice([(["d", -128.0], ["d", 127.0]), (["d", 0.0], ["d", 0.0]),
                                                                  (["d", 0.0], ["d", 255.0])])
                if s["scale"] or not dbusconf:
                    s["ignmm"] = True
            if r.random() < 0.3:
                props["Unit"] = ["s", "xyz.openbmc_project.Sensor.Value.Unit.DegreesC"]
            ifs = {PV: props}
            if PC in s["has"]:
                s["al"] = {"CriticalAlarmLow": r.random() < 0.04, "CriticalAlarmHigh": r.random() < 0.04}
                ifs[PC] = {k: ["b", b] for k, b in s["al"].items()}
                if r.random() < 0.5 or dbusconf:
                    ifs[PC]["CriticalHigh"] = ["d", self.grid(60, 90)]
                    ifs[PC]["CriticalLow"] = ["d", self.grid(0, 20)]
            if PW in s["has"]:
                w = r.random() < 0.04 and not any(s["al"].values())
                s["al"]["WarningAlarmHigh"] = w
                ifs[PW] = {"WarningAlarmHigh": ["b", w]}
                if dbusconf:
                    ifs[PW]["WarningHigh"] = ["d", self.grid(50, 80)]
                    if r.random() < 0.7:
                        ifs[PW]["WarningLow"] = ["d", self.grid(0, 20)]
            if PA in s["has"]:
                s["avail"] = r.random() < 0.93
                ifs[PA] = {"Available": ["b", s["avail"]]}
            if PO in s["has"]:
                ifs[PO] = {"Functional": ["b", True if r.random() < 0.9 else False]}
            s["ifs"] = ifs
            if self.yes("absent"):
                s["here"] = False
            else:
                self.svc.setdefault(s["svc"], {})[s["path"]] = ifs
        elif kind == "ext":
            s["path"] = "/xyz/openbmc_project/extsensors/temperature/" + n
            s["timeout"] = pick(r, self.p["timeout"])
        else:
            s["path"] = "/sys/class/hwmon/hwmon%d/temp1_input" % i
            s["timeout"] = pick(r, self.p["timeout"])
            self.scn.setdefault("dirs", []).append("@" + s["path"].rsplit("/", 1)[0])
            self.files["@" + s["path"]] = str(r.randint(10, 70)) + r.choice(["", "\n"])
        self.sens[n] = s
        return s

    def newfan(self, dbusconf=False):
        r = self.r
        i = len(self.fans)
        n = "fan%d" % i
        f = {"n": n, "read": "dbus" if dbusconf else pick(r, self.p["fread"]),
             "write": "dbus" if dbusconf else pick(r, self.p["fwrite"]), "type": "fan", "scale": 0, "norm": False,
             "here": True}
        if f["read"] == "dbus":
            f["path"] = SENS + "fan_tach/" + n
            f["svc"] = "svc.fans"
            v = r.choice([0, 500, 1000, 1500, 2000, 2500, 3000, 4096, 6000])
            props = {"Value": ["d", float(v)]}
            m = r.random()
            if m < 0.5:
                props["MinValue"], props["MaxValue"] = ["d", 0.0], ["d", r.choice([8192.0, 16384.0, 4096.0])]
                f["norm"] = True
            elif m < 0.7:
                props["MinValue"], props["MaxValue"] = ["d", 0.0], ["d", 0.0]
            ifs = {PV: props}
            f["al"] = {}
            if r.random() < 0.4:
                f["al"] = {"CriticalAlarmLow": False, "CriticalAlarmHigh": False}
                ifs[PC] = {k: ["b", b] for k, b in f["al"].items()}
            if r.random() < 0.4:
                ifs[PO] = {"Functional": ["b", r.random() < 0.9]}
            if r.random() < 0.3:
                ifs[PA] = {"Available": ["b", r.random() < 0.9]}
            f["has"] = [i for i in (PC, PW, PA, PO) if i in ifs]
            f["ifs"] = ifs
            f["avail"] = True
            self.svc.setdefault(f["svc"], {})[f["path"]] = ifs
        else:
            f["path"] = "/sys/fan/tach%d" % i
            f["has"] = []
            self.files["@" + f["path"]] = str(r.choice([0, 800, 1200, 2500])) + "\n"
        if f["write"] == "dbus":
            f["wpath"] = "/xyz/openbmc_project/control/fanpwm/Pwm_%d" % i
            self.svc.setdefault("svc.fans", {})[f["wpath"]] = {PF: {"Target": ["t", 0]}}
        elif f["write"] == "sys":
            f["wpath"] = "/sys/fan/pwm%d" % i
            self.files["@" + f["wpath"]] = "0"
        else:
            f["wpath"] = ""
        self.fans[n] = f
        return f

    # ---- coefficients
    def coeffs(self, typ, normal, out):
        r = self.r
        q = lambda lo, hi, den: r.randint(lo * den, hi * den) / den
        d = {"samplePeriod": r.choice([1, 1, 0.5, 2]), "proportionalCoeff": q(-6, 6, 4), "integralCoeff": 0.0,
             "feedFwdOffsetCoeff": 0.0, "feedFwdGainCoeff": 0.0, "integralLimit_min": 0.0, "integralLimit_max": 0.0,
             "outLim_min": 0.0, "outLim_max": 0.0, "slewNeg": 0.0, "slewPos": 0.0}
        if normal:
            d["proportionalCoeff"] = float(r.randint(-400, 400))
        if typ == "fan":
            m = r.random()
            if m < 0.6:      # open loop
                d["proportionalCoeff"] = 0.0
                d["feedFwdGainCoeff"] = r.choice([0.125, 0.25, 1.0, 1.0, 0.5])
            else:
                d["proportionalCoeff"] = r.choice([0.125, 0.0625, 0.25, -0.125])
                d["feedFwdGainCoeff"] = r.choice([0.0, 0.125])
        elif self.yes("ff"):
            d["feedFwdGainCoeff"] = q(-2, 2, 4)
            d["feedFwdOffsetCoeff"] = q(-20, 20, 2)
        elif typ == "margin" and r.random() < 0.5:
            d["proportionalCoeff"] = -abs(d["proportionalCoeff"])
        if self.yes("ki"):
            d["integralCoeff"] = r.choice([0.125, 0.25, 0.5, -0.25, -0.5, -0.125]) if typ != "fan" else \
                r.choice([0.125, 0.0625, -0.0625])
            a, b = sorted([q(-50, 60, 2), q(-50, 60, 2)])
            if typ != "fan" or r.random() < 0.5:
                a = a * (3 if typ != "fan" else 1)
                b = b * (3 if typ != "fan" else 1)
            d["integralLimit_min"], d["integralLimit_max"] = a, b
        if self.yes("kd"):
            d["derivativeCoeff"] = r.choice([0.25, 0.5, 1.0, -0.5, 2.0]) if typ != "fan" else 0.125
        if typ == "fan":
            d["outLim_min"] = r.choice([0.0, 3.0, 10.0, 20.5])
            d["outLim_max"] = r.choice([100.0, 100.0, 80.0, 60.5])
        else:
            a, b = sorted([q(0, 40, 1), q(10, 120, 1)])
            k = out
            if r.random() < 0.15:
                a = -a
            d["outLim_min"], d["outLim_max"] = a * k, b * k
        if self.yes("slew"):
            k = 1 if typ == "fan" else out
            if r.random() < 0.8:
                d["slewPos"] = r.choice([0.5, 1.0, 2.0, 5.0, 10.0]) * k
            if r.random() < 0.8:
                d["slewNeg"] = -r.choice([0.5, 1.0, 2.0, 5.0, 10.0]) * k
        if self.yes("hyst"):
            d["positiveHysteresis"] = r.choice([0.5, 1.0, 2.0, 3.5, 0.0]) * (100 if typ == "fan" else 1)
            d["negativeHysteresis"] = r.choice([0.5, 1.0, 2.0, 3.5, 0.0]) * (100 if typ == "fan" else 1)
            if r.random() < 0.2:
                del d[r.choice(["positiveHysteresis", "negativeHysteresis"])]
        if typ != "fan" and self.yes("chk"):
            d["checkHysteresisWithSetpoint"] = True
            d["positiveHysteresis"] = r.choice([0.0, 1.0, 2.0])
            d["negativeHysteresis"] = r.choice([0.0, 1.0, 2.0])
        return d

    def table(self, n, out):
        r = self.r
        xs = sorted(r.sample(range(10, 90), n))
        if r.random() < 0.15:
            r.shuffle(xs)
        ys = [r.randint(0, 100) * out for _ in range(n)]
        if r.random() < 0.7:
            ys.sort()
        return [float(x) for x in xs], [float(y) for y in ys]

    def pidnames(self, k, acc):
        r = self.r
        out = []
        i = 0
        while len(out) < k:
            i += 1
            stem = r.choice(["temp", "z", "Pid", "a", "core"])
            n = r.choice(["%s%d" % (stem, i), "%s_%d" % (stem, i)])
            if acc and r.random() < 0.7:
                n = r.choice(["Pid", "Step", "X%d" % i]) + "_" + r.choice(["prof", "prof", "other_prof", "cpu"])
            if n not in out:
                out.append(n)
        return out

    # ---- JSON configuration
    def jsonconf(self):
        r = self.r
        nz = pick(r, self.p["zones"])
        ids = []
        while len(ids) < nz:
            z = r.choice(self.p["zoneids"])
            if z not in ids:
                ids.append(z)
        sensors, zones = [], []
        pool = []
        for zid in ids:
            acc = self.yes("acc")
            out = r.choice([1, 1, 10])    # scale of demands: percent-like or rpm-like
            pids = []
            nf = pick(r, self.p["fanpids"])
            nt, ns = pick(r, self.p["therms"]), pick(r, self.p["steps"])
            if nt + ns == 0 and r.random() < 0.9:
                nt = 1
            names = self.pidnames(nt + ns, acc)
            zfans = []
            for k in range(nf):
                fl = [self.newfan() for _ in range(pick(r, self.p["fans"]))]
                c = self.coeffs("fan", False, out)
                zfans += fl
                p = {"name": "f%d_%d" % (k, zid) if r.random() < 0.7 else "fan%d" % k, "type": "fan",
                     "inputs": [f["n"] for f in fl], "setpoint": float(r.choice([0, 90])), "pid": c}
                pids.append(p)
            for k in range(nt + ns):
                step = k >= nt
                typ = "temp" if step else pick(r, self.p["ttype"])
                ins = []
                for _ in range(pick(r, self.p["inputs"])):
                    cand = [s for s in pool if s["n"] not in ins and
                            ((s["type"] in ("temp", "margin")) == (typ in ("temp", "margin")))]
                    if cand and self.yes("share"):
                        ins.append(r.choice(cand)["n"])
                    else:
                        s = self.newsensor(typ)
                        pool.append(s)
                        ins.append(s["n"])
                normal = any(self.sens[n]["norm"] for n in ins)
                p = {"name": names[k], "type": "stepwise" if step else typ, "inputs": ins,
                     "setpoint": self.grid(10, 60) if not normal else r.choice([0.25, 0.5, 0.375])}
                if step:
                    n = r.choice([1, 2, 3, 4, 5, 20])
                    xs, ys = self.table(n, out)
                    ceil = self.yes("ceil")
                    p["pid"] = {"samplePeriod": 1, "reading": {str(i): x for i, x in enumerate(xs)},
                                "output": {str(i): y for i, y in enumerate(ys)}, "isCeiling": ceil}
                    if self.yes("hyst"):
                        p["pid"]["positiveHysteresis"] = r.choice([0.5, 1.0, 2.0, 3.5])
                        p["pid"]["negativeHysteresis"] = r.choice([0.5, 1.0, 2.0, 3.5])
                        if r.random() < 0.2:
                            del p["pid"][r.choice(["positiveHysteresis", "negativeHysteresis"])]
                    for n in ins:
                        self.sens[n]["pts"] += xs
                else:
                    p["pid"] = self.coeffs(typ, normal, out)
                    if typ == "margin" and self.yes("ttm"):
                        p["tempToMargin"] = [self.grid(60, 100) for _ in range(r.choice([len(ins), len(ins), max(1, len(ins) - 1)]))]
                    h = p["pid"].get("positiveHysteresis", 0), p["pid"].get("negativeHysteresis", 0)
                    for n in ins:
                        self.sens[n]["pts"] += [p["setpoint"], p["setpoint"] + h[0], p["setpoint"] - h[1]]
                pids.append(p)
            for p in pids:
                if self.yes("fsp"):
                    p["FailSafePercent"] = 0.0 if self.yes("zerofsp") else float(r.randint(20, 100))
                    if r.random() < 0.2:
                        p["FailSafePercent"] += 0.5
                if self.yes("miss"):
                    p["missingIsAcceptable"] = [n for n in p["inputs"] if r.random() < 0.7]
            r.shuffle(pids)
            z = {"id": zid, "minThermalOutput": float(r.choice([0, 10, 20, 30]) * out),
                 "failsafePercent": float(r.choice([75, 100, 60, 90.5, 30])), "pids": pids}
            cy, th = pick(r, self.p["cycle"]), pick(r, self.p["therm"])
            if cy is not None:
                z["cycleIntervalTimeMS"] = cy
            if th is not None:
                z["updateThermalsTimeMS"] = th
            if acc:
                z["accumulateSetPoint"] = True
            elif r.random() < 0.2:
                z["accumulateSetPoint"] = False
            zones.append(z)
            self.zones.append({"id": zid, "fans": [f["n"] for f in zfans],
                               "ctl": [p["name"] for p in pids if p["type"] != "fan"], "acc": acc,
                               "nfans": len(zfans)})
        for s in self.sens.values():
            sensors.append(self.sensorjson(s))
        for f in self.fans.values():
            sensors.append(self.fanjson(f))
        if r.random() < 0.1:
            s = self.newsensor("temp")     # an unused one
            sensors.append(self.sensorjson(s))
        r.shuffle(sensors)
        return {"sensors": sensors, "zones": zones}

    def sensorjson(self, s):
        r = self.r
        j = {"name": s["n"], "type": s["type"], "readPath": s["path"]}
        if s["timeout"] is not None:
            j["timeout"] = s["timeout"]
        if r.random() < 0.5:
            j["writePath"] = ""
        if r.random() < 0.3:
            j["min"], j["max"] = 0, 0
        if s.get("ignmm") or (s["scale"] and not s["norm"]):
            j["ignoreDbusMinMax"] = True
        elif r.random() < 0.1 and not s["norm"]:
            j["ignoreDbusMinMax"] = r.random() < 0.5
        if self.yes("uaf"):
            j["unavailableAsFailed"] = r.random() < 0.15
        if self.yes("ignoff"):
            j["ignoreFailIfHostOff"] = r.random() < 0.85
        s["ign"] = j.get("ignoreFailIfHostOff", False)
        return j

    def fanjson(self, f):
        r = self.r
        j = {"name": f["n"], "type": "fan", "readPath": f["path"]}
        if f["wpath"] or r.random() < 0.5:
            j["writePath"] = f["wpath"]
        m = r.random()
        if m < 0.6:
            j["min"], j["max"] = 0, 255
        elif m < 0.8:
            j["min"], j["max"] = r.choice([(20, 255), (0, 100), (50, 200), (10, 100)])
        elif m < 0.9:
            j["max"] = r.choice([255, 100, 128])
        if r.random() < 0.1:
            j["timeout"] = r.choice([0, 1, 2])
        if f["read"] == "dbus" and r.random() < 0.15:
            j["ignoreDbusMinMax"] = True
        if self.yes("ignoff"):
            j["ignoreFailIfHostOff"] = True
        if self.yes("uaf"):
            j["unavailableAsFailed"] = r.random() < 0.2
        f["timeout"] = j.get("timeout", 0)
        return j

    # ---- damage to a JSON configuration
    def damage(self, cfg):
        r = self.r
        sites = []

        def walk(j):
            if isinstance(j, dict):
                for k in list(j):
                    sites.append((j, k))
                    walk(j[k])
            elif isinstance(j, list):
                for x in j:
                    walk(x)
        walk(cfg)
        m = r.random()
        if m < 0.45:
            d, k = r.choice(sites)
            del d[k]
        elif m < 0.6:
            d, k = r.choice(sites)
            if isinstance(d[k], (int, float)) and not isinstance(d[k], bool):
                d[k] = "text"
            elif isinstance(d[k], bool):
                d[k] = "true"
            elif isinstance(d[k], list):
                d[k] = "list" if k in ("sensors", "zones", "pids") else 7
            elif isinstance(d[k], dict) and k == "pid":
                d.pop(k)
            elif isinstance(d[k], str):
                d[k] = 3
        elif m < 0.75:
            d, k = r.choice([(d, k) for d, k in sites if isinstance(d[k], list)])
            d[k] = []
        elif m < 0.85:
            return r.choice(["{", "", "[1,2", "{\"sensors\":}", "nonsense"])
        elif m < 0.93:
            z = r.choice(cfg["zones"])
            z["pids"] = []
        else:
            return None
        return cfg

    # ---- the rest of the world
    def surroundings(self):
        r = self.r
        h = pick(r, self.p["host"])
        if h != "none":
            st = {"on": "Running", "off": r.choice(["Off", "Quiesced", "TransitioningToRunning", "DiagnosticMode"])}[h]
            self.svc.setdefault("xyz.openbmc_project.State.Host0", {})[HOST] = {PH: {"CurrentHostState": ["s", "xyz.openbmc_project.State.Host.HostState." + st]}}
        if self.yes("redun"):
            tach = [f["path"] for f in self.fans.values() if f["read"] == "dbus"]
            temps = [s["path"] for s in self.sens.values() if s["kind"] == "dbus"]
            marg = [s["path"] for s in self.sens.values() if s["kind"] == "dbus" and s["type"] == "margin"]
            for i in range(r.choice([1, 1, 2, 2, 3])):
                if not tach:
                    break
                col = r.sample(tach, r.randint(1, len(tach)))
                if temps and r.random() < 0.2:
                    col.append(r.choice(temps))
                if marg and r.random() < 0.5:
                    col.append(r.choice(marg))
                p = "/xyz/openbmc_project/control/FanRedundancy/grp%d" % i
                st = r.choice(["Full", "Full", "Degraded", "Failed"])
                self.svc.setdefault("svc.fans", {})[p] = {PR: {"Status": ["s", "xyz.openbmc_project.Control.FanRedundancy.State." + st],
                                                              "Collection": ["as", col]}}
                self.groups.append(p)

    # ---- operations
    def optime(self, lo, hi):
        t = self.r.randint(lo, hi)
        return t - t % 50 + self.r.randint(11, 49)

    def emit(self, t, op):
        self.ops.append(dict(op, t=t))

    def setop(self, s, iface, props):
        return {"op": "set", "svc": s["svc"], "path": s["path"], "iface": iface, "props": props}

    def op_value(self):
        c = [s for s in self.sens.values() if s["kind"] == "dbus" and s["here"]]
        if not c:
            return None
        return self.valueop(self.r.choice(c))

    def valueop(self, s):
        r = self.r
        v = self.raw(s, self.tval(s))
        return self.setop(s, PV, {"Value": ["d", v]})

    def op_walk(self):
        """a small step from the last value"""
        r = self.r
        c = [s for s in self.sens.values() if s["kind"] == "dbus" and s["here"] and not s["scale"]]
        if not c:
            return None
        s = r.choice(c)
        if "at" not in s or r.random() < 0.04:
            s["at"] = self.tval(s)
            s["dir"] = r.choice([1, -1])
        if r.random() < 0.15:
            s["dir"] = -s["dir"]
        s["at"] += s["dir"] * r.choice([0.5, 0.5, 1.0, 0.25, 1.0 / 1024])
        s["at"] = max(s["at"], -8)
        return self.setop(s, PV, {"Value": ["d", s["at"]]})

    def op_nan(self):
        c = [s for s in list(self.sens.values()) + list(self.fans.values())
             if s.get("kind", s.get("read")) == "dbus" and s["here"]]
        if not c:
            return None
        return self.setop(self.r.choice(c), PV, {"Value": ["d", self.r.choice(["nan", "nan", "inf", "-inf"])]})

    def op_alarm(self):
        r = self.r
        c = [s for s in list(self.sens.values()) + list(self.fans.values()) if s.get("al") and s["here"]]
        if not c:
            return None
        s = r.choice(c)
        al = s["al"]
        k = r.choice(list(al))
        unc = self.variant == "allon" or self.variant == "unc"
        new = not al[k]
        if k == "WarningAlarmHigh":
            if unc and not new and (al.get("CriticalAlarmLow") or al.get("CriticalAlarmHigh")):
                return None
            al[k] = new
            return self.setop(s, PW, {k: ["b", new]})
        if unc and not new and al.get("WarningAlarmHigh"):
            return None
        al[k] = new
        other = "CriticalAlarmLow" if k == "CriticalAlarmHigh" else "CriticalAlarmHigh"
        props = {k: ["b", new]}
        if al.get(other) and not new or r.random() < 0.3:
            props[other] = ["b", al[other]]
        return self.setop(s, PC, props)

    def op_avail(self):
        c = [s for s in list(self.sens.values()) + list(self.fans.values()) if PA in s.get("has", []) and s["here"]]
        if not c:
            return None
        s = self.r.choice(c)
        s["avail"] = not s["avail"] if self.r.random() < 0.9 else s["avail"]
        return self.setop(s, PA, {"Available": ["b", s["avail"]]})

    def op_func(self):
        c = [s for s in list(self.sens.values()) + list(self.fans.values()) if PO in s.get("has", []) and s["here"]]
        if not c:
            return None
        s = self.r.choice(c)
        s["func"] = not s.get("func", True)
        return self.setop(s, PO, {"Functional": ["b", s["func"]]})

    def op_tach(self):
        c = [f for f in self.fans.values()]
        if not c:
            return None
        f = self.r.choice(c)
        v = self.r.choice([0, 0, 500, 700, 1000, 1234, 2048, 3000, 4096, 5000, 8000, -1])
        if f.get("last") and self.r.random() < 0.4:
            v = f["last"] + self.r.choice([-1, -1, 1])
        f["last"] = v
        if f["read"] == "dbus":
            return self.setop(f, PV, {"Value": ["d", float(v)]})
        return {"op": "file", "path": "@" + f["path"], "content": str(v) + "\n"}

    def op_ext(self):
        c = [s for s in self.sens.values() if s["kind"] == "ext"]
        if not c:
            return None
        s = self.r.choice(c)
        v = self.tval(s)
        if self.r.random() < 0.12:
            v = self.r.choice(["nan", "inf", "-inf"])
        elif s.get("last") is not None and self.r.random() < 0.3:
            v = s["last"]
        s["last"] = v
        return {"op": "call", "dest": ESVC, "path": s["path"], "iface": DBP, "member": "Set",
                "args": [["s", PV], ["s", "Value"], ["v", ["d", v]]]}

    def op_sys(self):
        c = [s for s in self.sens.values() if s["kind"] == "sys"]
        if not c:
            return None
        s = self.r.choice(c)
        return {"op": "file", "path": "@" + s["path"],
                "content": self.r.choice(["%d\n" % self.r.randint(0, 90), "%d" % self.r.randint(0, 90)])}

    def zset(self, z, b):
        return {"op": "call", "dest": ZSVC, "path": ZP % z["id"], "iface": DBP, "member": "Set",
                "args": [["s", "xyz.openbmc_project.Control.Mode"], ["s", "Manual"], ["v", ["b", b]]]}

    def op_manual(self):
        z = self.r.choice(self.zones)
        z["man"] = not z.get("man", False) if self.r.random() < 0.85 else z.get("man", False)
        return self.zset(z, z["man"])

    def op_ipmi(self):
        r = self.r
        z = r.choice(self.zones)
        zid = z["id"] % 256 if r.random() < 0.8 else r.choice([0, 1, 5, 127, 128, 200, 255])
        b = r.choice([[0, zid], [2, zid], [1, zid, 0], [1, zid, 1], [1, zid, 255], [1, zid], [0], [2], [], [3, zid],
                      [0, zid, 9], [2, zid, 1, 1], [255, zid], [1]])
        return {"op": "ipmi", "bytes": b}

    def op_enable(self):
        c = [(z, n) for z in self.zones for n in z["ctl"]]
        if not c:
            return None
        z, n = self.r.choice(c)
        z.setdefault("en", {})
        b = not z["en"].get(n, True)
        z["en"][n] = b
        return {"op": "call", "dest": ZSVC, "path": (ZP % z["id"]) + "/" + n, "iface": DBP, "member": "Set",
                "args": [["s", "xyz.openbmc_project.Object.Enable"], ["s", "Enabled"], ["v", ["b", b]]]}

    def op_get(self):
        r = self.r
        z = r.choice(self.zones)
        zp = ZP % z["id"]
        c = [(ZSVC, zp, "xyz.openbmc_project.Control.Mode", "Manual"), (ZSVC, zp, "xyz.openbmc_project.Control.Mode", "FailSafe")]
        for n in z["ctl"]:
            c.append((ZSVC, zp + "/" + n, "xyz.openbmc_project.Object.Enable", "Enabled"))
        for s in self.sens.values():
            if s["kind"] == "ext":
                c.append((ESVC, s["path"], PV, "Value"))
        d, p, i, m = r.choice(c)
        return {"op": "call", "dest": d, "path": p, "iface": DBP, "member": "Get", "args": [["s", i], ["s", m]]}

    def op_badset(self):
        z = self.r.choice(self.zones)
        zp = ZP % z["id"]
        i, m, v = self.r.choice([("xyz.openbmc_project.Control.Mode", "FailSafe", ["b", True]),
                                 ("xyz.openbmc_project.Control.Mode", "FailSafe", ["b", False])])
        return {"op": "call", "dest": ZSVC, "path": zp, "iface": DBP, "member": "Set",
                "args": [["s", i], ["s", m], ["v", v]]}

    def op_host(self):
        if "xyz.openbmc_project.State.Host0" not in self.svc:
            return None
        st = self.r.choice(["Running", "Running", "Off", "Off", "Quiesced", "TransitioningToRunning"])
        return {"op": "set", "svc": "xyz.openbmc_project.State.Host0", "path": HOST, "iface": PH,
                "props": {"CurrentHostState": ["s", "xyz.openbmc_project.State.Host.HostState." + st]}}

    def op_redun(self):
        if not self.groups:
            return None
        st = self.r.choice(["Full", "Degraded", "Failed", "Failed"])
        props = {"Status": ["s", "xyz.openbmc_project.Control.FanRedundancy.State." + st]}
        tach = [f["path"] for f in self.fans.values() if f["read"] == "dbus"]
        if tach and self.r.random() < 0.15:
            props["Collection"] = ["as", self.r.sample(tach, self.r.randint(0, len(tach)))]
        return {"op": "set", "svc": "svc.fans", "path": self.r.choice(self.groups), "iface": PR, "props": props}

    def op_tune(self):
        p = self.r.choice(["/etc/thermal.d/setpoint"] + ["/etc/thermal.d/setpoint.zone%d" % z["id"] for z in self.zones])
        c = self.r.choice(["500", "1200\n", "101", "100", "55", "0", "-7", "", "junk", "3000", None, None, "  250 x"])
        return {"op": "file", "path": p, "content": c}

    def op_burst(self):
        o = [self.oneop(["value", "tach", "nan", "ext", "avail", "func", "sys"]) for _ in range(self.r.randint(2, 4))]
        o = [x for x in o if x]
        return {"op": "multi", "ops": o} if o else None

    def oneop(self, kinds=None):
        w = {k: v for k, v in self.p["ops"].items() if v > 0 and (kinds is None or k in kinds)
             and hasattr(self, "op_" + k)}
        if not w:
            return None
        return getattr(self, "op_" + pick(self.r, w))()

    def operations(self, t0, dur):
        """operations in time order, so that the generator's own state follows"""
        r = self.r
        times = sorted((self.optime(t0 + 10, t0 + dur), "op") for _ in range(r.randint(*self.p["nops"])))
        ev = list(times)
        for s in self.sens.values():
            if not s["here"] or s["timeout"] == 0:
                continue
            T = s["timeout"] if s["timeout"] is not None else 2
            if s["kind"] == "sys":
                continue
            if not self.yes("keep"):
                continue
            t = t0 + 100
            while t < t0 + dur:
                t += int(T * 1000 * r.choice([0.3, 0.5, 0.7, 0.9, 0.95, 1.0, 1.02, 1.4]))
                ev.append((self.optime(t, t + 40), s["n"]))
        ev.sort()
        for t, k in ev:
            if t > t0 + dur:
                continue
            if k == "op":
                o = self.oneop()
            else:
                s = self.sens[k]
                if s["kind"] == "dbus":
                    o = self.valueop(s)
                else:
                    v = self.tval(s) if r.random() < 0.5 or s.get("last") is None else s["last"]
                    s["last"] = v
                    o = {"op": "call", "dest": ESVC, "path": s["path"], "iface": DBP, "member": "Set",
                         "args": [["s", PV], ["s", "Value"], ["v", ["d", v]]]}
            if o:
                self.emit(t, o)

    # ---- putting it together
    def build(self):
        r = self.r
        self.scn["names"] = []
        if self.yes("dbusconf"):
            import gendbus
            gendbus.build(self)
            return self.finish()
        cfg = self.jsonconf()
        self.cfg = cfg
        loc = "@/config.json"
        argv = ["-c", loc]
        if r.random() < 0.15:
            loc = r.choice(["/usr/share/swampd/config.json", "/var/lib/swampd/config.json", "@/config.json"])
            argv = []
        if self.yes("confdamage"):
            cfg = self.damage(json.loads(json.dumps(cfg)))
        if cfg is not None:
            self.files[loc] = cfg
        else:
            argv = []       # a file named on the command line has to exist
        self.scn["argv"] = argv
        self.surroundings()
        return self.finish()

    def finish(self):
        r = self.r
        self.resid = list(range(1, 10))
        r.shuffle(self.resid)
        scn = self.scn
        o = pick(r, self.p["argv"])
        if self.p.get("force"):
            o = self.p["force"]
        dur = r.randint(*self.p["dur"])
        self.term = False
        opts = {}
        if o == "-l":
            scn["argv"] += ["-l", "@/logs"]
            scn.setdefault("dirs", []).append("@/logs")
            scn["watch"] = ["@/logs/zone_%d.log" % z["id"] for z in self.zones]
            scn["logged"] = {str(z["id"]): z["nfans"] for z in self.zones}
            self.term = True
            if r.random() < 0.3:
                scn["argv"].append("-g")
                self.corewatch("@/logs")
            if r.random() < 0.3:
                scn["argv"].append("-t")
        elif o == "-t":
            if r.random() < 0.5:
                scn["argv"].append("-t")
            else:
                self.files["/etc/thermal.d/tuning"] = r.choice(["", "1\n"])
                opts["tuning"] = True
        elif o == "-g":
            scn["argv"] += ["-g", "-l", "@/logs"]
            scn.setdefault("dirs", []).append("@/logs")
            scn["watch"] = ["@/logs/zone_%d.log" % z["id"] for z in self.zones]
            scn["logged"] = {str(z["id"]): z["nfans"] for z in self.zones}
            self.corewatch("@/logs")
            self.term = True
        elif o == "-d":
            scn["argv"].append("-d")
        if opts:
            scn["opts"] = opts
        if self.p["ops"].get("tune", 0) and r.random() < 0.6:
            for _ in range(r.choice([1, 2])):
                t = self.op_tune()
                if t["content"] is not None:
                    self.files[t["path"]] = t["content"]
        faults = []
        if self.yes("wfaults"):
            for f in self.fans.values():
                if f["write"] == "dbus" and r.random() < 0.6:
                    faults.append({"member": "Set", "path": f["wpath"], "skip": r.randint(0, 10), "count": r.randint(1, 8)})
                elif f["write"] == "sys" and r.random() < 0.5:
                    t = self.optime(500, max(600, dur - 500))
                    self.emit(t, {"op": "file", "path": "@" + f["wpath"], "content": {"dir": True}})
                    if r.random() < 0.7:
                        self.emit(self.optime(t + 200, t + 1500), {"op": "file", "path": "@" + f["wpath"], "content": "0"})
        base = 0
        if self.yes("bootfail"):
            c = [s for s in list(self.sens.values()) + list(self.fans.values())
                 if s.get("kind", s.get("read")) == "dbus" and s["here"]]
            if c:
                s = r.choice(c)
                m = r.random()
                n = r.choice([1, 1, 2])
                if m < 0.35:
                    faults.append({"member": "GetAll", "path": s["path"], "arg0": PV, "skip": 0, "count": n})
                elif m < 0.6 and "SetPointOffset" not in json.dumps(scn):
                    faults.append({"member": "GetObject", "arg0": s["path"], "skip": 0, "count": n})
                else:
                    svc = self.svc[s["svc"]]
                    ob = svc.pop(s["path"])
                    t = self.optime(2000, 15000)
                    if getattr(self, "dbus", False):
                        t = t // 50 * 50 + self.resid.pop()
                    self.emit(t, {"op": "addobj", "svc": s["svc"], "path": s["path"], "ifaces": ob, "signal": r.random() < 0.5})
                base = 10000 * n if m < 0.6 else 10000 * (1 + t // 10000)
                if self.variant in ("allon", "missing"):
                    base = 0
        if self.yes("faults"):
            m = r.random()
            if self.groups and r.random() < 0.6:
                for g in self.groups:
                    if r.random() < 0.5:
                        faults.append({"member": r.choice(["GetAll", "Get"]), "path": g, "arg0": PR, "skip": 0,
                                       "count": r.choice([1, 1, 2])})
            elif m < 0.5:
                faults.append({"member": "Get", "path": HOST, "arg0": PH, "skip": 0, "count": 1})
            else:
                faults.append({"member": "GetSubTree", "arg0": "/", "skip": r.choice([0, 0, 1]), "count": 1})
        if base:
            base = min(base, 30000)
        self.operations(base, dur)
        end = base + dur
        res = self.resid
        nh = r.randint(0, self.p["hups"]) if self.p["hups"] else 0
        last = 0
        for _ in range(nh):
            t = r.randint(base + 300, end) // 50 * 50 + res.pop()
            self.emit(t, {"op": "sig", "n": "HUP"})
            last = max(last, t)
        if nh and r.random() < 0.4 and getattr(self, "cfg", None):
            self.p["confdamage2"] = 0.25
            c2 = json.loads(json.dumps(self.cfg))
            for z in c2["zones"]:
                z["minThermalOutput"] += 5
                z["failsafePercent"] = 50.0
                if r.random() < 0.3:
                    z["cycleIntervalTimeMS"] = 200
            if r.random() < 0.3:
                c2 = self.damage(c2)
            loc = [k for k in self.files if k.endswith("config.json")]
            if loc and c2 is not None:
                self.emit(self.optime(300, end), {"op": "file", "path": loc[0], "content": c2})
        if last:
            # the loops are back ten seconds after the reload
            end = max(end, last + 11000 + r.randint(500, 2500))
            save = self.p["nops"]
            self.p["nops"] = (3, 10)
            self.operations(last + 11000, end - last - 11000)
            self.p["nops"] = save
        if self.p.get("cfgmix"):
            end = self.p["cfgmix"](self, res, base, end)
        if self.term or self.yes("term"):
            t = end // 50 * 50 + res.pop()
            self.emit(t, {"op": "sig", "n": "TERM"})
            end = t + 300
        if self.yes("late") and not nh:
            lt = []
            t = 0
            for _ in range(r.randint(1, 4)):
                t += r.randint(200, 1500)
                lt.append([t, r.choice([7, 30, 60, 110, 250, 490])])
            scn["late"] = lt
        self.ops.sort(key=lambda o: o["t"])
        scn["ops"] = self.ops
        scn["files"] = self.files
        scn["world"] = self.svc
        scn["faults"] = faults
        scn["end"] = end
        ns = set(self.sens) | set(self.fans)
        if getattr(self, "dbus", False):
            pw = {f["wpath"].rsplit("/", 1)[1] for f in self.fans.values()}
            ns |= {f + q for f in self.fans for q in pw} | {n.replace(" ", "_") for n in ns}
            for path, ifs in self.svc.get("xyz.openbmc_project.EntityManager", {}).items():
                for b in ifs.values():
                    ns |= {n.replace(" ", "_") for n in b.get("Inputs", ["", []])[1] if isinstance(b["Inputs"][1], list)}
        scn["names"] = sorted(ns | set(scn["names"]))
        return scn

    def corewatch(self, d):
        w = self.scn.setdefault("watch", [])
        names = set()
        for n in getattr(self, "pidnames_used", []):
            names.add("".join(c for c in n if c.isalnum()))
        for z in (getattr(self, "cfg", None) or {}).get("zones", []):
            for p in z["pids"]:
                names.add("".join(c for c in p["name"] if c.isalnum()))
        for n in sorted(names):
            if n:
                w += ["%s/pidcore.%s" % (d, n), "%s/pidcoeffs.%s" % (d, n)]


def gen(seed, prof):
    return Gen(seed, prof).build()
