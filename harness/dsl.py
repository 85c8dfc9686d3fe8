"""Compact construction of scenarios: used for models and directed scenarios."""
import copy, json

V = "xyz.openbmc_project.Sensor.Value"
CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical"
WARN = "xyz.openbmc_project.Sensor.Threshold.Warning"
AVAIL = "xyz.openbmc_project.State.Decorator.Availability"
OPER = "xyz.openbmc_project.State.Decorator.OperationalStatus"
PWM = "xyz.openbmc_project.Control.FanPwm"
RED = "xyz.openbmc_project.Control.FanRedundancy"
HOST = "xyz.openbmc_project.State.Host"
MODE = "xyz.openbmc_project.Control.Mode"
EN = "xyz.openbmc_project.Object.Enable"
PROPS = "org.freedesktop.DBus.Properties"
ZSVC = "xyz.openbmc_project.State.FanCtrl"
XSVC = "xyz.openbmc_project.Hwmon.external"
HP = "/xyz/openbmc_project/state/host0"
TP = "/xyz/openbmc_project/sensors/temperature/"
FP = "/xyz/openbmc_project/sensors/fan_tach/"
CP = "/xyz/openbmc_project/control/fanpwm/"
XP = "/xyz/openbmc_project/extsensors/"
RP = "/xyz/openbmc_project/control/FanRedundancy/"
ST = "xyz.openbmc_project.State.Host.HostState."
FR = "xyz.openbmc_project.Control.FanRedundancy.State."


def zpath(z):
    return "/xyz/openbmc_project/settings/fanctrl/zone%d" % z


class B:
    """a scenario being built"""

    def __init__(self, **kw):
        self.sensors, self.zones, self.world, self.files, self.dirs = [], [], {}, {}, []
        self.names, self.argv, self.variant, self.opts = [], ["-c", "@/config.json"], "default", {}
        self.ops, self.late, self.faults, self.watch = [], [], [], []
        self.raw = None
        self.logged = None
        self.logging = None
        self.alias = {}
        self.__dict__.update(kw)
        self._u = 0

    # sensors -------------------------------------------------------------
    def obj(self, svc, path, **ifaces):
        o = self.world.setdefault(svc, {}).setdefault(path, {})
        for i, p in ifaces.items():
            o.setdefault(i, {}).update(p)
        return o

    def temp(self, name, v=40.0, type="temp", scale=None, lim=None, crit=None, avail=None, func=None, warn=None, **conf):
        """a D-Bus thermal sensor"""
        p = {"Value": ["d", v]}
        if scale is not None:
            p["Scale"] = ["x", scale]
        if lim:
            p["MinValue"], p["MaxValue"] = ["d", lim[0]], ["d", lim[1]]
        i = {V: p}
        if crit is not None:
            i[CRIT] = {"CriticalAlarmLow": ["b", crit[0]], "CriticalAlarmHigh": ["b", crit[1]]}
        if warn is not None:
            i[WARN] = {"WarningAlarmHigh": ["b", warn]}
        if avail is not None:
            i[AVAIL] = {"Available": ["b", avail]}
        if func is not None:
            i[OPER] = {"Functional": ["b", func]}
        self.world.setdefault("svc.temp", {})[TP + name] = i
        self._sens(name, type, TP + name, **conf)
        return name

    def _sens(self, name, type, rp, **conf):
        d = {"name": name, "type": type, "readPath": rp}
        d.update(conf)
        self.sensors.append(d)
        self.names.append(name)

    def ext(self, name, type="temp", **conf):
        self._sens(name, type, XP + "temperature/" + name, **conf)
        return name

    def systemp(self, name, v=40, type="temp", **conf):
        self.dirs.append("@/sys/hw")
        self.files["@/sys/hw/" + name] = "%d" % v
        self._sens(name, type, "/sys/hw/" + name, **conf)
        return name

    def fan(self, name, rpm=2000.0, read="dbus", write="sys", lo=0, hi=255, **conf):
        d = {"min": lo, "max": hi}
        if hi is None:
            d = {}
        if read == "dbus":
            self.world.setdefault("svc.fan", {})[FP + name] = {V: {"Value": ["d", rpm]}}
            rp = FP + name
        else:
            self.dirs.append("@/sys/hw")
            self.files["@/sys/hw/%s_in" % name] = "%d" % rpm
            rp = "/sys/hw/%s_in" % name
        if write == "sys":
            self.dirs.append("@/sys/fan")
            self.files["@/sys/fan/" + name] = ""
            d["writePath"] = "/sys/fan/" + name
        elif write == "dbus":
            self.world.setdefault("svc.pwm", {})[CP + name] = {PWM: {"Target": ["t", 0]}}
            d["writePath"] = CP + name
        d.update(conf)
        self._sens(name, "fan", rp, **d)
        return name

    # controllers ---------------------------------------------------------
    @staticmethod
    def coeffs(**k):
        d = {"samplePeriod": 1.0, "proportionalCoeff": 0.0, "integralCoeff": 0.0, "feedFwdOffsetCoeff": 0.0,
             "feedFwdGainCoeff": 0.0, "integralLimit_min": 0.0, "integralLimit_max": 100.0, "outLim_min": 0.0,
             "outLim_max": 100.0, "slewNeg": 0.0, "slewPos": 0.0}
        short = {"ts": "samplePeriod", "kp": "proportionalCoeff", "ki": "integralCoeff", "kd": "derivativeCoeff",
                 "ffo": "feedFwdOffsetCoeff", "ffg": "feedFwdGainCoeff", "imin": "integralLimit_min",
                 "imax": "integralLimit_max", "omin": "outLim_min", "omax": "outLim_max", "sneg": "slewNeg",
                 "spos": "slewPos", "hpos": "positiveHysteresis", "hneg": "negativeHysteresis",
                 "chk": "checkHysteresisWithSetpoint"}
        for a, v in k.items():
            d[short[a]] = v
        return d

    def pid(self, name, type, inputs, setpoint=0.0, fsp=None, ttm=None, miss=None, **k):
        p = {"name": name, "type": type, "inputs": list(inputs), "setpoint": setpoint, "pid": self.coeffs(**k)}
        if fsp is not None:
            p["FailSafePercent"] = fsp
        if ttm is not None:
            p["tempToMargin"] = ttm
        if miss is not None:
            p["missingIsAcceptable"] = miss
        return p

    def fanpid(self, name, inputs, fsp=None, **k):
        """feed-forward of the set point unless told otherwise"""
        k.setdefault("ffg", 1.0)
        return self.pid(name, "fan", inputs, 0.0, fsp, **k)

    def step(self, name, inputs, pts, ceil=False, hpos=0.0, hneg=0.0, fsp=None, miss=None):
        p = {"name": name, "type": "stepwise", "inputs": list(inputs), "setpoint": 0.0,
             "pid": {"samplePeriod": 1.0, "isCeiling": ceil, "positiveHysteresis": hpos, "negativeHysteresis": hneg,
                     "reading": {str(i): a for i, (a, _) in enumerate(pts)},
                     "output": {str(i): b for i, (_, b) in enumerate(pts)}}}
        if fsp is not None:
            p["FailSafePercent"] = fsp
        if miss is not None:
            p["missingIsAcceptable"] = miss
        return p

    def zone(self, id, pids, min=10.0, fsp=75.0, fan=None, therm=None, acc=None):
        z = {"id": id, "minThermalOutput": min, "failsafePercent": fsp, "pids": pids}
        if fan is not None:
            z["cycleIntervalTimeMS"] = fan
        if therm is not None:
            z["updateThermalsTimeMS"] = therm
        if acc is not None:
            z["accumulateSetPoint"] = acc
        self.zones.append(z)
        return self

    # operations ----------------------------------------------------------
    def svc_of(self, path):
        for s, o in self.world.items():
            if path in o:
                return s
        return "svc.temp"

    def set(self, path, iface, **props):
        return {"op": "set", "svc": self.svc_of(path), "path": path, "iface": iface, "props": props}

    def val(self, name, v):
        p = TP + name if TP + name in self.world.get("svc.temp", {}) else FP + name
        return self.set(p, V, Value=["d", v])

    def alarm(self, name, **k):
        p = TP + name if TP + name in self.world.get("svc.temp", {}) else FP + name
        d = {}
        if "lo" in k:
            d["CriticalAlarmLow"] = ["b", k["lo"]]
        if "hi" in k:
            d["CriticalAlarmHigh"] = ["b", k["hi"]]
        return self.set(p, CRIT, **d)

    def warn(self, name, v):
        return self.set(TP + name, WARN, WarningAlarmHigh=["b", v])

    def avail(self, name, v):
        p = TP + name if TP + name in self.world.get("svc.temp", {}) else FP + name
        return self.set(p, AVAIL, Available=["b", v])

    def func(self, name, v):
        p = TP + name if TP + name in self.world.get("svc.temp", {}) else FP + name
        return self.set(p, OPER, Functional=["b", v])

    def host(self, state):
        return self.set(HP, HOST, CurrentHostState=["s", ST + state])

    def hostobj(self, state):
        self.world.setdefault("svc.host", {})[HP] = {HOST: {"CurrentHostState": ["s", ST + state]}}

    def group(self, name, state, members):
        self.world.setdefault("svc.red", {})[RP + name] = {RED: {"Status": ["s", FR + state],
                                                                 "Collection": ["as", members]}}

    def red(self, name, state):
        return self.set(RP + name, RED, Status=["s", FR + state])

    @staticmethod
    def call(dest, path, iface, prop, sig, v):
        return {"op": "call", "dest": dest, "path": path, "iface": PROPS, "member": "Set",
                "args": [["s", iface], ["s", prop], ["v", [sig, v]]]}

    @staticmethod
    def get(dest, path, iface, prop):
        return {"op": "call", "dest": dest, "path": path, "iface": PROPS, "member": "Get",
                "args": [["s", iface], ["s", prop]]}

    def manual(self, z, v):
        return self.call(ZSVC, zpath(z), MODE, "Manual", "b", v)

    def enable(self, z, name, v):
        return self.call(ZSVC, zpath(z) + "/" + name, EN, "Enabled", "b", v)

    def write(self, name, v):
        return self.call(XSVC, XP + "temperature/" + name, V, "Value", "d", v)

    @staticmethod
    def ipmi(*b):
        return {"op": "ipmi", "bytes": list(b)}

    @staticmethod
    def hup():
        return {"op": "sig", "n": "HUP"}

    @staticmethod
    def term():
        return {"op": "sig", "n": "TERM"}

    @staticmethod
    def file(path, content):
        return {"op": "file", "path": path, "content": content}

    @staticmethod
    def rm(b_path):
        return {"op": "rmobj", "svc": "svc.temp", "path": b_path}

    @staticmethod
    def multi(*ops):
        return {"op": "multi", "ops": list(ops)}

    def logs(self, core=False, zone=True):
        """with zone logs (written out when the daemon ends), or core logs"""
        self.argv = self.argv + ["-l", "@/logs"] + (["-g"] if core else [])
        self.dirs.append("@/logs")
        self.logging = core
        self.zonelogs = zone
        return self

    def config(self):
        return {"sensors": self.sensors, "zones": self.zones}

    def at(self, t, op):
        o = copy.deepcopy(op)
        o["t"] = t
        self.ops.append(o)
        return self

    def seq(self, start, step, ops):
        """operations at regular times; none falls on a cycle"""
        t = start
        for o in ops:
            if o is not None:
                self.at(t, o)
            t += step
        return t

    def scn(self, end=None):
        self.ops.sort(key=lambda o: o["t"])
        last = self.ops[-1]["t"] if self.ops else 0
        if self.logging is not None:
            end = end or last + 1500
            t = end - end % 50 + 57
            self.at(t, self.term())
            end = t + 300
            self.watch = ["@/logs/zone_%d.log" % z["id"] for z in self.zones] if self.zonelogs else []
            self.logged = None if not self.zonelogs else {str(z["id"]): sum(len(p["inputs"]) for p in z["pids"] if p["type"] == "fan") for z in self.zones}
            if self.logging:
                for n in sorted({"".join(c for c in p["name"] if c.isalnum()) for z in self.zones for p in z["pids"]}):
                    self.watch += ["@/logs/pidcore." + n, "@/logs/pidcoeffs." + n]
        files = dict(self.files)
        if "-c" in self.argv and "@/config.json" not in files:
            files["@/config.json"] = json.dumps(self.config())
        d = {"variant": self.variant, "names": sorted(set(self.names)), "dirs": sorted(set(self.dirs)), "argv": list(self.argv),
             "world": copy.deepcopy(self.world), "files": files, "ops": copy.deepcopy(self.ops), "late": self.late,
             "faults": copy.deepcopy(self.faults), "end": end or last + 1500}
        if self.watch:
            d["watch"] = self.watch
        if self.opts:
            d["opts"] = self.opts
        if self.alias:
            d["alias"] = self.alias
        if self.logged is not None:
            d["logged"] = self.logged
        return d


# configurations on D-Bus ------------------------------------------------------
EM = "xyz.openbmc_project.EntityManager"
INV = "/xyz/openbmc_project/inventory"
IPID = "xyz.openbmc_project.Configuration.Pid"
IZONE = IPID + ".Zone"
ISTEP = "xyz.openbmc_project.Configuration.Stepwise"
ITHM = "xyz.openbmc_project.Control.ThermalMode"
THM = "/xyz/openbmc_project/control/thermal_mode"


def num(v):
    return ["d", float(v)]


def strs(*v):
    return ["as", list(v)]


class D(B):
    """a configuration published by EntityManager"""

    def __init__(self, **kw):
        B.__init__(self, **kw)
        self.argv = []
        self.world.setdefault(EM, {})[INV] = {"org.freedesktop.DBus.ObjectManager": {}}

    def add(self, name, iface, b):
        p = INV + "/system/board/B/" + "".join(c if c.isalnum() else "_" for c in name)
        self.world[EM][p] = {iface: b}
        return p

    def dfan(self, name, rpm=2000.0, pwm=None, lim=None):
        p = {"Value": ["d", rpm]}
        if lim:
            p["MinValue"], p["MaxValue"] = ["d", lim[0]], ["d", lim[1]]
        self.world.setdefault("svc.fan", {})[FP + name] = {V: p}
        self.world.setdefault("svc.pwm", {})[CP + (pwm or "Pwm_" + name)] = {PWM: {"Target": ["t", 0]}}
        self.names += [name, name + (pwm or "Pwm_" + name)]

    def dtemp(self, name, v=40.0, dir=TP, **k):
        self.temp(name, v, **k)
        if dir != TP:
            self.world["svc.temp"][dir + name] = self.world["svc.temp"].pop(TP + name)
        self.sensors.pop()

    def dzone(self, name, **k):
        a = {"Name": ["s", name], "MinThermalOutput": num(10), "FailSafePercent": num(70)}
        a.update(k)
        return self.add(name, IZONE, {x: y for x, y in a.items() if y is not None})

    def dpid(self, name, cls, inputs, zones, **k):
        a = {"Name": ["s", name], "Class": ["s", cls], "Inputs": strs(*inputs), "Zones": strs(*zones), "SetPoint": num(0)}
        for x in ("PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient", "ILimitMin", "ILimitMax", "OutLimitMin",
                  "SlewNeg", "SlewPos"):
            a[x] = num(0)
        a["OutLimitMax"] = num(100)
        a.update(k)
        return self.add(name, IPID, {x: y for x, y in a.items() if y is not None})

    def dfanpid(self, name, inputs, outputs, zones, **k):
        return self.dpid(name, "fan", inputs, zones, Outputs=strs(*outputs), FFGainCoefficient=num(1), **k)

    def dstep(self, name, inputs, zones, pts, ceil=False, **k):
        a = {"Name": ["s", name], "Class": ["s", "Ceiling" if ceil else "Floor"], "Inputs": strs(*inputs), "Zones": strs(*zones),
             "Reading": ["ad", [float(x) for x, _ in pts]], "Output": ["ad", [float(y) for _, y in pts]]}
        a.update(k)
        return self.add(name, ISTEP, {x: y for x, y in a.items() if y is not None})
