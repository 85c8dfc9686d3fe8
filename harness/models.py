"""The bounded models: configurations explored exhaustively with TLC
(spec/Model.tla), and behaviours drawn from them for replay in the real code."""
import concurrent.futures, copy, json, os, random, re, tempfile
import runner, convert
from dsl import *

TLA_IDS = ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28").split()


def m_fail():
    """failure and recovery of thermal and fan sensors of one zone: floors, acceptable ones"""
    b = B()
    b.temp("t1", 40.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.fan("f2", 2000.0, write="dbus", lo=0, hi=100)
    b.zone(1, [b.step("s1", ["t1", "t2"], [(20, 20.0), (50, 90.0)], fsp=40.0, miss=["t2"]),
               b.pid("p1", "temp", ["t1"], 20.0, 80.0, kp=-1.0),
               b.fanpid("fp", ["f1", "f2"], fsp=60.0)], fsp=50.0, fan=500, therm=1000)
    return b, [b.val("t1", "nan"), b.val("t1", 60.0), b.val("t2", "nan"), b.val("t2", 30.0),
               b.func("f1", False), b.func("f1", True)]


def m_strict():
    b, ops = m_fail()
    b.variant = "strict"
    return b, ops


def m_sensor():
    """every condition of one margin sensor"""
    b = B()
    b.temp("m1", 20.0, "margin", crit=(False, False), avail=True, func=True, timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("p1", "margin", ["m1"], 10.0, kp=1.0), b.fanpid("fp", ["f1"])], fan=500, therm=500)
    return b, [b.val("m1", "nan"), b.val("m1", 5.0), b.val("m1", 0.0), b.alarm("m1", lo=True, hi=True), b.alarm("m1", lo=False, hi=True),
               b.alarm("m1", lo=False, hi=False), b.avail("m1", False), b.avail("m1", True), b.func("m1", False), b.func("m1", True)]


def m_sensor2():
    """a sensor whose unavailability is no failure, and a fan sensor, with the warning alarm"""
    b = B(variant="unc")
    b.temp("t1", 20.0, "temp", crit=(False, False), warn=False, avail=True, func=True, timeout=0, unavailableAsFailed=False)
    b.fan("f1", 2000.0, unavailableAsFailed=False)
    b.zone(1, [b.pid("p1", "temp", ["t1"], 10.0, kp=-1.0), b.fanpid("fp", ["f1"])], fan=500, therm=500)
    return b, [b.val("t1", "nan"), b.val("t1", -5.0), b.warn("t1", True), b.warn("t1", False),
               b.avail("t1", False), b.avail("t1", True), b.avail("f1", False), b.avail("f1", True), b.val("f1", 1000.0)]


def m_timeout():
    """time-outs of one and two seconds, refreshed or not"""
    b = B()
    b.temp("t1", 40.0, timeout=1)
    b.temp("t2", 40.0)
    b.ext("x1", timeout=1)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("p1", "temp", ["t1", "t2", "x1"], 20.0, kp=-1.0), b.fanpid("fp", ["f1"])], fan=500, therm=500)
    return b, [b.val("t1", 40.0), b.val("t1", "nan"), b.val("t2", 40.0), b.write("x1", 0.0)]


def m_arb():
    """arbitration with ceilings and disabled controllers"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (32, 40.0), (40, 60.0)]), b.pid("b", "temp", ["t2"], 20.0, kp=-1.0, omin=-50.0),
               b.step("c", ["t2"], [(20, 90.0), (60, 30.0)], ceil=True), b.fanpid("fp", ["f1"])],
           min=15.0, fan=1000, therm=1000)
    return b, [b.val("t1", 10.0), b.val("t1", 45.0), b.val("t1", 32.0), b.val("t1", 40.0), b.val("t2", 10.0), b.val("t2", 65.0), b.val("t2", 32.0), b.enable(1, "a", False),
               b.enable(1, "a", True), b.enable(1, "b", False), b.enable(1, "b", True)]


def m_acc():
    """accumulation by profile"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.step("a_x", ["t1"], [(20, 20.0), (40, 60.0)]), b.step("b_x", ["t2"], [(20, 10.0), (40, 30.0)]),
               b.pid("c_y", "temp", ["t2"], 20.0, kp=-1.0), b.step("d", ["t1", "t2"], [(0, 40.0)], ceil=True),
               b.fanpid("fp", ["f1"])], min=15.0, fan=1000, therm=1000, acc=True)
    return b, [b.val("t1", 10.0), b.val("t1", 45.0), b.val("t2", 10.0), b.val("t2", 65.0), b.enable(1, "a_x", False),
               b.enable(1, "a_x", True), b.enable(1, "c_y", False), b.enable(1, "c_y", True)]


def m_inputs():
    """selection of the input of margin, temperature, power and power-sum controllers"""
    b = B()
    b.temp("t1", 30.0, "margin", timeout=0)
    b.temp("t2", 30.0, "margin", timeout=0)
    b.ext("x1", "temp", timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("mg", "margin", ["t1", "t2"], 10.0, ttm=[90.0], kp=1.0), b.pid("te", "temp", ["t1", "x1"], 20.0, kp=-1.0),
               b.pid("ps", "powersum", ["t1", "t2", "x1"], 20.0, kp=-1.0), b.pid("pw", "power", ["x1"], 5.0, kp=-1.0),
               b.fanpid("fp", ["f1"])], fan=1000, therm=1000)
    return b, [b.val("t1", "nan"), b.val("t1", 70.0), b.val("t2", "nan"), b.val("t2", 15.0), b.avail("t2", False), b.write("x1", 40.0),
               b.write("x1", "nan"), b.write("x1", "inf")]


def m_fans():
    """the slowest turning fan; several fans per controller, sysfs and D-Bus"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.fan("f2", 3000.0, write="dbus", hi=100)
    b.fan("f3", 1000, read="sys", write="dbus", lo=20, hi=200)
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (40, 60.75)]), b.fanpid("fp", ["f1", "f2"], ffg=1.0, kp=0.0),
               b.fanpid("fq", ["f3"], ffg=0.5, kp=0.0)], fan=500, therm=1000)
    return b, [b.val("f1", 0.0), b.val("f1", "nan"), b.val("f1", 2500.0), b.val("f2", -1.0), b.val("f2", 3000.0),
               b.file("@/sys/hw/f3_in", "0"), b.file("@/sys/hw/f3_in", "1500"), b.val("t1", 50.0), b.val("t1", 25.0)]


def m_manual():
    """two zones: modes over D-Bus and IPMI, disabled controllers, a shared sensor"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1", 2000.0, write="dbus", hi=100)
    b.fan("f2", 2000.0, write="dbus", hi=100)
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (40, 60.0)], fsp=45.0), b.fanpid("fp", ["f1"])], fan=500, therm=1000)
    b.zone(200, [b.step("a", ["t1", "t2"], [(20, 30.0), (40, 70.0)], miss=["t1"]), b.fanpid("fp", ["f2"])], fan=1000, therm=1000)
    return b, [b.manual(1, True), b.manual(1, False), b.ipmi(1, 200, 1), b.ipmi(1, 200, 0), b.ipmi(0, 200), b.ipmi(2, 1), b.ipmi(1, 7, 1), b.ipmi(1, 1, 2),
               b.ipmi(1, 1), b.ipmi(3, 1, 1), b.func("t1", False), b.func("t1", True), b.enable(1, "a", False), b.enable(1, "a", True)]


def m_cadence():
    """intervals that do not divide each other"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.fan("f2", 2000.0)
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (40, 60.0)]), b.fanpid("fp", ["f1"])], fan=200, therm=500)
    b.zone(2, [b.step("a", ["t1"], [(20, 20.0), (40, 60.0)]), b.fanpid("fp", ["f2"])], fan=300, therm=700)
    return b, [b.val("t1", 50.0), b.val("t1", 30.0), b.manual(1, True), b.manual(1, False)]


GOOD, BAD = "good", "bad"


def m_life(variant="default"):
    """reload, termination, broken and repaired configuration files, missing objects"""
    b = B(variant=variant)
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0, write="sys")
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (40, 60.0)]), b.fanpid("fp", ["f1"])], fan=5000, therm=5000)
    good = json.dumps(b.config())
    c = B()
    c.sensors = copy.deepcopy(b.sensors)
    c.zone(1, [b.step("a", ["t1"], [(20, 25.0)]), b.fanpid("fp", ["f1"])], fan=5000, therm=5000)
    c.zone(2, [b.step("a", ["t1"], [(20, 35.0)])], fan=5000, therm=5000)
    other = json.dumps(c.config())
    empty = json.dumps({"sensors": [], "zones": []})
    return b, [b.hup(), b.term(), b.file("@/config.json", other), b.file("@/config.json", good), b.file("@/config.json", empty),
               b.rm(TP + "t1"), {"op": "addobj", "svc": "svc.temp", "path": TP + "t1", "ifaces": {V: {"Value": ["d", 30.0]}}}]


def m_offline():
    return m_life("offline")


def m_missing():
    """missing objects tolerated; a read that fails"""
    b, ops = m_life("missing")
    return b, [o for o in ops if o["op"] not in ("file",)] + [
        {"op": "fault", "member": "GetAll", "path": TP + "t1", "arg0": V, "count": 1}]


def m_log():
    """failsafe messages, with a limit small enough to be reached"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.step("a", ["t1", "t2"], [(20, 20.0), (40, 60.0)], miss=["t2"]), b.fanpid("fp", ["f1"])], fan=250, therm=250)
    return b, [b.func("t1", False), b.func("t1", True), b.val("t1", "nan"), b.val("t1", 30.0), b.func("t2", False), b.func("t2", True)]


def m_host():
    """failures excused while the host is off"""
    b = B()
    b.hostobj("Off")
    b.temp("t1", 30.0, timeout=0, ignoreFailIfHostOff=True)
    b.temp("t2", 30.0, timeout=0)
    b.ext("x1", timeout=0, ignoreFailIfHostOff=True)
    b.fan("f1", 2000.0)
    b.zone(1, [b.step("a", ["t1", "t2", "x1"], [(20, 20.0), (40, 60.0)]), b.fanpid("fp", ["f1"])], fan=500, therm=500)
    return b, [b.host("Running"), b.host("Off"), b.host("TransitioningToRunning"), b.func("t1", False), b.func("t1", True),
               b.func("t2", False), b.func("t2", True), b.write("x1", "nan"), b.write("x1", 4.0)]


def m_ext():
    """writes of external sensors, including ones of the wrong kind"""
    b = B()
    b.ext("x1", timeout=1)
    b.ext("x2", timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("a", "temp", ["x1", "x2"], 10.0, kp=-1.0), b.fanpid("fp", ["f1"])], fan=500, therm=500)
    return b, [b.write("x1", 0.0), b.write("x1", 50.0), b.write("x1", "nan"), b.write("x2", 20.0), b.write("x2", "-inf"),
               b.call(XSVC, XP + "temperature/x2", V, "Value", "s", "7"), b.get(XSVC, XP + "temperature/x1", V, "Value")]


def m_tuning():
    """set point files in tuning mode"""
    b = B(argv=["-c", "@/config.json", "-t"])
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.fan("f2", 2000.0)
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (40, 60.0)]), b.fanpid("fp", ["f1"], ffg=0.25)], fan=1000, therm=1000)
    b.zone(3, [b.step("a", ["t1"], [(20, 30.0), (40, 60.0)]), b.fanpid("fp", ["f2"], ffg=0.25)], fan=1000, therm=1000)
    sp = "/etc/thermal.d/setpoint"
    return b, [b.file(sp, "120"), b.file(sp, "90"), b.file(sp, None), b.file(sp + ".zone3", "200"), b.file(sp + ".zone3", "x"),
               b.file(sp + ".zone1", "300"), b.file(sp + ".zone1", None), b.func("t1", False), b.func("t1", True)]


def m_scale():
    """scale and normalisation"""
    b = B()
    b.temp("t1", 300.0, "temp", scale=-1, timeout=0)
    b.temp("t2", 64.0, "temp", lim=(16.0, 144.0), timeout=0)
    b.temp("t3", 64.0, "temp", scale=1, lim=(16.0, 144.0), timeout=0, ignoreDbusMinMax=True)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("a", "temp", ["t1", "t2", "t3"], 10.0, kp=-1.0), b.fanpid("fp", ["f1"])], fan=1000, therm=1000)
    return b, [b.val("t1", 400.0), b.val("t1", "nan"), b.val("t2", 32.0), b.val("t2", 128.0), b.val("t3", 5.0), b.avail("t2", False),
               b.avail("t2", True)]


def m_red():
    """overlapping redundancy groups, one with a member that is no fan"""
    b = B()
    b.fan("f1", 2000.0)
    b.fan("f2", 2000.0)
    b.temp("m1", 30.0, type="margin", timeout=0)
    b.group("g1", "Full", [FP + "f1", TP + "m1"])
    b.group("g2", "Failed", [FP + "f1", FP + "f2"])
    b.zone(1, [b.pid("a", "margin", ["m1"], 20.0, kp=-1.0), b.fanpid("fp", ["f1"], fsp=80.0), b.fanpid("fq", ["f2"], fsp=90.0)], fan=500, therm=500)
    return b, [b.red("g1", "Failed"), b.red("g1", "Full"), b.red("g2", "Degraded"), b.red("g2", "Failed"), b.func("f1", False), b.func("f1", True)]


def m_rows():
    """the zone log"""
    b = B(argv=["-c", "@/config.json", "-l", "@/logs"], dirs=["@/logs"])
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0, write="dbus", hi=100)
    b.fan("f2", 1000, read="sys")
    b.zone(1, [b.step("a", ["t1"], [(20, 20.0), (40, 60.0)]), b.pid("p", "temp", ["t1"], 25.0, kp=-1.0),
               b.fanpid("fp", ["f1", "f2"])], fan=500, therm=1000)
    return b, [b.val("t1", 50.0), b.val("t1", 30.0), b.func("t1", False), b.func("t1", True), b.manual(1, True), b.manual(1, False),
               b.val("f1", 0.0), b.enable(1, "p", False)]


def m_law():
    """all terms of the law: integrals within limits, slew limits, derivative, feed-forward"""
    b = B()
    b.temp("t1", 10.0, timeout=0)
    b.temp("m1", 20.0, "margin", timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("i", "temp", ["t1"], 30.0, kp=-1.0, ki=-2.0, imin=-20.0, imax=40.0, omin=-10.0, omax=50.0),
               b.pid("w", "temp", ["t1"], 20.0, kp=-1.0, ki=-1.0, imin=-30.0, imax=30.0, omin=-24.0, omax=60.0, sneg=-8.0, spos=16.0),
               b.pid("d", "margin", ["m1"], 10.0, kp=1.0, kd=0.5, ffo=4.0, ffg=-2.0, omin=-100.0, omax=100.0),
               b.pid("u", "margin", ["m1"], 10.0, kp=-1.0, ki=0.0, omin=0.0, omax=40.0, spos=8.0),
               b.fanpid("fp", ["f1"], kp=0.0, ffg=1.0, sneg=-16.0)], fan=500, therm=1000)
    return b, [b.val("t1", 30.0), b.val("t1", 10.0), b.val("t1", 50.0), b.val("t1", "nan"), b.val("m1", 10.0), b.val("m1", -14.0), b.val("m1", 20.0)]


def m_bands():
    """hysteresis around the law, around the set point, in tables and of fans"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("h", "temp", ["t1"], 20.0, kp=-1.0, ki=-1.0, imin=0.0, imax=8.0, hpos=4.0, hneg=2.0),
               b.pid("c", "temp", ["t1"], 30.0, kp=-1.0, ki=-1.0, imin=-8.0, imax=8.0, omin=5.0, hpos=2.0, hneg=4.0, chk=True),
               b.step("s", ["t1"], [(20, 20.0), (30, 40.0), (34, 60.0)], hpos=3.0, hneg=5.0),
               b.fanpid("fp", ["f1"], kp=0.0, ffg=1.0, hpos=100.0, hneg=200.0)], fan=1000, therm=1000)
    return b, [b.val("t1", v) for v in (20.0, 25.0, 26.0, 29.0, 30.0, 32.0, 33.0, 34.0, 37.0, "nan")] + [b.val("f1", v) for v in (2100.0, 2101.0, 1800.0, 0.0)]


def m_core():
    """core logs: changes, the line after a minute, the first line after a reload"""
    b = B().logs(core=True, zone=False)
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1", 2000.0)
    b.zone(1, [b.pid("p", "temp", ["t1"], 30.0, kp=-1.0, ki=-1.0, imin=0.0, imax=8.0, hpos=1.0, hneg=1.0),
               b.fanpid("fp", ["f1"], kp=0.0, ffg=1.0)], fan=15000, therm=15000)
    return b, [b.val("t1", 30.0), b.val("t1", 30.5), b.val("t1", 34.0), b.val("f1", 2000.0), b.val("f1", 3000.0), b.hup()]


def m_dconf():
    """a configuration on D-Bus: profiles, changed attributes, sensors that come and go"""
    b = D()
    b.dtemp("t1", 30.0)
    b.dtemp("t2", 40.0)
    b.dfan("f1")
    b.world["svc.mode"] = {THM: {ITHM: {"Current": ["s", "Quiet"], "Supported": strs("Quiet", "Loud")}}}
    z = b.dzone("Zone 1", ZoneIndex=num(1), CycleIntervalTimeMS=num(5000), UpdateThermalsTimeMS=num(5000))
    b.dzone("Zone 2", ZoneIndex=num(2), CycleIntervalTimeMS=num(10000), UpdateThermalsTimeMS=num(10000))
    p = b.dpid("p", "temp", ["t1"], ["Zone 1"], SetPoint=num(25), PCoefficient=num(-2))
    b.dpid("q", "temp", ["t2"], ["Zone 1", "Zone 2"], SetPoint=num(20), PCoefficient=num(-1), Profiles=strs("Quiet"))
    b.dstep("s", ["t1"], ["Zone 1"], [(20, 20.0), (30, 30.0)], Profiles=strs("Loud"))
    b.dfanpid("f", ["f1"], ["Pwm_f1"], ["Zone 1"])
    mode = lambda v: {"op": "set", "svc": "svc.mode", "path": THM, "iface": ITHM, "props": {"Current": ["s", v]}}
    att = lambda q, i, **k: {"op": "set", "svc": EM, "path": q, "iface": i, "props": k}
    return b, [mode("Loud"), mode("Quiet"), att(p, IPID, SetPoint=num(25)), att(p, IPID, SetPoint=num(28)), att(z, IZONE, MinThermalOutput=num(40)),
               b.rm(TP + "t2"), {"op": "addobj", "svc": "svc.temp", "path": TP + "t2", "ifaces": {V: {"Value": ["d", 50.0]}}}, b.hup()]


def m_jconf():
    """documents that replace one another, good and bad ones"""
    def doc(**kw):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1", 2000.0, hi=100)
        z = dict(min=10.0, fsp=75.0, fan=5000, therm=10000)
        z.update(kw)
        b.zone(1, [b.pid("p", "temp", ["t1"], 20.0, kp=-1.0, fsp=40.5), b.step("s", ["t1"], [(20, 20.0), (40, 60.0)]), b.fanpid("fp", ["f1"])], **z)
        return b
    b = doc()
    two = doc(min=30.0, fsp=80.5)
    two.zone(7, [two.pid("p", "temp", ["t1"], 25.0, kp=-2.0)], fan=10000, therm=10000)
    short = doc(fan=None, therm=None)
    short.zones[0]["pids"].reverse()
    nofsp = doc()
    del nofsp.zones[0]["failsafePercent"]
    noin = doc()
    noin.zones[0]["pids"][0]["inputs"] = []
    cfg = lambda c: b.file("@/config.json", json.dumps(c.config()) if c else "{")
    return b, [cfg(b), cfg(two), cfg(short), cfg(nofsp), cfg(noin), cfg(None), b.hup()]


# name -> (constructor, properties it is explored for)
MODELS = {
    "fail": (m_fail, "C01 C02 C13"),
    "strict": (m_strict, "C01"),
    "sensor": (m_sensor, "C03"),
    "sensor2": (m_sensor2, "C03 C02"),
    "timeout": (m_timeout, "C04"),
    "arb": (m_arb, "C05 C20 C08"),
    "acc": (m_acc, "C05"),
    "inputs": (m_inputs, "C09"),
    "fans": (m_fans, "C10 C13"),
    "manual": (m_manual, "C11 C18 C19 C20"),
    "cadence": (m_cadence, "C12 C19"),
    "life": (m_life, "C16 C28"),
    "offline": (m_offline, "C16"),
    "missing": (m_missing, "C28"),
    "log": (m_log, "C17"),
    "loglimit": (m_log, "C17"),
    "host": (m_host, "C21"),
    "ext": (m_ext, "C22"),
    "tuning": (m_tuning, "C25"),
    "scale": (m_scale, "C26"),
    "red": (m_red, "C27"),
    "rows": (m_rows, "C23"),
    "law": (m_law, "C06 C05"),
    "bands": (m_bands, "C07"),
    "core": (m_core, "C24"),
    "dconf": (m_dconf, "C15"),
    "jconf": (m_jconf, "C14"),
}


def document(b, ops, burst, depth=1000000000, record=False, scripts=()):
    scn = b.scn(1000)
    scn2 = copy.deepcopy(scn)
    scn2["ops"] = [dict(o, t=0) for o in ops]
    tr = convert.convert(scn2, [])
    files = convert.Files(scn)
    for p, c in scn.get("files", {}).items():
        files.put(p, c)
    wif = {}
    for svc in scn.get("world", {}).values():
        for path, ifs in svc.items():
            wif.setdefault(path, set()).update(ifs)
    tr["alphabet"] = [convert.conv_op(o, files, wif) for o in ops]
    tr["burst"] = burst
    tr["depth"] = depth
    tr["record"] = record
    tr["scripts"] = list(scripts)
    return tr


def _tlc(name, cfg, doc, extra=(), workers=4, stop=None, timeout=850):
    d = tempfile.mkdtemp(prefix="swmc.")
    try:
        f = os.path.join(d, "m.json")
        json.dump(doc, open(f, "w"))
        return runner.tlc("Model", cfg, {"SWAMPD_MODEL": f}, extra=extra, workers=workers, mem="6g", timeout=timeout, stop=stop)[1]
    finally:
        runner.shutil.rmtree(d, ignore_errors=True)


CFG = {"loglimit": "ModelLog.cfg"}


def explore(name, workers=4, stop=30, burst=1):
    """every reachable state of a model (as far as the time allows)"""
    b, ops = MODELS[name][0]()
    out = _tlc(name, CFG.get(name, "Model.cfg"), document(b, ops, burst), workers=workers, stop=stop, timeout=stop + 120)
    n = re.findall(r"([\d,]+) states generated[^\n]*?([\d,]+) distinct[^\n]*?([\d,]+) states left", out)
    first = re.findall(r"Invariant (\w+) is violated by the initial state", out)
    if first:
        return {"model": name, "generated": 1, "distinct": 1, "left": 0, "burst": burst, "depth": 0, "violated": first[0]}
    if not n:
        raise runner.ToolError("model %s: %s" % (name, "\n".join(l[:300] for l in out.split("\n") if not l.startswith("/\\ S"))[-2500:]))
    num = [int(x.replace(",", "")) for x in n[-1]]
    m = {"model": name, "generated": num[0], "distinct": num[1], "left": num[2], "burst": burst}
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    m["depth"] = int(d.group(1)) if d else 0
    v = re.findall(r"Invariant (\w+) is violated", out)
    if v:
        m["violated"] = v[0]
    elif "Error:" in out:
        i = out.find("Error:")
        raise runner.ToolError("model %s: %s" % (name, "\n".join(l[:300] for l in out[i:].split("\n") if not l.startswith("/\\ S"))[:2500]))
    return m


RESTART = ("sig",)


def scripts(nops, num, depth, seed):
    """choices to follow: operations and timers, in bursts and with pauses"""
    r = random.Random(seed)
    pairs = [(i, j) for i in range(1, nops + 1) for j in range(1, nops + 1)]
    r.shuffle(pairs)
    res = []
    for k in range(num):
        s = []
        wait = r.choice([1, 1, 2, 3, 4])
        while len(s) < depth:
            if pairs and r.random() < 0.7:
                i, j = pairs.pop()
                for o in (i, j):
                    s.append(o)
                    s += [0] * r.randint(0, wait)
            else:
                s.append(r.randint(1, nops))
                s += [0] * r.randint(0, 2 * wait)
        res.append(s[:depth])
    return res


def behaviours(name, num, depth, seed, burst=1):
    """behaviours of the model as scenarios for the real daemon"""
    b, ops = MODELS[name][0]()
    doc = document(b, ops, burst, depth, True, scripts(len(ops), num, depth, "%s %d" % (name, seed)))
    out = _tlc(name, "ModelSim.cfg", doc, workers=4, timeout=300)
    if "is violated" in out or "Error:" in out:
        v = re.findall(r"Invariant (\w+) is violated", out)
        if v != ["NoBad"]:
            i = max(0, out.find("Error:"))
            raise runner.ToolError("model %s: %s" % (name, "\n".join(l[:300] for l in out[i:].split("\n") if not l.startswith("/\\ S"))[:2500]))
        return None
    res = [json.loads(m.group(1)) for m in re.finditer(r'<<\s*"BEH",\s*"([^"]*)"\s*>>', out)]
    if not res:
        raise runner.ToolError("model %s: no behaviours: %s" % (name, out[-500:]))
    res.sort(key=lambda h: -len(h))
    scns = []
    for h in res[:num]:
        b, ops = MODELS[name][0]()
        t, k = 0, 0
        for label, dt in h:
            t += dt
            if label:
                o = ops[label - 1]
                k += 1
                heavy = o["op"] in ("sig", "file")
                b.at(t + (1 + k % 9 if heavy else 11 + k % 23), o)
        if b.ops:
            for i in range(1, len(b.ops)):      # one operation at a time
                if b.ops[i]["t"] <= b.ops[i - 1]["t"]:
                    b.ops[i]["t"] = b.ops[i - 1]["t"] + 1
        scns.append(b.scn(t + 1207))
    return scns


def check(pid, tier):
    mine = [n for n in MODELS if pid in MODELS[n][1].split()]
    quick = tier == "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    res = []
    for n in mine:
        r = explore(n, workers=4, stop=20 if quick else 90)
        if not quick and r["left"] == 0:
            r2 = explore(n, workers=8, stop=150, burst=2)
            if r2["distinct"] > r["distinct"]:
                r = r2
        bs = behaviours(n, 24 if quick else 160, 40 if quick else 90, seed)
        if bs is None:
            r.setdefault("violated", "a property, in a longer behaviour")
            bs = []
        r["behaviours"] = [("model:%s:%d" % (n, i), s) for i, s in enumerate(bs)]
        res.append(r)
    return res
