"""Scenarios constructed for a property: exhaustive walks over small sets of
conditions, boundary values and configurations, each replayed in the real
daemon and judged by the specification like any other scenario."""
import copy, itertools, random
from dsl import *

OUT = {}


def for_(*ids):
    def deco(f):
        for i in ids:
            OUT.setdefault(i, []).append(f)
        return f
    return deco


def scenarios(pid, tier):
    res = []
    for f in OUT.get(pid, []):
        for name, s in f(tier == "quick"):
            res.append(("directed:%s:%s" % (f.__name__, name), s))
    return res


def gray(n, start=0):
    """all subsets of n conditions, one change at a time: the bit to toggle"""
    return [(k & -k).bit_length() - 1 for k in range(1, 1 << n)]


def toggles(n, setters, repeat=1):
    """operations of a Gray walk: setters[i](bool)"""
    st = [False] * n
    ops = []
    for _ in range(repeat):
        for b in gray(n):
            st[b] = not st[b]
            ops.append(setters[b](st[b]))
    return ops


# C01, C02, C13 ---------------------------------------------------------------
def failzone(b, order, demand, two=False):
    """five sensors with different failsafe percentages; returns the setters"""
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, func=True, timeout=0)
    b.temp("t3", 30.0, crit=(False, False), timeout=0)
    b.temp("t4", 30.0, avail=True, timeout=0)
    b.temp("d", 30.0, timeout=0)
    b.ext("e1", timeout=0)
    b.fan("f1", 2000.0)
    b.fan("f2", 2000.0, write="dbus", lo=20, hi=200)
    b.fan("f3", 1000, read="sys", write="sys", lo=0, hi=100)
    s = [lambda v: b.val("t1", "nan" if v else 30.0), lambda v: b.func("t2", not v),
         lambda v: b.alarm("t3", hi=v), lambda v: b.write("e1", "nan" if v else 20.0),
         lambda v: b.avail("t4", not v)]
    out = [(0, float(demand))]
    pids = [b.step("a1", ["t1"], out, fsp=80.0), b.step("a2", ["t2"], out, fsp=55.5),
            b.step("a3", ["t3", "d"], out), b.step("a4", ["e1"], out, fsp=0.0),
            b.step("a5", ["t4"], out, fsp=90.0, miss=["t4"] if order else None),
            b.fanpid("f", ["f1", "f2"], fsp=65.0), b.fanpid("g", ["f3"])]
    b.zone(1, pids, min=5.0, fsp=70.0, fan=100, therm=100)
    if two:
        b.fan("f4", 2000.0)
        b.zone(2, [b.step("b1", ["t1"], out, fsp=40.0), b.step("b2", ["t2", "t4"], out, fsp=95.0), b.fanpid("h", ["f4"])],
               min=5.0, fsp=60.0, fan=100, therm=200)
    return s


@for_("C01", "C02")
def subsets(quick):
    for variant in ("default", "strict"):
        for demand in (20, 85):
            for order in (0, 1):
                if quick and (variant, demand, order) in (("strict", 85, 0), ("strict", 20, 0), ("default", 85, 1)):
                    continue
                b = B(variant=variant)
                s = failzone(b, order, demand, two=order)
                b.at(119, b.write("e1", 20.0))
                k = b.seq(319, 200, toggles(5, s))
                yield "%s-%d-%d" % (variant, demand, order), b.scn(k + 400)


@for_("C01", "C02")
def manyreasons(quick):
    """a sensor failed for several reasons at once recovers with the last"""
    b = B()
    b.temp("t1", 30.0, crit=(False, False), avail=True, func=True, timeout=2)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1")
    b.zone(1, [b.step("a", ["t1"], [(0, 20.0)], fsp=80.0), b.step("c", ["t2"], [(0, 20.0)], fsp=0.0), b.fanpid("f", ["f1"])],
           min=5.0, fsp=45.0, fan=100, therm=100)
    s = [lambda v: b.val("t1", "nan" if v else 31.0), lambda v: b.func("t1", not v), lambda v: b.avail("t1", not v),
         lambda v: b.val("t2", "inf" if v else 30.0)]
    ops = toggles(4, s)
    k = b.seq(319, 400, ops + [None] * 6 + ops[:8])
    yield "reasons", b.scn(k + 2600)


# C03, C21 --------------------------------------------------------------------
def conditions(b, name, kind, ign, **conf):
    """a sensor of a kind with every condition, and their setters"""
    if kind == "fan":
        b.fan(name, 2000.0, **conf)
        i = b.world["svc.fan"][FP + name]
        i[CRIT] = {"CriticalAlarmLow": ["b", False], "CriticalAlarmHigh": ["b", False]}
        i[AVAIL] = {"Available": ["b", True]}
        i[OPER] = {"Functional": ["b", True]}
    else:
        b.temp(name, 30.0, type=kind, crit=(False, False), avail=True, func=True, timeout=0, **conf)
    al = {"lo": False, "hi": False}

    def alarm(w):
        def f(v):
            al[w] = v
            return b.alarm(name, **al)      # both are told
        return f
    return [lambda v: b.avail(name, not v), lambda v: b.func(name, not v), alarm("hi"), alarm("lo"),
            lambda v: b.val(name, ("nan" if kind != "margin" else 0.0) if v else 30.0)]


@for_("C03", "C21")
def walks(quick):
    for kind in ("temp", "margin", "power", "fan"):
        for uaf in (None, True, False):
            if quick and (kind, uaf) in (("temp", None), ("power", True), ("margin", None), ("power", None), ("fan", None)):
                continue
            b = B()
            conf = {} if uaf is None else {"unavailableAsFailed": uaf}
            s = conditions(b, "x", kind, False, **conf)
            b.temp("t9", 30.0, timeout=0)
            if kind == "fan":
                b.zone(1, [b.step("a", ["t9"], [(0, 20.0)]), b.fanpid("f", ["x"])], fan=100, therm=100)
            else:
                b.fan("f1")
                b.zone(1, [b.pid("a", kind, ["x"], 10.0, kp=-1.0), b.step("c", ["t9"], [(0, 20.0)]), b.fanpid("f", ["f1"])],
                       fan=100, therm=100)
            k = b.seq(219, 200, toggles(5, s))
            yield "%s-%s" % (kind, uaf), b.scn(k + 300)


@for_("C03")
def warnings(quick):
    """the warning alarm counts with its build option only"""
    for variant in ("unc", "default"):
        b = B(variant=variant)
        b.temp("t1", 30.0, warn=False, crit=(False, False), timeout=0)
        b.fan("f1")
        b.zone(1, [b.step("a", ["t1"], [(0, 20.0)]), b.fanpid("f", ["f1"])], fan=100, therm=100)
        b.seq(219, 300, [b.warn("t1", True), b.warn("t1", False), b.alarm("t1", hi=True), b.alarm("t1", hi=False),
                         b.alarm("t1", lo=True), b.alarm("t1", lo=False), b.val("t1", 31.0), b.val("t1", "nan"), b.warn("t1", False),
                         b.val("t1", 32.0)])
        yield variant, b.scn()


@for_("C03")
def initially(quick):
    """every condition present from the start, and cleared"""
    for kind in ("temp", "margin", "fan"):
        for cond in range(5):
            b = B()
            s = conditions(b, "x", kind, False, unavailableAsFailed=True)
            o = s[cond](True)
            svc = "svc.fan" if kind == "fan" else "svc.temp"
            b.world[svc][o["path"]][o["iface"]].update(o["props"])
            b.temp("t9", 30.0, timeout=0)
            if kind != "fan":
                b.fan("f1")
            b.zone(1, ([] if kind == "fan" else [b.pid("a", kind, ["x"], 10.0, kp=-1.0)]) +
                   [b.step("c", ["t9"], [(0, 20.0)]), b.fanpid("f", ["x" if kind == "fan" else "f1"])], fan=100, therm=100)
            b.seq(419, 300, [s[cond](False), s[cond](True), s[cond](False)])
            yield "%s-%d" % (kind, cond), b.scn()


@for_("C03")
def partial(quick):
    """two alarms asserted, one of them taken back (known finding)"""
    for first in ("lo", "hi"):
        b = B()
        b.temp("t1", 30.0, crit=(False, False), timeout=0)
        b.fan("f1")
        b.zone(1, [b.step("a", ["t1"], [(0, 20.0)]), b.fanpid("f", ["f1"])], fan=100, therm=100)
        other = "hi" if first == "lo" else "lo"
        b.seq(219, 330, [b.alarm("t1", **{first: True}), b.alarm("t1", **{other: True}), b.alarm("t1", **{first: False}),
                         b.alarm("t1", **{other: False})])
        yield first, b.scn()


# C04 -------------------------------------------------------------------------
@for_("C04")
def ages(quick):
    """readings of exactly the age of the timeout, and a millisecond either way"""
    for kind in ("dbus", "ext", "fan"):
        for T in (1, 2, 3):
            for d in (-1, 0, 1):
                if quick and T == 3 and d != 0:
                    continue
                b = B()
                b.temp("t9", 30.0, timeout=0)
                if kind == "dbus":
                    b.temp("x", 30.0, timeout=T)
                    up = [b.val("x", 30.0), b.val("x", 31.0)]
                elif kind == "ext":
                    b.ext("x", timeout=T)
                    up = [b.write("x", 30.0), b.write("x", 31.0)]
                else:
                    b.fan("x", timeout=T)
                    up = [b.val("x", 2000.0), b.val("x", 2100.0)]
                if kind == "fan":
                    b.zone(1, [b.step("c", ["t9"], [(0, 20.0)]), b.fanpid("f", ["x"])], fan=100, therm=100)
                else:
                    b.fan("f1")
                    b.zone(1, [b.step("c", ["x"], [(0, 20.0)]), b.fanpid("f", ["f1"])], fan=100, therm=100)
                if d == 0 and T == 1:
                    b.late = [[1000 * T, d]] if d else []       # the age since the start
                b.at(311, up[0])
                b.at(411, up[1])
                t = 411 + 1000 * T
                b.late = [[t - 11, 11 + d]]
                b.at(t + 651, up[0])
                b.at(t + 951, up[0])                    # the same value again counts
                t += 951
                b.late.append([t - t % 100 + 1000 * T, t % 100 + d])
                yield "%s-%d%+d" % (kind, T, d), b.scn(t + 1000 * T + 500)


@for_("C04")
def patience(quick):
    """timeouts of up to five minutes"""
    b = B()
    b.temp("t0", 30.0, timeout=0)
    ts = (16, 31, 60, 61, 100, 127, 128, 200, 255, 256, 258, 300)
    for i, T in enumerate(ts):
        n = "t%d" % T
        b.temp(n, 30.0, timeout=T)
        b.fan("f%d" % i)
        b.zone(i, [b.step("s%d" % i, ["t0", n], [(0, 20.0)]), b.fanpid("p%d" % i, ["f%d" % i])], fan=2000, therm=4000)
    for T in ts:
        b.at(5111, b.val("t%d" % T, 31.0))
    yield "minutes", b.scn(310000)


@for_("C12")
def leisure(quick):
    """intervals of a minute and more"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    for i, (fan, therm) in enumerate(((66000, 66000), (70000, 30000), (2000, 66000), (4000, 70000), (65536, 131072), (33000, 66000))):
        b.fan("f%d" % i)
        b.zone(i, [b.step("s%d" % i, ["t1"], ladder()), b.fanpid("p%d" % i, ["f%d" % i])], fan=fan, therm=therm)
    b.seq(1113, 20010, [b.val("t1", 10.0 + 7 * i % 30) for i in range(14)])
    yield "minutes", b.scn(290000)


@for_("C05", "C10", "C26", "C25")
def magnitudes(quick):
    """speeds, readings and set points in the tens and hundreds of thousands"""
    for mode in ("plain", "accumulate", "tuning"):
        acc = mode == "accumulate"
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.systemp("z1", 300, timeout=0)
        b.fan("f1", 2000.0)
        b.fan("f2", 2000, read="sys")
        b.zone(1, [b.step("A_x", ["t1"], [(0, 2000.0), (10, 9999.0), (20, 30000.0), (30, 70000.0), (40, 131072.0)]),
                   b.pid("B_x", "temp", ["z1"], 0.0, kp=-1.0, omin=0.0, omax=200000.0),
                   b.step("c", ["t1"], [(0, 400000.0), (40, 100000.0)], ceil=True),
                   b.fanpid("p1", ["f1"], kp=0.0009765625, ffg=0.0), b.fanpid("p2", ["f2"], kp=0.0009765625, ffg=0.0)],
               min=0.0 if acc else 1500.0, fan=500, therm=500, acc=acc)
        t = 620
        for i, v in enumerate((5.0, 15.0, 25.0, 35.0, 45.0, 35.0, 20.0, 0.0)):
            b.at(t, b.val("t1", v))
            b.at(t + 12, b.val("f1", (32767.0, 32768.0, 65535.0, 65536.0, 40000.0, 100000.0, 12.0, 0.5)[i]))
            b.at(t + 13, b.file("@/sys/hw/f2_in", ("32768", "65536", "40000", "131072", "-5", "70000", "-40000", "3")[i]))
            b.at(t + 14, b.file("@/sys/hw/z1", ("40000", "-300", "65536", "70000", "130000", "-40000", "0", "16")[i]))
            if mode == "tuning":
                b.at(t + 15, b.file("/etc/thermal.d/setpoint", ("32767", "32768", "65536", "20000", "150000", None, "101", "100")[i]))
            t += 1000
        if mode == "tuning":
            b.files["/etc/thermal.d/tuning"] = ""
            b.opts["tuning"] = True
        yield mode, b.scn(t)


@for_("C04")
def refreshers(quick):
    """what refreshes a reading and what does not"""
    b = B()
    b.temp("x", 30.0, crit=(False, False), avail=True, func=True, timeout=1)
    b.temp("y", 30.0, timeout=1)
    b.ext("e", timeout=1)
    b.systemp("z", 30, timeout=1)
    b.fan("f1", read="sys")
    b.zone(1, [b.step("a", ["x"], [(0, 20.0)], fsp=80.0), b.step("b", ["y"], [(0, 20.0)], fsp=85.0), b.step("c", ["e"], [(0, 20.0)], fsp=90.0),
               b.step("d", ["z"], [(0, 20.0)], fsp=95.0), b.fanpid("f", ["f1"])], fan=100, therm=100)
    t = 319
    for i in range(12):
        b.at(t, b.val("y", 30.0))
        b.at(t + 10, [b.alarm("x", hi=False), b.avail("x", True), b.func("x", True), b.val("x", 30.0)][i % 4])
        b.at(t + 15, b.get(XSVC, XP + "temperature/e", V, "Value") if i % 3 else b.write("e", 20.0))
        t += 300
    for i in range(4):
        b.at(t, b.val("x", "nan" if i % 2 else 30.0))
        t += 700
    yield "kinds", b.scn(t + 1500)


# C05, C20 --------------------------------------------------------------------
def ladder(k=1):
    return [(10, 10.0 * k), (20, 20.0 * k), (30, 30.0 * k)]


def product(b, names, values):
    """operations that visit every combination of values"""
    cur = [None] * len(names)
    ops = []
    for i, combo in enumerate(itertools.product(*values)):
        todo = [b.val(n, v) for j, (n, v) in enumerate(zip(names, combo)) if cur[j] != v]
        cur = list(combo)
        ops.append(b.multi(*todo))
    return ops


@for_("C05")
def combos(quick):
    for acc in (None, True):
        for ceil in (False, True):
            for k in (1, 50):
                if quick and k == 50 and not ceil:
                    continue
                b = B()
                for n in ("t1", "t2", "t3", "c"):
                    b.temp(n, 10.0, timeout=0)
                b.fan("f1", hi=255)
                if acc:
                    names = ["A_cpu", "B_1_cpu", "C_mem"]
                else:
                    names = ["a", "b_x", "c_x"]
                pids = [b.step(n, [t], ladder(k)) for n, t in zip(names, ("t1", "t2", "t3"))]
                if ceil:
                    pids.append(b.step("top_cpu", ["c"], [(10, 15.0 * k), (20, 25.0 * k), (30, 200.0 * k)], ceil=True))
                pids.append(b.fanpid("f", ["f1"]))
                b.zone(1, pids, min=15.0 * k, fan=100, therm=100, acc=acc)
                ops = product(b, ["t1", "t2", "t3"] + (["c"] if ceil else []),
                              [[10.0, 20.0, 30.0]] * 3 + ([[10.0, 20.0, 30.0]] if ceil else []))
                if ceil and quick:
                    ops = ops[::2]
                t = b.seq(119, 100, ops)
                yield "%s-%s-%d" % (acc, ceil, k), b.scn(t + 200)


@for_("C05", "C20")
def switches(quick):
    """every subset of enabled controllers"""
    for acc in (None, True):
        b = B()
        for n, v in (("t1", 30.0), ("t2", 20.0), ("t3", 30.0)):
            b.temp(n, v, timeout=0)
        b.fan("f1")
        names = ["A_cpu", "B_cpu", "C_mem"]
        b.zone(1, [b.step(n, [t], ladder()) for n, t in zip(names, ("t1", "t2", "t3"))] +
               [b.pid("p", "temp", ["t2"], 5.0, kp=-1.0), b.fanpid("f", ["f1"])], min=12.0, fan=100, therm=100, acc=acc)
        s = [lambda v, n=n: b.enable(1, n, not v) for n in names + ["p"]]
        t = b.seq(119, 200, toggles(4, s) + [b.val("t1", "nan"), b.enable(1, "A_cpu", True), b.enable(1, "A_cpu", False), b.val("t1", 10.0),
                                             b.enable(1, "A_cpu", False), b.enable(1, "A_cpu", True)])
        yield str(acc), b.scn(t + 300)


# C06 -------------------------------------------------------------------------
@for_("C06", "C24")
def terms(quick):
    """every combination of the terms of a controller, on one stimulus"""
    combos_ = list(itertools.product((0.0, 0.5), (0.0, -0.5), (0.0, 0.25), (0, 1), (0, 1)))
    for part in range(4):
        if quick and part % 2:
            continue
        b = B().logs(core=True, zone=False)
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1", 2000.0)
        pids = []
        for i, (kp, ki, kd, ff, sl) in enumerate(combos_):
            if i % 4 != part:
                continue
            k = dict(kp=-kp, ki=ki, omin=2.0, omax=40.0, imin=-6.0, imax=9.0, ts=1.0)
            if kd:
                k["kd"] = kd
            if ff:
                k["ffo"], k["ffg"] = 10.0, 0.5
            if sl:
                k["spos"], k["sneg"] = 3.0, -2.0
            pids.append(b.pid("p%02d" % i, "temp", ["t1"], 25.0, **k))
        pids.append(b.fanpid("f", ["f1"], kp=0.0625, ki=0.0625, imin=0.0, imax=20.0, omin=3.0, spos=8.0, sneg=-8.0))
        b.zone(1, pids, min=0.0, fan=100, therm=100)
        vs = [30.0, 20.0, 50.0, 50.0, 25.0, 25.5, 5.0, 5.0, 90.0, 25.0, 24.0, "nan", 30.0, 80.0, 20.0]
        t = b.seq(211, 300, [b.val("t1", v) for v in vs])
        yield str(part), b.scn(t + 300)


@for_("C06")
def windup(quick):
    """saturation at each limit, then recovery, with each pair of slew rates"""
    for spos, sneg in ((0.0, 0.0), (5.0, 0.0), (0.0, -5.0), (5.0, -2.0)):
        b = B().logs(core=True, zone=False)
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1", 2000.0)
        b.zone(1, [b.pid("p", "temp", ["t1"], 30.0, kp=-1.0, ki=-0.25, imin=-20.0, imax=20.0, omin=10.0, omax=60.0, spos=spos, sneg=sneg),
                   b.pid("q", "temp", ["t1"], 30.0, ki=-0.5, imin=-50.0, imax=-1.0, omin=-20.0, omax=30.0, spos=spos, sneg=sneg, ts=0.5),
                   b.fanpid("f", ["f1"])], min=0.0, fan=100, therm=100)
        ops = []
        for v in (80.0, 30.0, 0.0, 30.0, 31.0, 29.0):
            ops += [b.val("t1", v)]
        t = b.seq(211, 1000, ops)
        yield "%g,%g" % (spos, sneg), b.scn(t + 300)


# C07 -------------------------------------------------------------------------
def zigzag(lo, hi, step, turns):
    """a slow walk that turns at each of the given points"""
    v, out = lo, [lo]
    for target in turns:
        while v != target:
            v += step if target > v else -step
            out.append(v)
    return out


@for_("C07")
def bands(quick):
    for hp, hn in ((2.0, 3.0), (3.0, 0.0), (0.0, 3.0), (None, 2.0), (2.0, None), (1.5, 1.5)):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1", 2000.0)
        st = b.step("s", ["t1"], [(20, 20.0), (30, 30.0), (31, 31.0), (40, 40.0)], hpos=hp or 0.0, hneg=hn or 0.0)
        pd = b.pid("p", "temp", ["t1"], 25.0, kp=-2.0, omax=200.0, hpos=hp or 0.0, hneg=hn or 0.0)
        if hp is None:
            del st["pid"]["positiveHysteresis"], pd["pid"]["positiveHysteresis"]
        if hn is None:
            del st["pid"]["negativeHysteresis"], pd["pid"]["negativeHysteresis"]
        b.zone(1, [st, pd, b.fanpid("f", ["f1"])], min=0.0, fan=100, therm=100)
        t = b.seq(119, 100, [b.val("t1", v) for v in zigzag(30.0, 0, 0.5, (34.0, 29.5, 33.0, 26.0, 31.0, 28.0, 36.0, 30.0))] +
                  [b.val("t1", "nan"), b.val("t1", 29.0), b.val("t1", 35.0), b.val("t1", 30.0)])
        yield "%s,%s" % (hp, hn), b.scn(t + 200)


@for_("C07")
def setpointband(quick):
    """the band around the set point where output is held back"""
    for hp, hn in ((2.0, 3.0), (0.0, 3.0), (2.0, 0.0)):
        for typ in ("temp", "margin"):
            if quick and typ == "margin" and hp == 0.0:
                continue
            b = B()
            b.temp("t1", 30.0, type=typ, timeout=0)
            b.fan("f1", 2000.0)
            sg = -1.0 if typ == "temp" else 1.0
            b.zone(1, [b.pid("p", typ, ["t1"], 30.0, kp=2.0 * sg, ki=0.5 * sg, omin=1.0, omax=90.0, hpos=hp, hneg=hn, chk=True),
                       b.pid("q", typ, ["t1"], 30.0, kp=2.0 * sg, ki=0.5 * sg, omin=1.0, omax=90.0, hpos=hp, hneg=hn),
                       b.fanpid("f", ["f1"])], min=0.0, fan=100, therm=100)
            t = b.seq(119, 100, [b.val("t1", v) for v in zigzag(30.0, 0, 0.5, (33.0, 26.0, 34.0, 29.0, 33.0, 27.5, 31.0))])
            yield "%s-%g,%g" % (typ, hp, hn), b.scn(t + 200)


# C08 -------------------------------------------------------------------------
@for_("C08")
def tables(quick):
    """tables of every length, at each point and just beside it"""
    for n in (1, 2, 3, 5, 19, 20) if quick else range(1, 21):
        for out in ("up", "down", "mix"):
            if quick and (n + len(out)) % 2:
                continue
            r = random.Random(n)
            xs = [20 + 3 * i for i in range(n)]
            ys = {"up": [10 + 4 * i for i in range(n)], "down": [95 - 4 * i for i in range(n)],
                  "mix": [r.randint(5, 100) for _ in range(n)]}[out]
            b = B()
            b.temp("t1", 10.0, timeout=0)
            b.temp("t2", 12.0, timeout=0)
            b.fan("f1", 2000.0)
            b.zone(1, [b.step("s", ["t1", "t2"], [(x, float(y)) for x, y in zip(xs, ys)]), b.fanpid("f", ["f1"])], min=1.0, fan=100, therm=100)
            vs = [10.0]
            for x in xs if n <= 5 else xs[:2] + xs[9:11] + xs[-2:]:
                vs += [x - 1 / 1024, float(x), x + 1 / 1024]
            t = b.seq(119, 100, [b.val("t1", v) for v in vs + [300.0, -20.0]] + [b.val("t2", float(xs[-1])), b.val("t1", 300.0), b.val("t2", "nan")])
            yield "%d-%s" % (n, out), b.scn(t + 200)


@for_("C08", "C14")
def holes(quick):
    """tables in which a reading or an output is missing, as first, last or in between"""
    pts = [(20.0, 15.0), (30.0, 35.0), (40.0, 55.0), (50.0, 75.0)]
    for kind in ("reading", "output"):
        for gone in ("0", "1", "2", "3", "12"):
            b = B()
            b.temp("t1", 45.0, timeout=0)
            b.fan("f1", 2000.0)
            b.zone(1, [b.step("s", ["t1"], pts), b.fanpid("f", ["f1"])], min=1.0, fan=100, therm=100)
            cfg = b.config()
            for g in gone:
                del cfg["zones"][0]["pids"][0]["pid"][kind][g]
            t = b.seq(119, 100, [b.val("t1", v) for v in (10.0, 25.0, 35.0, 45.0, 55.0, 35.0, 10.0)])
            s = confscn(b, cfg)
            s["end"] = t + 200
            yield "%s-%s" % (kind, gone), s


# C09 -------------------------------------------------------------------------
@for_("C09")
def inputs(quick):
    """every subset of inputs without a reading, for each class"""
    for cls in ("temp", "margin", "power", "powersum"):
        for ttm in ([None] if cls != "margin" else [None, [80.0], [80.0, 70.0], [80.0, 70.0, 75.0]]):
            for acc, gone in ((False, False), (False, True), (True, False), (True, True)):
                if quick and acc and cls in ("power", "temp"):
                    continue
                b = B()
                ins = ["x1", "x2", "x3"]
                for n, v in zip(ins, (40.0, 44.0, 38.0)):
                    b.temp(n, v, type=cls if cls != "margin" or not ttm else "temp", timeout=0, avail=True, unavailableAsFailed=acc)
                b.fan("f1")
                b.zone(1, [b.pid("p", cls, ins, 40.0, kp=1.0, ffo=-20.0, ffg=1.0, omax=900.0, ttm=ttm, miss=ins if acc else None),
                           b.fanpid("f", ["f1"])], min=1.0, fan=100, therm=100)
                if gone:    # the reading is taken back
                    s = [lambda v, n=n, x=x: b.avail(n, False) if v else b.multi(b.avail(n, True), b.val(n, x)) for n, x in zip(ins, (40.0, 44.0, 38.0))]
                else:       # a reading that is none is kept out
                    s = [lambda v, n=n, x=x: b.val(n, "nan" if v else x) for n, x in zip(ins, (40.0, 44.0, 38.0))]
                t = b.seq(119, 100, toggles(3, s) + [b.val("x1", 50.0), b.val("x2", 20.0), b.val("x3", 20.0), b.val("x1", 20.0), b.val("x2", -3.0),
                                                    b.val("x3", 100.5)])
                yield "%s-%s-%s-%s" % (cls, len(ttm) if ttm else 0, acc, gone), b.scn(t + 200)


# C10 -------------------------------------------------------------------------
@for_("C10")
def tachs(quick):
    """every combination of stopped, slow and equal fans"""
    for order in range(2):
        b = B()
        fs = ["f1", "f2", "f3"]
        b.temp("t1", 30.0, timeout=0)
        for n in fs:
            b.fan(n, 1000.0)
        b.fan("f4", 1500.0, read="sys")
        b.zone(1, [b.step("a", ["t1"], [(0, 40.0)]), b.fanpid("f", fs if order else fs[::-1], ffg=0.5, kp=0.0625, omin=5.0),
                   b.fanpid("g", ["f4"], ffg=0.5, kp=0.0625, omin=5.0)], min=1.0, fan=100, therm=200)
        vals = [[0.0, 1000.0, 900.0], [0.0, 1000.0, 1100.0], [0.0, 900.0, "nan"]]
        t = b.seq(119, 100, product(b, fs, vals) + [b.file("@/sys/hw/f4_in", x) for x in ("0\n", "1200\n", "-1\n", "junk\n", "7\n")])
        yield str(order), b.scn(t + 200)


# C11 -------------------------------------------------------------------------
@for_("C11")
def returns(quick):
    """back from manual with every number of fan controllers, demand unchanged,
    changed meanwhile, and in failsafe"""
    for n in (1, 2, 3, 4):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        pids = [b.step("a", ["t1"], [(0, 20.0), (40, 50.0)])]
        for i in range(n):
            b.fan("f%d" % i, write="sys" if i % 2 else "dbus")
            pids.append(b.fanpid("g%d" % i, ["f%d" % i]))
        b.zone(1, pids, min=1.0, fan=100, therm=100)
        ops = [b.manual(1, True), None, b.manual(1, False), None, b.manual(1, True), b.val("t1", 45.0), b.manual(1, False), None,
               b.val("t1", "nan"), b.manual(1, True), None, b.manual(1, False), None, b.val("t1", 30.0), b.manual(1, False),
               b.manual(1, True), b.manual(1, True), b.manual(1, False), b.ipmi(1, 1, 1), None, b.ipmi(1, 1, 0), None]
        t = b.seq(219, 200, ops)
        yield str(n), b.scn(t + 300)


# C12 -------------------------------------------------------------------------
@for_("C12")
def cadences(quick):
    for fan, therm in ((1, 5), (7, 7), (7, 20), (100, 33), (100, 99), (100, 101), (150, 1000), (333, 1000), (100, 100), (250, 600)):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1")
        b.zone(1, [b.step("a", ["t1"], ladder()), b.fanpid("f", ["f1"])], min=1.0, fan=fan, therm=therm)
        n = 40 if fan < 50 else 14
        end = n * fan + 3
        if fan >= 100:
            b.late = [[3 * fan, 37], [6 * fan, fan + 41]]
        yield "%d-%d" % (fan, therm), b.scn(end)
    for by in (9, 12, 31):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1")
        b.zone(1, [b.step("a", ["t1"], ladder()), b.fanpid("f", ["f1"])], min=1.0, fan=100, therm=300)
        b.late = [[500, 100 * by + 43]]
        for i in range(12):
            b.at(100 * by + 731 + 100 * i, b.val("t1", 22.0 + i % 3 * 5))
        yield "late-%d" % by, b.scn(100 * by + 2000)


@for_("C14")
def fastest(quick):
    """intervals of one millisecond, and those that fall back to the default"""
    for fan, therm in ((1, 3), (1.5, 2), (0, 500), (-5, 0), (0.5, 1000), (200, -1), (1, 0.5)):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1")
        b.zone(1, [b.step("a", ["t1"], ladder()), b.fanpid("f", ["f1"])], min=1.0, fan=fan, therm=therm)
        yield "%g-%g" % (fan, therm), b.scn(40 if 1 <= fan < 2 else 2300)


@for_("C12", "C11")
def pauses(quick):
    """manual mode of every length between passes: the count of fan intervals
    since the last pass stands still, the cadence does not move"""
    for fan, therm in ((100, 300), (100, 1000), (150, 400), (250, 600), (100, 50)):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1")
        b.fan("f2", write="dbus")
        b.zone(1, [b.step("a", ["t1"], ladder()), b.fanpid("f", ["f1"])], min=1.0, fan=fan, therm=therm)
        b.zone(2, [b.step("b", ["t1"], ladder()), b.fanpid("g", ["f2"])], min=1.0, fan=fan, therm=therm)
        t = 0
        for k in (1, 2, 3, 5, 8, 13):
            on = t + 2 * fan + 20
            b.at(on, b.manual(1, True))
            b.at(on + k * fan, b.manual(1, False))
            t = on + (k + 3) * fan
        end = t + therm + 2 * fan
        for i, x in enumerate(range(60, end, 130)):
            b.at(x - x % 50 + 35, b.val("t1", 20.0 + (i * 7) % 60))
        yield "%d-%d" % (fan, therm), b.scn(end)


@for_("C02", "C04")
def slow(quick):
    """passes further apart than the readings they find: a sensor recovers with
    any reading younger than its timeout, however old within that"""
    for kind in ("dbus", "ext", "fan"):
        for fan, therm, T in ((1500, 1500, 3), (1000, 3000, 5)):
            b = B()
            b.temp("t9", 30.0, timeout=0)
            if kind == "dbus":
                b.temp("x", 30.0, timeout=T)
                up = lambda v: b.val("x", 30.0 + v)
            elif kind == "ext":
                b.ext("x", timeout=T)
                up = lambda v: b.write("x", 30.0 + v)
            else:
                b.fan("x", timeout=T)
                up = lambda v: b.val("x", 2000.0 + v)
            b.fan("f1")
            out = [(0, 20.0)]
            b.zone(1, [b.step("c", ["t9" if kind == "fan" else "x"], out), b.fanpid("f", ["x" if kind == "fan" else "f1"])],
                   fan=fan, therm=therm, fsp=80.0)
            p = fan if kind == "fan" else therm
            n = 0
            t = 4 * p
            for age in (100, 900, 1100, p - 30, 1000 * T - 1):
                while t < 1000 * T + n:
                    t += p
                if age < p:
                    b.at(t - age, up(1))
                    n = t
                t += p * ((1000 * T) // p + 2)
                n = t - 2 * p
            yield "%s-%d-%d" % (kind, therm, T), b.scn(t + p + 100)


# C13 -------------------------------------------------------------------------
@for_("C13")
def ranges(quick):
    """every output range, with demands in small steps both ways"""
    shapes = [(0, 255), (0, 100), (10, 100), (50, 200), (0, None), (None, 100), (None, None), (255, 255), (20, 20), (200, 50), (255, 10)]
    for write in ("sys", "dbus"):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        pids = [b.step("a", ["t1"], [(i, float(i)) for i in (0, 1, 2, 3, 4, 5, 10, 25, 33, 50, 51, 66, 67, 75, 98, 99, 100, 101, 120, 200)])]
        # a file also takes negative numbers
        for i, (lo, hi) in enumerate(shapes + ([(-50, 100), (-255, None)] if write == "sys" else [])):
            n = "f%d" % i
            b.fan(n, write=write, hi=None)
            if lo is not None:
                b.sensors[-1]["min"] = lo
            if hi is not None:
                b.sensors[-1]["max"] = hi
            # a duty above 100 percent goes beyond the range; a falling range must not end below zero on D-Bus
            pids.append(b.fanpid("g%d" % i, [n], omax=100.0 if write == "dbus" and (hi or 0) < (lo or 0) else 250.0))
        b.zone(1, pids, min=0.0, fsp=90.5, fan=100, therm=100)
        vs = [0.0, 1.0, 2.0, 1.0, 1.0, 3.0, 5.0, 4.0, 25.0, 33.0, 50.0, 51.0, 50.0, 66.0, 67.0, 75.0, 98.0, 99.0, 100.0, 99.0, 99.0, 98.0, 100.0, "nan", 100.0, 101.0, 120.0, 200.0, 100.0, 0.0]
        t = b.seq(119, 200, [b.val("t1", v) for v in vs])
        yield write, b.scn(t + 200)


@for_("C13")
def failures(quick):
    """each write in turn fails, then succeeds again"""
    for skip in range(0, 6, 2 if quick else 1):
        for count in (1, 3):
            b = B()
            b.temp("t1", 30.0, timeout=0)
            b.fan("f1", write="dbus")
            b.fan("f2", write="dbus")
            b.zone(1, [b.step("a", ["t1"], ladder()), b.fanpid("f", ["f1", "f2"])], min=1.0, fan=100, therm=100)
            b.faults = [{"member": "Set", "path": CP + "f1", "skip": skip, "count": count}]
            t = b.seq(119, 300, [b.val("t1", v) for v in (20.0, 20.0, 30.0, 10.0, 10.0, 10.0, 30.0)] + [b.manual(1, True), b.manual(1, False)])
            yield "%d-%d" % (skip, count), b.scn(t + 300)


# C14 -------------------------------------------------------------------------
def fullconf(variant="default"):
    """a configuration in which every field is given"""
    b = B(variant=variant)
    b.temp("t1", 30.0, lim=(0.0, 128.0), avail=True, timeout=3, ignoreDbusMinMax=True, unavailableAsFailed=False, ignoreFailIfHostOff=True,
           writePath="")
    b.temp("m1", 20.0, type="margin", avail=False, timeout=0, unavailableAsFailed=False)
    b.ext("e1", timeout=1)
    b.systemp("s1", 33, timeout=1)
    b.fan("f1", 2000.0, write="dbus", lo=10, hi=200, timeout=0, ignoreDbusMinMax=False, ignoreFailIfHostOff=True)
    b.fan("f2", 1000, read="sys", lo=0, hi=100)
    b.hostobj("Off")
    p = b.pid("p", "temp", ["t1", "e1"], 25.0, fsp=80.0, miss=["e1"], kp=-2.0, ki=-0.25, kd=0.5, ffo=2.0, ffg=0.5, imin=-20.0, imax=30.0,
              omin=5.0, omax=90.0, sneg=-4.0, spos=6.0, hpos=2.0, hneg=1.0, chk=False)
    q = b.pid("q", "margin", ["m1", "s1"], 30.0, fsp=60.5, ttm=[80.0, 70.0], miss=["m1"], kp=1.0, hpos=0.0, hneg=2.0, chk=True)
    st = b.step("s", ["t1"], [(20, 20.0), (30, 30.0), (40, 60.0)], ceil=True, hpos=1.5, hneg=2.5, fsp=50.0)
    b.zone(3, [p, q, st, b.fanpid("f", ["f1", "f2"], fsp=65.0, omin=3.0)], min=12.0, fsp=72.5, fan=50, therm=150, acc=False)
    return b


def sites(j, path=()):
    if isinstance(j, dict):
        for k in j:
            yield path + (k,)
            yield from sites(j[k], path + (k,))
    elif isinstance(j, list):
        for i, x in enumerate(j):
            if isinstance(x, (dict, list)):
                yield from sites(x, path + (i,))


def at(j, path):
    for k in path:
        j = j[k]
    return j


def wrong(v):
    """values of other types"""
    if isinstance(v, bool):
        return ["true", 1.5, None]
    if isinstance(v, (int, float)):
        return ["7", None, [1]]
    if isinstance(v, str):
        return [5, None, ["x"]]
    if isinstance(v, list):
        return ["x", [None] if v and not isinstance(v[0], (dict, list)) else 3, {}]
    return [4, None, []]


def confscn(b, cfg, ops=()):
    b.files["@/config.json"] = cfg if isinstance(cfg, str) else json.dumps(cfg)
    if ops:
        b.seq(219, 200, list(ops))
    return b.scn(700 if not ops else None)


def fullops(b):
    return [b.write("e1", 26.0), b.val("t1", 33.0), b.avail("t1", False), b.avail("t1", True), b.val("m1", 15.0), b.avail("m1", True),
            b.val("t1", 31.0), b.val("t1", 28.0), b.val("f1", 0.0), b.host("Running"), b.val("t1", "nan"), b.val("t1", 30.0)]


@for_("C14")
def fields(quick):
    """each field left out, and with a value of another type"""
    full = fullconf().config()
    for n, path in enumerate(sites(full)):
        v = at(full, path)
        cases = [("out", None)] + [("wrong%d" % i, x) for i, x in enumerate(wrong(v))]
        for i, (what, x) in enumerate(cases):
            if quick and i and (n + i) % 3:
                continue
            b = fullconf()
            cfg = b.config()
            d = at(cfg, path[:-1])
            if what == "out":
                if isinstance(d, list):
                    continue
                del d[path[-1]]
            else:
                d[path[-1]] = x
            yield "%s-%s" % (".".join(str(k) for k in path), what), confscn(b, cfg, fullops(b) if what == "out" and not quick else ())


@for_("C14")
def optional(quick):
    """optional fields alone: what stands in for an absent one"""
    for drop in ((), ("positiveHysteresis",), ("negativeHysteresis",), ("positiveHysteresis", "negativeHysteresis"), ("derivativeCoeff",),
                 ("checkHysteresisWithSetpoint",), ("FailSafePercent",), ("missingIsAcceptable",), ("tempToMargin",), ("timeout",),
                 ("unavailableAsFailed",), ("ignoreFailIfHostOff",), ("ignoreDbusMinMax",), ("min",), ("max",), ("min", "max"),
                 ("cycleIntervalTimeMS",), ("updateThermalsTimeMS",), ("cycleIntervalTimeMS", "updateThermalsTimeMS"),
                 ("accumulateSetPoint",)):
        b = fullconf()
        cfg = b.config()

        def strip(j):
            if isinstance(j, dict):
                for k in drop:
                    j.pop(k, None)
                for x in j.values():
                    strip(x)
            elif isinstance(j, list):
                for x in j:
                    strip(x)
        strip(cfg)
        yield "-".join(drop) or "none", confscn(b, cfg, fullops(b))


@for_("C14")
def oddities(quick):
    """repeated names and numbers, unknown types, empty lists, texts that are no JSON"""
    def case(f):
        b = fullconf()
        cfg = b.config()
        r = f(b, cfg)
        return confscn(b, cfg if r is None else r, fullops(b))

    def twice(b, c):
        c["sensors"].insert(0, dict(c["sensors"][0], readPath=TP + "none", timeout=9))

    def samezone(b, c):
        c["zones"].insert(0, dict(c["zones"][0], minThermalOutput=33.0, pids=[c["zones"][0]["pids"][0]]))

    def samepid(b, c):
        c["zones"][0]["pids"].insert(0, dict(c["zones"][0]["pids"][0], setpoint=11.0))

    def fraction(b, c):
        c["zones"][0]["id"] = 3.75
        c["zones"][0]["cycleIntervalTimeMS"] = 100.875
        c["sensors"][4]["max"] = 199.875

    def extra(b, c):
        c["zones"][0]["unknown"] = {"x": 1}
        c["more"] = 3

    def nopids(b, c):
        c["zones"].append({"id": 9, "minThermalOutput": 1.0, "failsafePercent": 2.0, "pids": []})

    def nosensors(b, c):
        c["sensors"] = []

    def nozones(b, c):
        c["zones"] = []

    def negative(b, c):
        c["zones"][0]["id"] = -4

    def gap(b, c):
        del c["zones"][0]["pids"][2]["pid"]["reading"]["1"]

    def halfpoint(b, c):
        del c["zones"][0]["pids"][2]["pid"]["output"]["2"]

    def nofirst(b, c):
        del c["zones"][0]["pids"][2]["pid"]["reading"]["0"]

    def nooutput(b, c):
        del c["zones"][0]["pids"][2]["pid"]["output"]["0"]

    def lastonly(b, c):
        p = c["zones"][0]["pids"][2]["pid"]
        p["reading"] = {"0": 1.0, "1": 5.0, "19": 40.0, "20": 41.0, "x": 7.0}
        p["output"] = {"0": 10.0, "1": 20.0, "19": 30.0, "20": 50.0, "01": 60.0}

    def manyttm(b, c):
        c["zones"][0]["pids"][1]["tempToMargin"] = [80.0, 70.0, 60.0, 50.0]

    def text(t):
        return lambda b, c: t
    for name, f in (("twice", twice), ("samezone", samezone), ("samepid", samepid), ("fraction", fraction), ("extra", extra), ("nopids", nopids),
                    ("nosensors", nosensors), ("nozones", nozones), ("negative", negative), ("gap", gap), ("halfpoint", halfpoint),
                    ("nofirst", nofirst), ("nooutput", nooutput), ("lastonly", lastonly),
                    ("manyttm", manyttm), ("empty", text("")), ("number", text("5")), ("list", text("[]")), ("object", text("{}")),
                    ("cut", text('{"sensors": [')), ("null", text("null")), ("trailing", text('{"sensors": [], }'))):
        yield name, case(f)


# C15 -------------------------------------------------------------------------
def dfull(**kw):
    b = D(**kw)
    b.dtemp("t1", 30.0, crit=(False, False))
    b.dtemp("m1", 20.0, type="margin", avail=True)
    b.dtemp("w1", 50.0, dir="/xyz/openbmc_project/sensors/power/")
    b.world["svc.temp"][TP + "t1"][CRIT].update({"CriticalHigh": ["d", 64.0], "CriticalLow": ["d", 4.0]})
    b.world["svc.temp"][TP + "t1"][WARN] = {"WarningHigh": ["d", 48.0], "WarningLow": ["d", 8.0], "WarningAlarmHigh": ["b", False]}
    b.dfan("f1")
    b.dfan("f2", lim=(0.0, 8192.0))
    b.dzone("Zone 1", ZoneIndex=num(2), CycleIntervalTimeMS=num(50), UpdateThermalsTimeMS=num(150), AccumulateSetPoint=["b", False])
    b.dpid("p", "temp", ["t1"], ["Zone 1"], SetPoint=num(25), PCoefficient=num(-2), ICoefficient=num(-0.25), DCoefficient=num(0.5),
           FFOffCoefficient=num(2), FFGainCoefficient=num(0.5), ILimitMin=num(-20), ILimitMax=num(30), OutLimitMin=num(5), OutLimitMax=num(90),
           SlewNeg=num(-4), SlewPos=num(6), PositiveHysteresis=num(2), NegativeHysteresis=num(1), CheckHysteresisWithSetpoint=["b", False],
           FailSafePercent=num(80), MissingIsAcceptable=strs("t1"), InputUnavailableAsFailed=["b", False], IgnoreFailIfHostOff=["b", False])
    b.dpid("q", "margin", ["m1"], ["Zone 1"], SetPoint=num(30), PCoefficient=num(1), PositiveHysteresis=num(0), NegativeHysteresis=num(2),
           CheckHysteresisWithSetpoint=["b", True], FailSafePercent=num(60.5), TempToMargin=["ad", [80.0]])
    b.dpid("w", "power", ["w1"], ["Zone 1"], SetPoint=num(10), PCoefficient=num(0.5))
    b.dstep("s", ["t1"], ["Zone 1"], [(20, 20.0), (30, 30.0), (40, 60.0)], ceil=True, PositiveHysteresis=num(1.5), NegativeHysteresis=num(2.5),
            InputUnavailableAsFailed=["b", False], IgnoreFailIfHostOff=["b", False])
    b.dfanpid("f", ["f1", "f2"], ["Pwm_f1", "Pwm_f2"], ["Zone 1"], FailSafePercent=num(65), OutLimitMin=num(3))
    return b


def dops(b):
    return [b.val("t1", 33.0), b.alarm("t1", hi=True), b.alarm("t1", hi=False), b.val("m1", 15.0), b.avail("m1", False), b.avail("m1", True),
            b.val("t1", 31.0), b.val("t1", 28.0), b.val("f1", 0.0), b.val("t1", "nan"), b.val("t1", 30.0)]


def dscn(b, ops=(), end=None):
    if ops:
        b.seq(219, 200, list(ops))
    return b.scn(end or (700 if not ops else None))


def dwrong(v):
    t = v[0]
    return {"d": [["s", "7"], ["b", True], ["x", int(v[1]) if isinstance(v[1], float) else 1]], "s": [["d", 3.0], ["as", ["x"]]], "b": [["s", "true"], ["d", 1.0]],
            "as": [["s", "x"], ["ad", [1.0]]], "ad": [["as", ["x"]], ["d", 2.0]]}[t]


SENSOR_FLAGS = ("InputUnavailableAsFailed", "IgnoreFailIfHostOff")


@for_("C15")
def attributes(quick):
    """each attribute left out, and with a value of another type"""
    full = dfull().world[EM]
    n = 0
    for p in sorted(full):
        for i, a in full[p].items():
            for k in a:
                n += 1
                for j, (what, x) in enumerate([("out", None)] + [("wrong%d" % m, y) for m, y in enumerate(dwrong(a[k]))]):
                    if quick and j and (n + j) % 3:
                        continue
                    if k == "ZoneIndex" and what == "wrong2":
                        continue
                    b = dfull()
                    o = b.world[EM][p][i]
                    if what == "out":
                        # t1 is shared, and who describes a shared sensor last is unspecified
                        for q in (b.world[EM].values() if k in SENSOR_FLAGS else ()):
                            for w in q.values():
                                w.pop(k, None)
                        o.pop(k, None)
                    else:
                        o[k] = x
                    yield "%s.%s-%s" % (p.rsplit("/", 1)[1], k, what), dscn(b, dops(b) if not quick else ())


@for_("C15")
def optionals(quick):
    for drop in ((), ("PositiveHysteresis",), ("NegativeHysteresis",), ("PositiveHysteresis", "NegativeHysteresis"), ("DCoefficient",),
                 ("CheckHysteresisWithSetpoint",), ("FailSafePercent",), ("MissingIsAcceptable",), ("TempToMargin",),
                 ("InputUnavailableAsFailed",), ("IgnoreFailIfHostOff",), ("CycleIntervalTimeMS",), ("UpdateThermalsTimeMS",), ("ZoneIndex",),
                 ("AccumulateSetPoint",)):
        b = dfull()
        for p, o in b.world[EM].items():
            for i in o:
                for k in drop:
                    o[i].pop(k, None)
        yield "-".join(drop) or "none", dscn(b, dops(b))


@for_("C15")
def pairing(quick):
    """numbers of inputs and outputs of a fan controller"""
    for ni in (1, 2, 3):
        for no in (0, 1, 2, 3):
            b = D()
            b.dtemp("t1", 30.0)
            fs = ["f%d" % i for i in range(1, 4)]
            for n in fs:
                b.dfan(n)
            b.dzone("Zone 1", ZoneIndex=num(1))
            b.dstep("s", ["t1"], ["Zone 1"], ladder())
            b.dfanpid("f", fs[:ni], ["Pwm_" + n for n in fs[:no]], ["Zone 1"])
            b.names += [x + "Pwm_" + y for x in fs for y in fs]
            yield "%d-%d" % (ni, no), dscn(b, [b.val("t1", 20.0), b.val("t1", "nan"), b.val("f1", 0.0)])


@for_("C15")
def offsets(quick):
    """set points taken from thresholds"""
    for off in ("CriticalHigh", "CriticalLow", "WarningHigh", "WarningLow", "Other"):
        for have in (True, False):
            b = dfull()
            a = [o[IPID] for o in b.world[EM].values() if IPID in o and o[IPID]["Name"][1] == "p"][0]
            a["SetPointOffset"] = ["s", off]
            if not have:
                del b.world["svc.temp"][TP + "t1"][WARN if "Warning" in off else CRIT]
            yield "%s-%s" % (off, have), dscn(b, dops(b)[:1] + dops(b)[3:4] if not have else dops(b))


@for_("C15")
def profiles(quick):
    """thermal modes that select controllers"""
    for cur in ("Quiet", "Loud", "Off"):
        for sup in (("Quiet", "Loud"), ()):
            for pr in (None, (), ("Quiet",), ("Loud", "Quiet")):
                if quick and sup == () and pr == ():
                    continue
                b = dfull()
                b.world["svc.mode"] = {THM: {ITHM: {"Current": ["s", cur], "Supported": strs(*sup)}}}
                for p, o in b.world[EM].items():
                    if ISTEP in o and pr is not None:
                        o[ISTEP]["Profiles"] = strs(*pr)
                    if IPID in o and o[IPID]["Name"][1] == "q":
                        o[IPID]["Profiles"] = strs("Loud")
                yield "%s-%d-%s" % (cur, len(sup), pr), dscn(b, [b.val("t1", 33.0)])


@for_("C15")
def offprofile(quick):
    """every subset of five controllers belongs to the profile not in force"""
    for off in range(32):
        if quick and off % 3 == 1:
            continue
        b = D()
        b.dfan("f1")
        b.dzone("Zone 1", ZoneIndex=num(1), UpdateThermalsTimeMS=num(100))
        b.world["svc.mode"] = {THM: {ITHM: {"Current": ["s", "Quiet"], "Supported": strs("Quiet", "Loud")}}}
        for i in range(5):
            b.dtemp("t%d" % i, 30.0)
            b.dstep("%s%d" % ("qazxs"[(off + i) % 5], i), ["t%d" % i], ["Zone 1"], [(0, 20.0 + 7 * i)], Profiles=strs("Loud") if off >> i & 1 else None)
        b.dfanpid("f", ["f1"], ["Pwm_f1"], ["Zone 1"])
        yield str(off), dscn(b, [b.val("t1", 33.0)])


@for_("C15", "C12")
def dcycles(quick):
    """intervals of one millisecond, and those that fall back to the default, from D-Bus"""
    for fan, therm in ((1, 3), (2, 1), (1.5, 2), (0, 500), (-5, 0), (0.5, 1000), (200, -1), (1, 0.5), (None, 300), (250, None)):
        b = D()
        b.dtemp("t1", 30.0)
        b.dfan("f1")
        b.dzone("Zone 1", ZoneIndex=num(1), **{k: num(v) for k, v in (("CycleIntervalTimeMS", fan), ("UpdateThermalsTimeMS", therm)) if v is not None})
        b.dstep("s", ["t1"], ["Zone 1"], ladder())
        b.dfanpid("f", ["f1"], ["Pwm_f1"], ["Zone 1"])
        yield "%s-%s" % (fan, therm), b.scn(40 if fan and 1 <= fan <= 2 else 2300)


@for_("C15")
def indices(quick):
    """zone numbers asked for, taken, and counted"""
    for a, c, e in ((1, 2, 3), (1, 1, 1), (None, None, None), (None, 0, None), (5, None, 5), (0, None, 1), (None, 1, 0), (255, 256, None)):
        b = D()
        b.dtemp("t1", 30.0)
        for i, z in enumerate((a, c, e)):
            n = "Zone %d" % i
            b.dfan("f%d" % i)
            b.dzone(n, **({} if z is None else {"ZoneIndex": num(z)}))
            b.dstep("s%d" % i, ["t1"], [n], [(0, 20.0 + i)])
            b.dfanpid("fp%d" % i, ["f%d" % i], ["Pwm_f%d" % i], [n])
        b.dstep("all", ["t1"], ["Zone 0", "Zone 1", "Zone 2"], [(0, 30.0), (31, 70.0)])
        yield "%s-%s-%s" % (a, c, e), dscn(b, [b.val("t1", 33.0)])


@for_("C15")
def touched(quick):
    """changes of the configuration: the last one counts, one second later"""
    for gap in (100, 900, 1500, 3100):
        for what in ("set", "thermal", "mode", "other"):
            if quick and gap == 1500:
                continue
            b = dfull()
            b.world["svc.mode"] = {THM: {ITHM: {"Current": ["s", "Quiet"], "Supported": strs("Quiet", "Loud")}}}
            zp = [p for p, o in b.world[EM].items() if IZONE in o][0]
            pp = [p for p, o in b.world[EM].items() if ISTEP in o][0]
            b.world[EM][pp][ISTEP]["Profiles"] = strs("Quiet")
            ops = {"set": [{"op": "set", "svc": EM, "path": zp, "iface": IZONE, "props": {"FailSafePercent": num(v)}} for v in (44, 55)],
                   "thermal": [{"op": "set", "svc": EM, "path": pp, "iface": ISTEP, "props": {"Reading": ["ad", [10.0, 20.0, 30.0 + v]]}} for v in (0, 5)],
                   "mode": [{"op": "set", "svc": "svc.mode", "path": THM, "iface": ITHM, "props": {"Current": ["s", v]}} for v in ("Loud", "Quiet")],
                   "other": [{"op": "set", "svc": "svc.temp", "path": TP + "t1", "iface": V, "props": {"Value": num(v)}} for v in (44, 55)]}[what]
            b.at(501, ops[0])
            b.at(501 + gap // 50 * 50 + 2, ops[1])
            yield "%s-%d" % (what, gap), b.scn(501 + gap + 13000)


@for_("C15")
def unmet(quick):
    """controllers whose inputs are not on the bus, with and without the option for missing objects"""
    for variant in ("default", "missing"):
        for cls in ("temp", "margin", "power", "powersum", "stepwise", "other"):
            for acc in ((), ("gone",), ("gone", "t1"), ("gone", "no one")):
                for ins in (("gone",), ("t1", "gone"), ("gone", "t1"), ("no one", "t1", "gone")):
                    if quick and (variant == "default" and (len(acc) == 2 or cls in ("margin", "power")) or cls == "other" and acc or len(acc) == 2 and len(ins) == 2):
                        continue
                    if cls == "other" and "t1" in ins:
                        continue
                    b = D(variant=variant)
                    b.dtemp("t1", 30.0)
                    b.dtemp("t2", 30.0)
                    b.dfan("f1")
                    b.names += ["gone", "no_one"]
                    b.dzone("Zone 1", ZoneIndex=num(1), UpdateThermalsTimeMS=num(100))
                    k = dict(MissingIsAcceptable=strs(*acc), IgnoreFailIfHostOff=["b", False])
                    if cls == "stepwise":
                        b.dstep("c", ins, ["Zone 1"], [(10, 20.0), (30, 40.0)], TempToMargin=["ad", [80.0]], **k)
                    else:
                        b.dpid("c", cls, ins, ["Zone 1"], SetPoint=num(20), PCoefficient=num(1), FailSafePercent=num(55), **k)
                    b.dstep("base", ["t2"], ["Zone 1"], [(10, 22.0)])
                    b.dfanpid("f", ["f1"], ["Pwm_f1"], ["Zone 1"])
                    rp = {"power": "power", "powersum": "power"}.get(cls, "temperature")
                    ops = [b.val("t1", 25.0), {"op": "addobj", "svc": "svc.temp", "path": "/xyz/openbmc_project/sensors/%s/gone" % rp, "ifaces": {V: {"Value": ["d", 30.0]}}}]
                    yield "%s-%s-%s-%s" % (variant, cls, "+".join(acc), "+".join(ins)), dscn(b, ops, end=3700)


@for_("C15")
def orders(quick):
    """the missing object comes first, last or between present ones of a stepwise controller"""
    for variant in ("default", "missing"):
        for ins in (("t1", "gone", "t2"), ("gone", "t1", "t2"), ("t1", "t2", "gone"), ("t1", "t2"), ("t.",), ("t1", "t.")):
            for acc in ((), ("gone", "t1"), ("t1", "gone", "t2"), ("t.",)):
                b = D(variant=variant)
                b.dtemp("t1", 30.0)
                b.dtemp("t2", 30.0)
                b.dfan("f1")
                b.names += ["gone"]
                b.dzone("Zone 1", ZoneIndex=num(1), UpdateThermalsTimeMS=num(100))
                b.dstep("c", ins, ["Zone 1"], [(10, 20.0), (30, 40.0)], MissingIsAcceptable=strs(*acc))
                b.dfanpid("f", ["f1"], ["Pwm_f1"], ["Zone 1"])
                yield "%s-%s-%s" % (variant, "+".join(ins), "+".join(acc)), dscn(b, [b.val("t1", "nan"), b.val("t2", "nan"), b.val("t1", 30.0), b.val("t2", 31.0)])


@for_("C15")
def badtables(quick):
    """tables of a stepwise controller that cannot be used"""
    for what, rd, out in (("one", 1, 1), ("twenty", 20, 20), ("twentyone", 21, 21), ("none", 0, 0), ("more-out", 2, 3), ("more-in", 3, 2), ("no-out", 2, 0),
                          ("no-in", 0, 2), ("in21", 21, 20), ("out21", 20, 21)):
        b = D()
        b.dtemp("t1", 30.0)
        b.dfan("f1")
        b.dzone("Zone 1", ZoneIndex=num(1), UpdateThermalsTimeMS=num(100))
        p = b.dstep("c", ["t1"], ["Zone 1"], [(10, 20.0)])
        b.world[EM][p][ISTEP]["Reading"] = ["ad", [10.0 + i for i in range(rd)]]
        b.world[EM][p][ISTEP]["Output"] = ["ad", [20.0 + i for i in range(out)]]
        b.dfanpid("f", ["f1"], ["Pwm_f1"], ["Zone 1"])
        fix = b.multi({"op": "set", "svc": EM, "path": p, "iface": ISTEP, "props": {"Reading": ["ad", [10.0, 20.0]], "Output": ["ad", [21.0, 23.0]]}})
        b.at(519, b.val("t1", 33.0))
        b.at(5203, fix)
        yield what, b.scn(7600 if rd == out and 0 < rd < 21 else 12500)


@for_("C15")
def failing(quick):
    """a call the reading of the configuration needs fails: it is read again ten seconds later"""
    for what in ("none", "GetSubTree0", "GetSubTree1", "GetSubTree2", "GetManagedObjects", "offset", "mode", "GetSubTree3"):
        for count in (1, 2):
            if quick and count == 2 and what not in ("GetManagedObjects", "GetSubTree0"):
                continue
            b = dfull()
            if what in ("mode", "GetSubTree2", "GetSubTree3"):
                b.world["svc.mode"] = {THM: {ITHM: {"Current": ["s", "Quiet"], "Supported": strs("Quiet", "Loud")}}}
            if what == "offset":
                for o in b.world[EM].values():
                    if IPID in o and o[IPID]["Name"][1] == "p":
                        o[IPID]["SetPointOffset"] = ["s", "CriticalHigh"]
            if what.startswith("GetSubTree"):
                b.faults = [{"member": "GetSubTree", "arg0": "/", "skip": int(what[-1]), "count": count}]
            elif what == "GetManagedObjects":
                b.faults = [{"member": what, "path": INV, "skip": 0, "count": count}]
            elif what == "offset":
                b.faults = [{"member": "Get", "path": TP + "t1", "arg0": CRIT, "skip": 0, "count": count}]
            elif what == "mode":
                b.faults = [{"member": "Get", "path": THM, "arg0": ITHM, "skip": 0, "count": count}]
            b.at(519, b.val("t1", 33.0))
            yield "%s-%d" % (what, count), b.scn(10500 + 10000 * (count - 1))


@for_("C15")
def bystanders(quick):
    """objects appear: those that only carry associations do not make the configuration be read again"""
    A, AD = "xyz.openbmc_project.Association", "xyz.openbmc_project.Association.Definitions"
    val = {V: {"Value": ["d", 20.0]}}
    assoc, assocd = {A: {"endpoints": strs("x")}}, {AD: {"Associations": strs("x")}}
    for what, ifs in (("none", {}), ("value", val), ("assoc", assoc), ("assocd", assocd), ("both", dict(assoc, **assocd)), ("mixed", dict(val, **assocd)),
                      ("mixed2", dict(val, **assoc)), ("other", {"xyz.openbmc_project.Inventory.Item": {"Present": ["b", True]}})):
        for where in ("temperature/new", "fan_tach/new", "x"):
            if quick and where != "temperature/new" and what not in ("assocd", "value"):
                continue
            b = dfull()
            path = "/xyz/openbmc_project/sensors/" + where if where != "x" else "/xyz/openbmc_project/inventory/new"
            b.at(501, {"op": "addobj", "svc": "svc.new", "path": path, "ifaces": ifs, "signal": True})
            b.at(4803, {"op": "rmobj", "svc": "svc.new", "path": path, "signal": True})
            yield "%s-%s" % (what, where.replace("/", "_")), b.scn(8600)


@for_("C15")
def unassigned(quick):
    """controllers without zones, zones without controllers, zones nobody described"""
    for what in ("no-zones", "empty-zone", "stranger", "no-pids", "two-of-three", "unnamed", "fanless"):
        b = D()
        b.dtemp("t1", 30.0)
        b.dfan("f1")
        b.dfan("f2")
        b.dzone("Zone 1", ZoneIndex=num(1), UpdateThermalsTimeMS=num(100), FailSafePercent=None if what == "unnamed" else num(70))
        z = {"no-zones": [], "stranger": ["Zone 1", "Elsewhere"]}.get(what, ["Zone 1"])
        if what != "no-pids":
            b.dstep("c", ["t1"], z, ladder())
            if what != "fanless":
                b.dfanpid("f", ["f1"], ["Pwm_f1"], z)
        if what in ("empty-zone", "two-of-three"):
            b.dzone("Zone 2", ZoneIndex=num(2))
        if what == "two-of-three":
            b.dzone("Zone 3")
            b.dstep("d", ["t1"], ["Zone 3", "Zone 1"], [(0, 50.0)])
            b.dfanpid("g", ["f2"], ["Pwm_f2"], ["Zone 3"])
        b.at(519, b.val("t1", 33.0))
        b.at(719, b.val("t1", "nan"))
        if what in ("no-pids", "no-zones"):
            b.at(3203, {"op": "set", "svc": EM, "path": [p for p, o in b.world[EM].items() if IZONE in o][0], "iface": IZONE, "props": {"FailSafePercent": num(66)}})
        yield what, b.scn(6700 if what in ("no-pids", "no-zones") else 2500)


# C16 -------------------------------------------------------------------------
def small(b, n=1, write="sys"):
    b.temp("t1", 30.0, timeout=0)
    for i in range(1, n + 1):
        b.fan("f%d" % i, write=write)
        b.zone(i, [b.step("a%d" % i, ["t1"], ladder(), fsp=80.0), b.fanpid("fp%d" % i, ["f%d" % i])], min=1.0, fsp=60.0, fan=100, therm=200)
    return b


@for_("C16")
def changes(quick):
    """changes of the D-Bus configuration and objects that come and go, as far as they make it be read again"""
    for n, s in touched(True):
        if n.endswith(("-100", "-900")) or not quick:
            yield n, s
    for n, s in bystanders(True):
        if n.endswith("-temperature_new") or not quick:
            yield n, s


@for_("C16")
def signals(quick):
    """reload and terminate at every distance from each other"""
    for variant in ("default", "offline"):
        for d in (0, 5, 40, 52, 95, 152, 949, 1003, 1053, 9903, 10003, 10952, 11003):
            for first in ("hup", "term", "huphup"):
                if first == "term" and d > 160:
                    continue
                if quick and (variant == "offline" and first != "hup" or first == "huphup" and d % 2):
                    continue
                b = small(B(variant=variant), 2)
                x, y = {"hup": (b.hup(), b.term()), "term": (b.term(), b.hup()), "huphup": (b.hup(), b.hup())}[first]
                b.at(403, x)
                b.at(403 + d + (1 if d == 0 else 0), y)
                yield "%s-%s-%d" % (variant, first, d), b.scn(403 + d + (12500 if first == "huphup" else 1400))


@for_("C16")
def coincide(quick):
    """a cycle and a reload or termination fall due in the same instant"""
    for variant in ("default", "offline"):
        for term in (False, True):
            for by in (3, 47, 103):
                b = small(B(variant=variant), 2)
                b.at(397, b.term() if term else b.hup())
                # a termination stops at once; a reload one second later
                b.late = [[400 if term else 1390, by]]
                yield "%s-%s-%d" % (variant, term, by), b.scn(13500 if not term else 1500)


@for_("C16")
def reloads(quick):
    """what a new configuration may bring"""
    def mk(**k):
        b = small(B(**k))
        b.ext("e1", timeout=0)
        b.zones[0]["pids"].append(b.step("e", ["e1"], ladder()))
        return b
    b = mk()
    cases = {}
    c = b.config()
    cases["same"] = c
    c2 = json.loads(json.dumps(c))
    c2["zones"][0].update(failsafePercent=33.0, cycleIntervalTimeMS=150)
    cases["changed"] = c2
    c3 = json.loads(json.dumps(c))
    c3["zones"][0]["id"] = 4
    cases["renumbered"] = c3
    cases["broken"] = "{"
    c4 = json.loads(json.dumps(c))
    c4["zones"][0]["pids"] = []
    cases["nopids"] = c4
    c5 = json.loads(json.dumps(c))
    c5["zones"][0]["pids"] = [p for p in c5["zones"][0]["pids"] if p["name"] != "e"]
    c5["sensors"] = [s for s in c5["sensors"] if s["name"] != "e1"]
    cases["fewer"] = c5
    c6 = json.loads(json.dumps(c))
    c6["sensors"].append({"name": "t7", "type": "temp", "readPath": TP + "t7"})
    cases["unreadable"] = c6
    for name, cc in cases.items():
        b = mk()
        b.seq(219, 100, [b.write("e1", 20.0), b.manual(1, True)])
        b.at(607, b.hup())
        b.at(1309, b.file("@/config.json", cc if isinstance(cc, str) else json.dumps(cc)))
        if name == "unreadable":
            b.at(25008, {"op": "addobj", "svc": "svc.temp", "path": TP + "t7", "ifaces": {V: {"Value": ["d", 20.0]}}})
        b.at(12219, b.write("e1", 30.0))
        b.at(12519, b.val("t1", 20.0))
        yield name, b.scn(13500 if name != "unreadable" else 33000)


# C17 -------------------------------------------------------------------------
@for_("C17")
def floods(quick):
    """more messages than may be recorded in a second"""
    for n in (12, 24):
        for gap in (50, 150):
            b = B()
            b.fan("f1", 2000.0)
            ts = ["t%02d" % i for i in range(n)]
            for t in ts:
                b.temp(t, 30.0, func=True, timeout=0)
            b.zone(1, [b.step("s", ts, [(0, 20.0)]), b.fanpid("f", ["f1"])], fan=50, therm=50)
            ops = []
            for k in range(3):
                ops += [b.multi(*[b.val(t, "nan") for t in ts]), b.multi(*[b.func(t, False) for t in ts]), b.multi(*[b.val(t, 30.0) for t in ts]),
                        b.multi(*[b.func(t, True) for t in ts])]
            t = b.seq(1219, gap, ops)
            b.seq(t + 1200, 300, [b.val(ts[0], "nan"), b.val(ts[1], "nan"), b.val(ts[0], 31.0), b.val(ts[1], 30.0), b.val(ts[0], "nan"), b.val(ts[0], 30.0)])
            yield "%d-%d" % (n, gap), b.scn()


@for_("C17")
def states(quick):
    """every subset of failing sensors, with the messages of each state"""
    for two in (False, True):
        b = B()
        ts = ["t1", "t2", "t3"]
        for t in ts:
            b.temp(t, 30.0, func=True, timeout=0)
        b.fan("f1")
        b.fan("f2")
        b.zone(1, [b.step("s", ts, [(0, 20.0)]), b.fanpid("f", ["f1"])], fan=100, therm=100)
        if two:
            b.zone(2, [b.step("u", ["t1", "t3"], [(0, 20.0)], miss=["t3"]), b.fanpid("g", ["f2"])], fan=100, therm=200)
        s = [lambda v, t=t: b.func(t, not v) for t in ts] + [lambda v: b.val("t1", "nan" if v else 30.0)]
        t = b.seq(219, 200, toggles(4, s))
        yield str(two), b.scn(t + 300)


# C18 -------------------------------------------------------------------------
@for_("C18")
def requests(quick):
    """every sub-command, length and zone number, in every state of a zone"""
    zones = [0, 1, 127, 128, 255]
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    for z in zones:
        b.fan("f%d" % z)
        b.zone(z, [b.step("a%d" % z, ["t1" if z % 2 else "t2"], ladder()), b.fanpid("fp%d" % z, ["f%d" % z])], fan=500, therm=500)
    ops = []
    for state in (None, b.val("t1", "nan"), b.val("t2", "nan"), b.val("t1", 30.0)):
        ops.append(state)
        ops += [None] * 20
        for z in zones + [2, 129, 254]:
            for cmd in (0, 1, 2, 3, 255):
                for tail in ([], [0], [1], [2], [0, 0]):
                    if cmd != 1 and len(tail) == 1 and tail[0] and (z + cmd) % 2:
                        continue
                    ops.append(b.ipmi(cmd, z, *tail))
            ops += [b.ipmi(0, z), b.ipmi(2, z)]
        ops += [b.ipmi(), b.ipmi(0), b.ipmi(1), b.ipmi(2)] + [b.ipmi(1, z, 0) for z in zones]
        if quick and state is not None and state["props"]["Value"][1] == 30.0:
            break
    t = 529
    for o in ops:
        if o is not None:
            b.at(t, o)
        t += 37 if t % 50 not in (38, 49) else 48
    for o in b.ops:
        if o["t"] % 50 == 0:
            o["t"] += 1
    yield "all", b.scn()


# C19 -------------------------------------------------------------------------
@for_("C19")
def independent(quick):
    """three zones, one of them disturbed in every way"""
    for share in (False, True):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.temp("t2", 30.0, timeout=0)
        b.temp("t3", 30.0, timeout=0)
        for z, (fan, therm) in ((1, (100, 200)), (2, (150, 300)), (7, (100, 1000))):
            b.fan("f%d" % z, write="dbus")
            ins = ["t1"] if share else ["t%d" % (z if z < 3 else 3)]
            b.zone(z, [b.step("a", ins, ladder(), fsp=50.0 + 5 * z), b.step("b%d" % z, ["t%d" % (z if z < 3 else 3)], [(0, 5.0), (40, 40.0 + z)]),
                       b.fanpid("fp", ["f%d" % z])], min=1.0, fan=fan, therm=therm)
        t = b.seq(219, 300, [b.manual(2, True), b.val("t2", "nan"), b.enable(2, "a", False), b.val("t2", 45.0), b.ipmi(1, 2, 0), b.enable(2, "a", True),
                             b.val("t1", "nan"), b.manual(1, True), b.val("t1", 20.0), b.manual(1, False), b.val("f2", 0.0), b.val("t3", 45.0), b.manual(7, True),
                             b.enable(7, "a", False), b.manual(7, False)])
        yield str(share), b.scn(t + 1500)


# C22 -------------------------------------------------------------------------
@for_("C22")
def writes(quick):
    """values at the edges, equal values, and readings of them"""
    b = B()
    b.ext("e1", timeout=0)
    b.ext("e2", timeout=1)
    b.fan("f1")
    b.zone(1, [b.step("a", ["e1"], ladder(), fsp=80.0), b.step("b", ["e2"], ladder(), fsp=85.0), b.fanpid("f", ["f1"])], fan=100, therm=100)
    ops = []
    g = [b.get(XSVC, XP + "temperature/e%d" % i, V, "Value") for i in (1, 2)]
    for v in (20.0, 20.0, 65536.0009765625, 1048575.9990234375, -1048575.9990234375, 0.0009765625, -0.0009765625, 0.0, "nan", "nan", 30.0, "inf", "-inf", 10.0,
              16777217.0 / 1024, 25.0):
        ops += [b.write("e1", v), g[0], b.write("e2", v), g[1], None]
    ops += [None] * 12 + [b.write("e2", 25.0), g[1]]
    t = b.seq(119, 130, ops)
    for o in b.ops:
        if o["t"] % 50 == 0:
            o["t"] += 1
    yield "edges", b.scn(t + 1500)


# C23, C24 --------------------------------------------------------------------
@for_("C23")
def rows(quick):
    """a row per cycle: order of columns, states, values"""
    for order in range(2):
        b = B().logs()
        names = ["t2", "t1", "a9"]
        for i, n in enumerate(names):
            b.temp(n, 30.5 + i, timeout=0)
        b.temp("sc", 0.5, lim=(0.0, 64.0), timeout=0)
        b.fan("f2", 2000.0, write="dbus")
        b.fan("f1", 1000, read="sys")
        fans = ["f2", "f1"] if order else ["f1", "f2"]
        b.zone(4, [b.pid("m", "temp", names[::-1] if order else names, 25.0, kp=-1.0), b.pid("n", "temp", ["sc"], 0.5, kp=-10.0),
                   b.step("s", ["t1"], ladder()), b.fanpid("f", fans)], min=3.5, fan=100, therm=300)
        if order:
            b.fan("f3", 500, read="sys")
            b.zone(0, [b.step("s", ["t2"], ladder()), b.fanpid("f", ["f3"])], fan=150, therm=150)
        b.seq(219, 250, [b.val("t1", 40.25), b.val("f2", 0.0), b.file("@/sys/hw/f1_in", "1500\n"), b.val("sc", 48.0), b.val("a9", "nan"), b.manual(4, True),
                         b.manual(4, False), b.val("a9", -3.5), b.enable(4, "s", False), b.val("t2", "nan"), b.val("t2", 30.0)])
        yield str(order), b.scn()


@for_("C24")
def quiet(quick):
    """constant and all-zero computations, for longer than two minutes"""
    for zero in (False, True):
        for fan in (1000, 7000):
            if quick and fan == 7000 and zero:
                continue
            b = B().logs(core=True)
            b.temp("t1", 30.0, timeout=0)
            b.fan("f1", 2000.0)
            k = dict(kp=0.0, omin=0.0, omax=0.0) if zero else dict(kp=-2.0)
            b.zone(1, [b.pid("p", "temp", ["t1"], 30.0 if zero else 25.0, **k), b.fanpid("f", ["f1"], ffg=0.0 if zero else 1.0)], min=0.0, fan=fan, therm=fan)
            b.at(130511, b.val("t1", 31.0))
            b.at(133511, b.val("t1", 30.0))
            yield "%s-%d" % (zero, fan), b.scn(140000)


@for_("C24")
def again(quick):
    """a reload starts the logs anew; also when every term of every computation is zero"""
    for zero in (False, True):
        b = B().logs(core=True, zone=False)
        b.temp("t1", 0.0 if zero else 30.0, timeout=0)
        b.fan("f1", 2000.0)
        k = dict(kp=0.0, omin=0.0, omax=0.0) if zero else dict(kp=-2.0)
        b.zone(1, [b.pid("p", "temp", ["t1"], 0.0 if zero else 25.0, **k),
                   b.pid("p_", "temp", ["t1"], 0.0 if zero else 20.0, **(k if zero else dict(kp=-1.0))),
                   b.fanpid("f", ["f1"], ffg=0.0 if zero else 1.0)],
               min=0.0, fan=500, therm=500)
        if not zero:
            b.at(1211, b.val("t1", 31.0))
        b.at(2003, b.hup())
        b.at(14211, b.val("t1", 0.0 if zero else 30.0))
        yield str(zero), b.scn(15500)


# C25 -------------------------------------------------------------------------
@for_("C25")
def contents(quick):
    """what the tuning files may hold"""
    for on in ("option", "file", "off"):
        b = small(B(), 2)
        if on == "option":
            b.argv = b.argv + ["-t"]
        elif on == "file":
            b.files["/etc/thermal.d/tuning"] = ""
            b.opts["tuning"] = True
        sp = "/etc/thermal.d/setpoint"
        ops = []
        for c in ("100", "101", "abc", "", "-5", "255\n", "3000", "12x", " 44 ", "0", "0x97", "0200", "150.5", "+150", "150abc", "010", "-", "99999", None):
            ops += [b.file(sp, c)]
        ops += [b.file(sp + ".zone1", "40"), b.file(sp, "70"), b.file(sp + ".zone1", None), b.file(sp + ".zone2", "junk"), b.val("t1", "nan"),
                b.file(sp + ".zone2", "250"), b.file(sp, None), b.val("t1", 20.0), b.file(sp + ".zone2", None)]
        t = b.seq(205, 400, ops)
        for i, o in enumerate(b.ops):
            o["t"] += i % 5
        yield on, b.scn(t + 500)


# C26 -------------------------------------------------------------------------
@for_("C26")
def scales(quick):
    """scale, range and type of the published value"""
    k = 0
    for scale in (None, -3, -1, 0, 1, 2):
        for lim in (None, (0.0, 0.0), (0.0, 64.0), (-64.0, 64.0), (16.0, 80.0), (0.0, -1.0), (5.0, 5.0), (64.0, 0.0)):
            for sig in ("d", "x"):
                k += 1
                if quick and k % 2 and scale not in (1, 2) and sig == "x":
                    continue
                if lim and lim[1] > lim[0] and scale in (-3, -1):
                    continue
                m = 10 ** (scale or 0)
                ign = k % 5 == 0
                if sig == "x" and scale in (-3, -1):
                    v = [24000, 48000, 8000] if scale == -3 else [240, 480, 80]
                else:
                    v = [24 // m if m > 1 else 24, 48 // m if m > 1 else 48, 3]
                b = B()
                b.temp("x", 0.0, scale=scale, timeout=0, **({"ignoreDbusMinMax": True} if ign else {}))
                o = b.world["svc.temp"][TP + "x"][V]
                conv = (lambda y: ["x", int(y)]) if sig == "x" else (lambda y: ["d", float(y)])
                o["Value"] = conv(v[0])
                if lim:
                    o["MinValue"], o["MaxValue"] = conv(lim[0]), conv(lim[1])
                b.fan("f1", 2000.0)
                b.world["svc.fan"][FP + "f1"][V].update({"MinValue": ["d", 0.0], "MaxValue": ["d", 8192.0]})
                b.zone(1, [b.pid("p", "temp", ["x"], 0.0, kp=-0.5, omax=5000.0), b.fanpid("f", ["f1"], ffg=0.5)], min=1.0, fan=100, therm=100)
                b.seq(219, 200, [b.set(TP + "x", V, Value=conv(y)) for y in v[1:] + v[:1]] + [b.val("f1", 4096.0)])
                yield "%s-%s-%s-%s" % (scale, lim, sig, ign), b.scn()


# C27 -------------------------------------------------------------------------
@for_("C27")
def groups(quick):
    """every combination of failed groups with common members"""
    for start in ("Full", "Failed"):
        b = B()
        b.temp("m1", 30.0, type="margin", timeout=0)
        fs = ["f1", "f2", "f3"]
        for f in fs:
            b.fan(f, 2000.0)
        b.group("g1", start, [FP + "f1", FP + "f2"])
        b.group("g2", "Full", [FP + "f2", FP + "f3", TP + "m1"])
        b.group("g3", start, [FP + "f3", FP + "nosuch"])
        b.zone(1, [b.pid("p", "margin", ["m1"], 20.0, kp=-1.0)] + [b.fanpid("fp" + f, [f], fsp=70.0 + i * 5) for i, f in enumerate(fs)], fan=100, therm=100)
        n = [0]

        def st(g):
            def f(v):
                n[0] += 1
                return b.red(g, "Failed" if v else ("Full", "Degraded")[n[0] % 2])
            return f
        t = b.seq(219, 200, toggles(3, [st("g1"), st("g2"), st("g3")]) * 2)
        b.seq(t, 200, [b.set(RP + "g1", RED, Status=["s", FR + "Failed"], Collection=["as", [FP + "f3"]]),
                       b.set(RP + "g1", RED, Status=["s", FR + "Failed"], Collection=["as", [FP + "f1"]]),
                       b.set(RP + "g1", RED, Collection=["as", [FP + "f2"]]), b.red("g1", "Full"), b.red("g2", "Failed"), b.func("f1", True), b.red("g2", "Full")])
        yield start, b.scn()


@for_("C27")
def unread(quick):
    """groups that cannot be read at start or when they change"""
    for g in ("g1", "g2", "all"):
        for member in ("GetAll", "Get"):
            if g == "all" and member == "Get":
                continue
            b = B()
            b.temp("t1", 30.0, timeout=0)
            b.fan("f1")
            b.fan("f2")
            b.group("g1", "Failed", [FP + "f1"])
            b.group("g2", "Failed", [FP + "f2"])
            b.zone(1, [b.step("a", ["t1"], [(0, 20.0)]), b.fanpid("fp1", ["f1"], fsp=70.0), b.fanpid("fp2", ["f2"], fsp=80.0)], fan=100, therm=100)
            b.faults = [{"member": "GetSubTree", "arg0": "/", "skip": 0, "count": 1}] if g == "all" else \
                [{"member": member, "path": RP + g, "arg0": RED, "skip": 0, "count": 1}]
            b.seq(519, 300, [b.red("g1", "Full"), b.red("g2", "Full"), b.red("g1", "Failed"), b.red("g2", "Failed"), b.red("g1", "Full"), b.red("g2", "Full")])
            yield "%s-%s" % (g, member), b.scn()


# C28 -------------------------------------------------------------------------
@for_("C28")
def absent(quick):
    """each object missing at first, or not to be read"""
    for what in ("t1", "f1", "f2", "pwm1", "pwm2", "t2"):
        for how in ("missing", "unreadable", "unresolved"):
            for variant in ("default", "missing"):
                if quick and variant == "missing" and how == "unresolved":
                    continue
                b = B(variant=variant)
                b.temp("t1", 30.0, timeout=0)
                b.temp("t2", 30.0, timeout=0)
                b.fan("f1", write="dbus", hi=None)          # no range: the writer without one
                b.fan("f2", write="dbus", lo=0, hi=200)
                b.zone(1, [b.step("a", ["t1"], ladder(), fsp=80.0), b.fanpid("fp1", ["f1"], fsp=85.0)], fan=100, therm=100)
                b.zone(2, [b.step("a", ["t2"], ladder(), fsp=75.0), b.fanpid("fp2", ["f2"])], fan=100, therm=100)
                svc, path = {"t1": ("svc.temp", TP + "t1"), "t2": ("svc.temp", TP + "t2"), "f1": ("svc.fan", FP + "f1"), "f2": ("svc.fan", FP + "f2"),
                             "pwm1": ("svc.pwm", CP + "f1"), "pwm2": ("svc.pwm", CP + "f2")}[what]
                if how == "missing":
                    o = b.world[svc].pop(path)
                    b.at(3203, {"op": "addobj", "svc": svc, "path": path, "ifaces": o})
                    if V in o:
                        b.at(4211, {"op": "set", "svc": svc, "path": path, "iface": V, "props": {"Value": num(31.0)}})
                        b.at(5311, {"op": "set", "svc": svc, "path": path, "iface": V, "props": {"Value": num(24.0)}})
                elif how == "unreadable":
                    if "pwm" in what:
                        continue
                    b.faults = [{"member": "GetAll", "path": path, "arg0": V, "skip": 0, "count": 1}]
                else:
                    b.faults = [{"member": "GetObject", "arg0": path, "skip": 0, "count": 1}]
                yield "%s-%s-%s" % (what, how, variant), b.scn(11500)


@for_("C28", "C02", "C03")
def stillgone(quick):
    """a sensor whose object is absent stays failed whatever it sends, until its configuration is read again"""
    b = B(variant="missing")
    b.temp("t1", 30.0, crit=(False, False), avail=True, func=True, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1")
    b.zone(1, [b.step("a", ["t1", "t2"], ladder(), fsp=80.0), b.fanpid("fp1", ["f1"])], fan=100, therm=100)
    o = b.world["svc.temp"].pop(TP + "t1")
    b.at(1203, {"op": "addobj", "svc": "svc.temp", "path": TP + "t1", "ifaces": o})
    S = lambda i, **p: {"op": "set", "svc": "svc.temp", "path": TP + "t1", "iface": i, "props": p}
    b.at(2003, b.hup())
    b.seq(1411, 200, [S(V, Value=num(33.0)), S(AVAIL, Available=["b", True]), S(CRIT, CriticalAlarmHigh=["b", False])])
    b.seq(3611, 200, [S(V, Value=num(35.0)), S(AVAIL, Available=["b", False]), S(AVAIL, Available=["b", True]), S(V, Value=num(36.0))])
    yield "t1", b.scn(6000)


@for_("C28")
def several(quick):
    """several objects missing, appearing one by one"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.temp("t2", 30.0, timeout=0)
    b.fan("f1", write="dbus")
    b.zone(1, [b.step("a", ["t1", "t2"], ladder()), b.fanpid("fp1", ["f1"])], fan=100, therm=100)
    os_ = [("svc.temp", TP + "t1"), ("svc.temp", TP + "t2"), ("svc.pwm", CP + "f1")]
    for i, (svc, p) in enumerate(os_):
        o = b.world[svc].pop(p)
        b.at(10000 * i + 5003, {"op": "addobj", "svc": svc, "path": p, "ifaces": o})
    yield "one-by-one", b.scn(31500)


# paths and files -------------------------------------------------------------------
@for_("C10", "C13")
def unread_fans(quick):
    """fans that are only written: no reading, no failure, and the slowest of the others is the input"""
    for rp in ("None", "", "/somewhere"):
        for which in ((2,), (1, 2), (1, 2, 3)):
            for tmo in (0, 1):
                if quick and (len(which) == 2) != (rp == ""):
                    continue
                b = B()
                b.temp("t1", 30.0, timeout=0)
                for i in (1, 2, 3):
                    b.fan("f%d" % i, 1000.0 * i, write=("sys", "dbus")[i % 2], timeout=tmo if i in which else 0)
                    if i in which:
                        b.sensors[-1]["readPath"] = rp
                b.zone(1, [b.step("s", ["t1"], ladder(), fsp=80.0), b.fanpid("f", ["f1", "f2", "f3"], kp=0.01, ffg=1.0)], fan=100, therm=100)
                b.seq(219, 200, [b.val("t1", 33.0), b.val("f3", 1500.0), b.val("f1", 900.0), b.val("t1", "nan"), b.val("t1", 30.0), b.val("f3", 0.0),
                                 b.manual(1, True), b.manual(1, False)])
                yield "%s-%s-%d" % (rp.strip("/") or "empty", "".join(map(str, which)), tmo), b.logs().scn()


@for_("C02", "C01")
def unread_thermal(quick):
    """a thermal sensor without a read path is one that failed"""
    for rp in ("None", "/somewhere"):
        for miss in (False, True):
            b = B()
            b.temp("t1", 30.0, timeout=0)
            b.temp("t2", 30.0, timeout=0)
            b.sensors[-1]["readPath"] = rp
            b.fan("f1")
            b.zone(1, [b.step("s", ["t1", "t2"], ladder(), fsp=80.0, miss=["t2"] if miss else None), b.fanpid("f", ["f1"])], fan=100, therm=100)
            b.seq(219, 300, [b.val("t1", 33.0), b.val("t1", "nan"), b.val("t1", 30.0)])
            yield "%s-%s" % (rp.strip("/"), miss), b.scn()


@for_("C13", "C26")
def wildcards(quick):
    """paths with an unknown directory: the one entry there is takes its place"""
    for r in (True, False):
        for w in (True, False):
            for sub in ("hwmon0", "hwmon7/x"):
                b = B()
                b.temp("t1", 30.0, timeout=0)
                top = sub.split("/")[0]
                b.dirs += ["@/sys/in/" + sub, "@/sys/out/" + sub]
                tail = sub[len(top):]
                b.files["@/sys/in/%s/in1" % sub] = "1800"
                b.files["@/sys/out/%s/pwm1" % sub] = ""
                b._sens("f1", "fan", "/sys/in/**%s/in1" % tail if r else "/sys/in/%s/in1" % sub, min=5, max=250,
                        writePath="/sys/out/**%s/pwm1" % tail if w else "/sys/out/%s/pwm1" % sub)
                alias = {"/sys/in/%s/in1" % sub: "/sys/in/**%s/in1" % tail} if r else {}
                if w:
                    alias["/sys/out/%s/pwm1" % sub] = "/sys/out/**%s/pwm1" % tail
                b.alias = alias
                b.zone(1, [b.step("s", ["t1"], ladder(), fsp=80.0), b.fanpid("f", ["f1"], kp=0.01)], fan=100, therm=100)
                b.seq(219, 200, [b.val("t1", 33.0), b.file("@/sys/in/%s/in1" % sub, "1200"), b.val("t1", "nan"), b.val("t1", 28.0),
                                 b.file("@/sys/in/%s/in1" % sub, None), b.file("@/sys/in/%s/in1" % sub, "1500")])
                yield "%s-%s-%s" % (r, w, top), b.scn()


@for_("C13")
def refused(quick):
    """writes to fans that fail, one at a time and in rows: commanded, and tried again only when the value changes"""
    for hi in (None, 200):
        for skip in (0, 1, 3):
            for count in (1, 2, -1):
                if quick and count == 2 and skip:
                    continue
                b = B()
                b.temp("t1", 30.0, timeout=0)
                b.fan("f1", write="dbus", hi=hi)
                b.fan("f2", write="dbus", hi=hi)
                b.zone(1, [b.step("s", ["t1"], [(20, 1000.0), (30, 2000.0), (40, 3000.0)] if hi is None else ladder(), fsp=80.0), b.fanpid("f", ["f1", "f2"], omax=5000.0)],
                       fan=100, therm=100)
                b.faults = [{"member": "Set", "path": CP + "f1", "arg0": PWM, "skip": skip, "count": count}]
                b.seq(319, 300, [b.val("t1", 20.0), b.val("t1", 30.0), b.val("t1", 40.0), b.val("t1", "nan"), b.val("t1", 20.0), b.manual(1, True),
                                 b.manual(1, False), b.val("t1", 30.0)])
                yield "%s-%d-%d" % (hi, skip, count), b.scn()


# options -----------------------------------------------------------------------------
@for_("C23", "C24")
def byfile(quick):
    """logs switched on by files, with and without another directory named in them"""
    for arg in (False, True):
        for content, where in (("", None), ("\n", None), ("@@/other\n", "other"), ("@@/other", "other"), ("@@/absent\n", None), ("@@/other\nmore\n", "other")):
            for core in ("", "arg", "file"):
                if quick and core != "file" and content not in ("", "@@/other\n"):
                    continue
                b = B()
                b.temp("t1", 30.0, timeout=0)
                b.fan("f1")
                b.zone(1, [b.step("s", ["t1"], ladder()), b.pid("p", "temp", ["t1"], 25.0, kp=-1.0), b.fanpid("f", ["f1"], kp=0.01)], fan=100, therm=200)
                b.dirs += ["@/logs", "@/other"]
                if arg:
                    b.argv += ["-l", "@/logs"]
                b.files["/etc/thermal.d/logging"] = content
                if core == "file":
                    b.files["/etc/thermal.d/corelogging"] = ""
                elif core:
                    b.argv.append("-g")
                d = "@/" + (where or ("logs" if arg else "tmp"))
                b.opts = {"log": True, "logdir": d[1:]}
                if core:
                    b.opts["core"] = True
                b.seq(319, 300, [b.val("t1", 33.0), b.val("t1", 20.0)])
                b.at(1257, b.term())
                b.watch = [d + "/zone_1.log"] + ([d + "/pidcore." + n for n in ("f", "p", "s")] + [d + "/pidcoeffs." + n for n in ("f", "p", "s")] if core else [])
                b.logged = {"1": 1}
                yield "%s-%s-%s-%s" % (arg, content.strip("@\n/").replace("\n", "+") or len(content), where, core), b.scn(1600)


@for_("C05", "C01", "C11")
def chatty(quick):
    """debugging changes nothing but what is printed"""
    for how in ("arg", "file"):
        for variant in ("default", "offline"):
            b = B(variant=variant)
            b.temp("t1", 30.0, timeout=0)
            b.temp("t2", 30.0, timeout=1)
            b.ext("e1", timeout=0)
            b.fan("f1")
            b.fan("f2", write="dbus")
            b.zone(1, [b.step("s", ["t1"], ladder(), fsp=80.0), b.pid("p", "temp", ["t1", "t2"], 25.0, kp=-1.0, fsp=55.0), b.step("c", ["e1"], [(0, 90.0), (50, 40.0)], ceil=True),
                       b.fanpid("f", ["f1", "f2"], kp=0.01)], fan=100, therm=200)
            if how == "arg":
                b.argv.append("-d")
            else:
                b.files["/etc/thermal.d/debugging"] = "1"
                b.opts["debug"] = True
            b.seq(219, 200, [b.write("e1", 40.0), b.val("t1", 33.0), b.val("t2", 35.0), b.val("t1", "nan"), b.write("e1", 60.0), b.val("t1", 28.0), b.val("f1", 0.0),
                             b.manual(1, True), b.manual(1, False), b.val("t2", 35.0), b.hup(), b.val("t1", 33.0), b.val("t2", 30.0), None, None, b.write("e1", 30.0), b.term()])
            for i, o in enumerate(b.ops):
                if o["op"] == "sig":
                    o["t"] = o["t"] // 50 * 50 + 3 + i % 2
            yield "%s-%s" % (how, variant), b.scn()


@for_("C24")
def names(quick):
    """names that become the same, or nothing, in the names of core logs"""
    for ns in (("a b", "ab"), ("a-b", "a_b", "ab"), ("--", "x"), ("p.1", "p1", "P1"), ("..", "...")):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1")
        b.zone(1, [b.pid(n, "temp", ["t1"], 25.0, kp=-1.0 - i, omin=5.0) for i, n in enumerate(ns)] + [b.fanpid("f", ["f1"], kp=0.01)], fan=100, therm=200)
        b.seq(319, 300, [b.val("t1", 33.0), b.val("t1", 20.0), b.val("f1", 1000.0), b.hup()])
        b.ops[-1]["t"] = b.ops[-1]["t"] // 50 * 50 + 3
        b.at(2819, b.val("t1", 22.0))
        yield "+".join(ns), b.logs(core=True, zone=False).scn(3500)


@for_("C24")
def unopened(quick):
    """core logs that cannot be created do not stop control, nor other logs"""
    for what in ("pidcore.p", "pidcoeffs.p", "pidcore.f", "both"):
        b = B()
        b.temp("t1", 30.0, timeout=0)
        b.fan("f1")
        b.zone(1, [b.pid("p", "temp", ["t1"], 25.0, kp=-1.0, omin=5.0), b.fanpid("f", ["f1"], kp=0.01)], fan=100, therm=200)
        for w in (what,) if what != "both" else ("pidcore.p", "pidcoeffs.f"):
            b.dirs.append("@/logs/" + w)
            b.opts.setdefault("nolog", []).append(w.split(".")[1])
        b.seq(319, 300, [b.val("t1", 33.0), b.val("t1", 20.0), b.val("f1", 1000.0)])
        s = b.logs(core=True, zone=False).scn()
        yield what, s


# signals and calls ---------------------------------------------------------------------
@for_("C03", "C27")
def partial_signals(quick):
    """announcements that carry other properties of an interface, or values of other number types"""
    for kind in ("temp", "fan"):
        b = B()
        b.temp("t0", 30.0, timeout=0)
        n = "t1" if kind == "temp" else "f1"
        b.fan("f1", 2000.0, timeout=0)
        b.temp("t1", 30.0, timeout=0)
        for p in (TP + "t1", FP + "f1"):
            for o in b.world.values():
                if p in o:
                    o[p].update({CRIT: {"CriticalAlarmHigh": ["b", False], "CriticalAlarmLow": ["b", False], "CriticalHigh": ["d", 90.0]},
                                 AVAIL: {"Available": ["b", True]}, OPER: {"Functional": ["b", True]}, WARN: {"WarningAlarmHigh": ["b", False]}})
        p = TP + "t1" if kind == "temp" else FP + "f1"
        svc = b.svc_of(p)
        b.group("g1", "Full", [FP + "f1"])
        b.zone(1, [b.step("s", ["t0", "t1"], ladder(), fsp=80.0), b.fanpid("f", ["f1"], fsp=70.0)], fan=100, therm=100)

        def sig(i, **pr):
            return {"op": "signal", "svc": svc, "path": p, "iface": i, "props": pr}
        other = [sig(V, Unit=["s", "C"]), sig(V, MaxValue=["d", 100.0]), sig(CRIT, CriticalHigh=["d", 80.0]), sig(AVAIL, Other=["b", False]),
                 sig(OPER, Other=["b", False]), sig(WARN, WarningHigh=["d", 4.0]), sig("xyz.openbmc_project.Association.Definitions", Associations=["as", []])]
        red = {"op": "signal", "svc": "svc.red", "path": RP + "g1", "iface": RED, "props": {"Collection": ["as", []]}}
        ops = []
        for state in (None, sig(AVAIL, Available=["b", False]), sig(OPER, Functional=["b", False]), sig(CRIT, CriticalAlarmLow=["b", True])):
            ops += [state] if state else []
            ops += other + [red]
            if state:
                i, (k, v) = state["iface"], list(state["props"].items())[0]
                ops += [sig(i, **{k: ["b", not v[1]]}), sig(V, Value=["d", 31.0])]
        ops += [sig(V, Value=["x", 32]), sig(V, Value=["x", 33], Unit=["s", "C"])]
        b.seq(119, 100, ops)
        yield kind, b.scn()


@for_("C18")
def unanswered(quick):
    """requests whose call to the daemon fails"""
    for skip in (0, 1, 2):
        for count in (1, 2, -1):
            b = small(B(), 2)
            b.faults = [{"member": "GetAll", "path": zpath(1), "arg0": MODE, "skip": skip, "count": count}]
            b.seq(219, 40, [b.ipmi(c, z) for c in (0, 2) for z in (1, 2)] * 2 + [b.ipmi(1, 1, 1), b.ipmi(0, 1), b.ipmi(1, 1, 0), b.ipmi(2, 1), b.ipmi(0, 2)])
            for o in b.ops:
                if o["t"] % 50 == 0 or o["t"] % 50 < 10:
                    o["t"] += 11
            yield "%d-%d" % (skip, count), b.scn()


@for_("C11", "C22")
def tool(quick):
    """the tool that puts zone 1 in manual mode and writes a sensor"""
    for zs in ((1,), (2,), (1, 2), (0, 1)):
        for host in (True, False):
            b = B()
            b.temp("t1", 30.0, timeout=0)
            for z in zs:
                b.fan("f%d" % z)
                ins = ["t1"]
                if host and z == zs[0]:
                    b._sens("sluggish0", "margin", XP + "margin/sluggish0", timeout=0)
                b.zone(z, [b.step("s%d" % z, ["t1"], ladder(), fsp=80.0), b.fanpid("fp%d" % z, ["f%d" % z])]
                       + ([b.pid("m", "margin", ["sluggish0"], 10.0, kp=1.0)] if host and z == zs[0] else []), fan=100, therm=100)
            sp = XP + "margin/sluggish0"
            b.seq(219, 200, [{"op": "setsensor"}, b.val("t1", 33.0), b.get(XSVC, sp, V, "Value") if host else None, b.manual(1, False), b.call(XSVC, sp, V, "Value", "d", 25.0) if host else None,
                             {"op": "setsensor"}, {"op": "setsensor"}, b.get(ZSVC, zpath(1), MODE, "Manual"), b.manual(1, False), b.val("t1", 28.0)])
            yield "%s-%s" % ("+".join(map(str, zs)), host), b.scn()


@for_("C21")
def hostfault(quick):
    """the host state cannot be asked for: it counts as off until it is announced"""
    for here in (True, False):
        for state in ("Running", "Off"):
            for first in ("Running", "Off"):
                b = B()
                b.hostobj(state)
                if here:
                    b.faults = [{"member": "Get", "path": HP, "arg0": HOST, "skip": 0, "count": 1}]
                else:
                    b.world.pop("svc.host")
                b.temp("t1", 30.0, func=True, timeout=0, ignoreFailIfHostOff=True)
                b.ext("e1", timeout=0, ignoreFailIfHostOff=True)
                b.fan("f1")
                b.zone(1, [b.step("s", ["t1", "e1"], ladder(), fsp=80.0), b.fanpid("f", ["f1"])], fan=100, therm=100)
                host = b.host(first) if here else {"op": "addobj", "svc": "svc.host", "path": HP, "ifaces": {HOST: {"CurrentHostState": ["s", ST + first]}}}
                b.seq(219, 200, [b.func("t1", False), b.write("e1", "nan"), host, b.write("e1", 20.0), b.host("Off") if here else None, b.host("Running") if here else None,
                                 b.func("t1", True), b.host("Off") if here else None])
                yield "%s-%s-%s" % (here, state, first), b.scn()


@for_("C14")
def noinputs(quick):
    """controllers without inputs, and of unknown kinds: nothing is started"""
    for what in ("fan", "temp", "margin", "stepwise", "unknown-type", "empty-type", "unknown-sensor-type"):
        b = fullconf()
        cfg = b.config()
        ps = cfg["zones"][0]["pids"]
        if what in ("fan", "temp", "margin", "stepwise"):
            for p in ps:
                if p["type"] == what:
                    p["inputs"] = []
                    p.pop("tempToMargin", None)
        elif what == "unknown-sensor-type":
            cfg["sensors"].append({"name": "odd", "type": "odd", "readPath": TP + "odd"})
        else:
            ps[0]["type"] = "odd" if what == "unknown-type" else ""
        b.at(3203, b.file("@/config.json", json.dumps(b.config())))
        yield what, confscn(b, cfg, ())



@for_("C08")
def frost(quick):
    """tables and readings below zero"""
    for i, pts in enumerate(([(-40, 35.0), (-20, 20.0), (-5, 12.0), (10, 30.0)], [(-10, 80.0)], [(-30, 60.0), (-10, 25.0)], [(-15, 10.0), (0, 70.0)],
                             [(5, 25.0), (15, 45.0)])):
        b = B()
        b.temp("t1", -50.0, timeout=0)
        b.temp("t2", -60.0, timeout=0)
        b.fan("f1", 2000.0)
        b.fan("f2", 2000.0)
        b.zone(1, [b.step("s", ["t1", "t2"], pts), b.fanpid("f", ["f1"])], min=1.0, fan=100, therm=100)
        b.zone(2, [b.step("c", ["t2", "t1"], pts, ceil=True), b.pid("p", "temp", ["t1"], 40.0, ffg=1.0, ffo=50.0, kp=0.0), b.fanpid("g", ["f2"])],
               min=1.0, fan=100, therm=100)
        vs = [x + e for x, _ in pts for e in (-1 / 1024, 0.0, 1 / 1024)]
        ops = [b.val("t1", float(v)) for v in vs + [-0.5, -3.0, -12.0]] + [b.val("t2", -7.0), b.val("t1", "nan"), b.val("t2", "nan"), b.val("t1", -12.0),
                                                                          b.val("t2", -35.0), b.val("t1", -25.0)]
        t = b.seq(119, 100, ops)
        yield str(i), b.scn(t + 200)


@for_("C01", "C05")
def beyond(quick):
    """failsafe percentages and demands above a hundred"""
    for variant in ("default", "strict"):
        for zfs, fsp in ((120.0, None), (50.0, 140.0), (120.0, 90.0), (100.0, 100.5)):
            b = B(variant=variant)
            b.temp("t1", 30.0, timeout=0)
            b.temp("t2", 30.0, timeout=0)
            b.temp("t3", 10.0, timeout=0)
            b.fan("f1")
            b.fan("f2", write="dbus", lo=10, hi=110)
            b.fan("f3", 1000, read="sys", write="sys", lo=0, hi=200)
            b.zone(1, [b.step("s", ["t1"], [(0, 20.0)], **({} if fsp is None else {"fsp": fsp})), b.step("u", ["t2"], [(0, 20.0)]),
                       b.step("v", ["t3"], [(0, 20.0), (20, 110.0), (40, 160.0)]),
                       b.fanpid("f", ["f1", "f2", "f3"], omax=200.0)], min=1.0, fsp=zfs, fan=100, therm=100)
            ops = [b.val("t1", "nan"), b.val("t3", 25.0), b.val("t3", 45.0), b.val("t1", 30.0), b.val("t2", "nan"), b.val("t3", 10.0), b.val("t1", "nan"),
                   b.val("t2", 30.0), b.val("t3", 25.0), b.val("t1", 30.0)]
            t = b.seq(219, 300, ops)
            yield "%s-%d-%s" % (variant, zfs, fsp), b.scn(t + 300)


@for_("C06", "C07", "C05")
def negatives(quick):
    """controllers whose output limits reach below zero"""
    for chk in (False, True):
        for slew in (0.0, 8.0):
            b = B()
            b.temp("t1", 30.0, timeout=0)
            b.temp("t2", 30.0, timeout=0)
            b.fan("f1")
            b.zone(1, [b.pid("p", "temp", ["t1"], 30.0, kp=2.0, ki=0.5, imin=-20.0, imax=20.0, omin=-60.0, omax=60.0, spos=slew, sneg=-slew,
                             hpos=4.0, hneg=4.0, **({"chk": True} if chk else {})),
                       b.pid("q", "temp", ["t2"], 30.0, kp=-1.0, ffo=-10.0, ffg=0.0, omin=-90.0, omax=-2.0),
                       b.step("s", ["t2"], [(0, -20.0), (35, 15.0)]), b.fanpid("f", ["f1"])], min=1.0, fan=100, therm=200)
            ops = [b.val("t1", float(v)) for v in (40, 20, 31, 10, 27, 33, 35, 20, 50)] + [b.val("t2", float(v)) for v in (40, 20, 10, 60)] + \
                  [b.val("t1", float(v)) for v in (31, 20, 29, 10)]
            t = b.seq(219, 400, ops)
            yield "%s-%d" % (chk, slew), b.scn(t + 400)


@for_("C23", "C25")
def tunedlog(quick):
    """the log of a zone whose set point file is below its minimum"""
    b = B()
    b.temp("t1", 30.0, timeout=0)
    b.fan("f1")
    b.zone(1, [b.step("s", ["t1"], [(0, 20.0), (35, 500.0)]), b.fanpid("f", ["f1"], ffg=0.1)], min=300.0, fan=100, therm=200)
    b.dirs.append("@/logs")
    b.argv += ["-t", "-l", "@/logs"]
    b.opts = {"log": True, "logdir": "/logs", "tuning": True}
    b.watch = ["@/logs/zone_1.log"]
    b.logged = {"1": 1}
    sp = "/etc/thermal.d/setpoint"
    t = b.seq(219, 400, [b.file(sp, "150"), b.val("t1", 40.0), b.file(sp, "450"), b.file(sp, None), b.val("t1", 30.0), b.file(sp + ".zone1", "120")])
    b.at(t + 257, b.term())
    yield "low", b.scn(t + 500)
