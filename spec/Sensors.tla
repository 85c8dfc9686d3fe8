------------------------------- MODULE Sensors -------------------------------
(***************************************************************************)
(* Sensors: what is published, what is read, and when a sensor counts as   *)
(* failed.                                                                 *)
(*                                                                         *)
(* A sensor configuration (conf) is                                        *)
(*   [type, rp, wp, min, max, tmo, ignmm, uaf, ignoff]                     *)
(* The state of the bus is world: path -> interface -> property ->         *)
(*   [s |-> signature, v |-> value].                                       *)
(* A sensor's state is                                                     *)
(*   [kind, path, fan, margin, tmo, ign, uaf, v, u, upd, scale, mn, mx,    *)
(*    bad, hot, fl, lo, hi, wa, avail, func, miss]                         *)
(* where fl is the alarm flag the daemon keeps and lo/hi/wa are the alarms *)
(* as last published.                                                      *)
(***************************************************************************)
EXTENDS Num, Text

IValue == "xyz.openbmc_project.Sensor.Value"
ICrit  == "xyz.openbmc_project.Sensor.Threshold.Critical"
IWarn  == "xyz.openbmc_project.Sensor.Threshold.Warning"
IAvail == "xyz.openbmc_project.State.Decorator.Availability"
IOper  == "xyz.openbmc_project.State.Decorator.OperationalStatus"
IPwm   == "xyz.openbmc_project.Control.FanPwm"
IRedun == "xyz.openbmc_project.Control.FanRedundancy"
IHost  == "xyz.openbmc_project.State.Host"
IMode  == "xyz.openbmc_project.Control.Mode"
IProcess == "xyz.openbmc_project.Debug.Pid.ThermalPower"
IEnable  == "xyz.openbmc_project.Object.Enable"
IZoneDbg == "xyz.openbmc_project.Debug.Pid.Zone"
PHost  == "/xyz/openbmc_project/state/host0"

ReadKind(path) ==
    IF path = "" \/ path = "None" THEN "wo"
    ELSE IF HasSub(path, "/xyz/openbmc_project/extsensors/") THEN "ext"
    ELSE IF HasSub(path, "/xyz/openbmc_project/") THEN "pas"
    ELSE IF HasSub(path, "/sys/") THEN "sys"
    ELSE "wo"

WriteKind(path) ==
    IF path = "" \/ path = "None" THEN "none"
    ELSE IF HasSub(path, "/sys/") THEN "sys"
    ELSE IF HasSub(path, "/xyz/openbmc_project/") THEN "dbus"
    ELSE "none"

WHas(world, path, iface) == path \in DOMAIN world /\ iface \in DOMAIN world[path]
WHasP(world, path, iface, prop) ==
    WHas(world, path, iface) /\ prop \in DOMAIN world[path][iface]
WGet(world, path, iface, prop, dflt) ==
    IF WHasP(world, path, iface, prop) THEN world[path][iface][prop].v ELSE dflt

Normalise(mn, mx, val) ==
    IF mx = INEX \/ mn = INEX THEN INEX
    ELSE IF mx <= 0 \/ mx <= mn THEN val
    ELSE FDiv(FSub(val, mn), mx - mn)

\* a reading arrives (force: it is taken even when it is not a finite number)
Reading(s, val, force, now) ==
    LET bad == ~IsFin(val)
        x   == FScale(val, s.scale)
    IN IF bad /\ ~force THEN [s EXCEPT !.bad = TRUE]
       ELSE [s EXCEPT !.bad = bad,
                      !.hot = IF s.margin THEN Le(val, 0) ELSE s.hot,   \* scaling keeps the sign
                      !.v = Normalise(s.mn, s.mx, x), !.u = x, !.upd = now]

BlankSensor(conf) ==
    [kind |-> ReadKind(conf.rp), path |-> conf.rp, fan |-> conf.type = "fan",
     margin |-> conf.type = "margin", tmo |-> conf.tmo, ign |-> conf.ignoff,
     uaf |-> conf.uaf, v |-> NAN, u |-> NAN, upd |-> 0, scale |-> 0,
     mn |-> 0, mx |-> 0, bad |-> FALSE, hot |-> FALSE, fl |-> FALSE,
     lo |-> FALSE, hi |-> FALSE, wa |-> FALSE, avail |-> TRUE, func |-> TRUE,
     miss |-> FALSE]

\* the sensor as it starts out, from what is published at that moment
StartSensor(conf, world, now, var) ==
    LET s0 == BlankSensor(conf)
    IN CASE s0.kind = "pas" /\ WHas(world, conf.rp, IValue) ->
              LET g(p) == WGet(world, conf.rp, IValue, p, 0)
                  sc == IF WHasP(world, conf.rp, IValue, "Scale")
                        THEN g("Scale") \div U ELSE 0
                  lo == WGet(world, conf.rp, ICrit, "CriticalAlarmLow", FALSE)
                  hi == WGet(world, conf.rp, ICrit, "CriticalAlarmHigh", FALSE)
                  wa == var.unc /\ WGet(world, conf.rp, IWarn, "WarningAlarmHigh", FALSE)
              IN Reading([s0 EXCEPT
                            !.scale = sc,
                            !.mn = IF conf.ignmm THEN 0 ELSE FScale(g("MinValue"), sc),
                            !.mx = IF conf.ignmm THEN 0 ELSE FScale(g("MaxValue"), sc),
                            !.lo = lo, !.hi = hi, !.wa = wa,
                            !.fl = lo \/ hi \/ wa,
                            !.avail = WGet(world, conf.rp, IAvail, "Available", TRUE),
                            !.func = WGet(world, conf.rp, IOper, "Functional", TRUE)],
                         g("Value"), TRUE, now)
         [] s0.kind = "pas" ->      \* only with the missing-object option
              [s0 EXCEPT !.miss = TRUE, !.fl = TRUE, !.bad = TRUE, !.avail = FALSE,
                         !.uaf = TRUE, !.upd = now]
         [] s0.kind = "ext" -> [s0 EXCEPT !.v = 0, !.u = 0, !.upd = now]
         [] OTHER -> s0

\* A PropertiesChanged signal on the sensor's own path.  props: prop -> [s, v]
SensorSignal(s, iface, props, now, var) ==
    LET is(p) == p \in DOMAIN props
        val(p) == props[p].v
    IN CASE s.kind # "pas" -> s
         [] iface = IValue /\ is("Value") -> Reading(s, val("Value"), FALSE, now)
         [] iface = ICrit /\ (is("CriticalAlarmLow") \/ is("CriticalAlarmHigh")) ->
              LET l == is("CriticalAlarmLow") /\ val("CriticalAlarmLow")
                  h == is("CriticalAlarmHigh") /\ val("CriticalAlarmHigh")
              IN [s EXCEPT !.fl = l \/ h,
                           !.lo = IF is("CriticalAlarmLow") THEN val("CriticalAlarmLow") ELSE s.lo,
                           !.hi = IF is("CriticalAlarmHigh") THEN val("CriticalAlarmHigh") ELSE s.hi]
         [] iface = IWarn /\ var.unc /\ is("WarningAlarmHigh") ->
              [s EXCEPT !.fl = val("WarningAlarmHigh"), !.wa = val("WarningAlarmHigh")]
         [] iface = IAvail /\ is("Available") ->
              IF val("Available") THEN [s EXCEPT !.avail = TRUE]
              ELSE Reading([s EXCEPT !.avail = FALSE], NAN, TRUE, now)
         [] iface = IOper /\ is("Functional") -> [s EXCEPT !.func = val("Functional")]
         [] OTHER -> s

\* The alarm flag has lost an alarm that is still asserted (known finding).
AlarmLost(s) == ~s.fl /\ (s.lo \/ s.hi \/ s.wa)

(* Verdict on a sensor: whether it counts as failed at a sample, and the    *)
(* failsafe messages the verdict emits.                                     *)
Verdict(s, redundant, hostOn) ==
    CASE s.kind = "ext" ->
           IF IsFin(s.v) \/ (s.ign /\ ~hostOn) THEN [f |-> FALSE, msg |-> <<>>]
           ELSE [f |-> TRUE, msg |-> <<<<TRUE, "The sensor has invalid readings.">>>>]
      [] s.kind = "pas" ->
           LET excused == s.ign /\ ~hostOn
               bad(m) == [f |-> ~excused, msg |-> <<<<TRUE, m>>>>]
           IN CASE s.fan /\ redundant -> bad("The sensor path is marked redundant.")
                [] s.miss -> bad("The sensor D-Bus object is missing.")
                [] ~s.fan /\ ~s.avail /\ ~s.uaf -> [f |-> FALSE, msg |-> <<>>]
                [] s.bad -> bad("The sensor has bad readings.")
                [] s.hot -> bad("The sensor has no thermal margin left.")
                [] s.fl -> bad("The sensor has failed with a critical issue.")
                [] ~s.avail -> bad("The sensor is unavailable.")
                [] ~s.func -> bad("The sensor is not functional.")
                [] OTHER -> [f |-> FALSE, msg |-> <<<<FALSE, "The sensor has recovered.">>>>]
      [] s.kind = "wo" -> [f |-> ~s.fan, msg |-> <<>>]      \* without a read path
      [] OTHER -> [f |-> FALSE, msg |-> <<>>]

\* The same verdict stated declaratively (checked equivalent by model checking,
\* except where an alarm was lost).
DeclFailed(s, redundant, hostOn) ==
    /\ ~(s.ign /\ ~hostOn)
    /\ CASE s.kind = "ext" -> ~IsFin(s.v)
         [] s.kind = "pas" ->
              \/ s.fan /\ redundant
              \/ s.miss
              \/ /\ ~(~s.fan /\ ~s.avail /\ ~s.uaf)
                 /\ s.bad \/ s.hot \/ s.lo \/ s.hi \/ s.wa \/ ~s.avail \/ ~s.func
         [] s.kind = "wo" -> ~s.fan
         [] OTHER -> FALSE

TimedOut(s, upd, now) == s.tmo # 0 /\ (now - upd) \div 1000 >= s.tmo
===========================================================================
