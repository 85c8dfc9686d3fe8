#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=hook)))

p("C01","Fan output never drops below the failsafe duty while a zone is in failsafe",
  "Whenever a zone in automatic mode commands its fans while at least one of its sensors counts as failed, the commanded duty is at least the zone's effective failsafe duty, which is the largest failsafe percentage that applies to any failing sensor (a sensor uses the largest percentage configured by the controllers that read it, or the zone's own percentage when none is configured). By default a higher computed duty is kept; with the strict build option the duty is exactly the failsafe duty; outside failsafe the computed duty is used unchanged.",
  ["inputs","histories","configurations"],
  "All controller outputs, all sets of failing sensors, all combinations of per-controller and zone percentages, all histories of sensors failing and recovering, both settings of the strict option.",
  "The fan controller tests drive one output call against a mocked zone with a fixed percentage; the percentage selection lives in zone code that is not built by the test suite here, and no test runs the daemon through failure and recovery.",
  ["pid/fancontroller.cpp","pid/zone.cpp","pid/zone.hpp","pid/builder.cpp"],
  [("outputProc floor","pid/fancontroller.cpp"),("getFailSafePercent maximum","pid/zone.cpp"),("addPidFailSafePercent maximum per sensor","pid/zone.cpp")],
  [("failing sensor set","which sensors hold the zone in failsafe and with what percentage","pid/zone.hpp")],
  ["PWM value written to the fan (D-Bus Target property or sysfs file)"])
p("C02","A zone is in failsafe exactly while one of its sensors counts as failed",
  "After every sampling pass a zone reports failsafe exactly when some sensor it samples, not declared acceptable-when-missing, was failed or timed out at the last sample of that sensor. Every sensor starts out counted as failed when the control loop starts and stops counting at its first good sample; recovery of the last failing sensor ends failsafe, and failure of any one starts it.",
  ["histories","inputs","configurations"],
  "All interleavings of failures, recoveries, timeouts and samples over all fan and thermal sensors of a zone, including sensors read by several controllers and any choice of acceptable-when-missing sensors.",
  "It is a property of unbounded histories of a set of sensors; existing zone tests are not buildable here and upstream only samples two or three single steps.",
  ["pid/zone.hpp","pid/zone.cpp"],
  [("processSensorInputs mark/erase","pid/zone.hpp"),("initializeCache marks everything missing","pid/zone.cpp"),("missing-acceptable filter","pid/zone.cpp")],
  [("failing sensor set","sensors presently counted as failed","pid/zone.hpp")],
  ["FailSafe property of the zone's D-Bus object","failsafe column of the zone log"])
p("C03","Health of a D-Bus sensor follows its latest published state",
  "A sensor read from D-Bus counts as failed exactly when its latest reading was not a finite number, or it is a margin sensor whose latest reading is zero or negative, or one of its critical alarms is asserted (with the corresponding build option also the upper warning alarm), or it is unavailable, or it is not functional. A non-fan sensor that is unavailable and configured as unavailable-is-not-failure never counts as failed, and going unavailable discards the reading so that no stale value is used. A non-finite update leaves the last good reading in place, and good news about one condition never hides another condition that still holds.",
  ["histories","inputs","configurations"],
  "All sequences of property-change signals over value, alarms, availability and functional state, for every sensor type and both settings of the availability option, and every initial state found when the sensor is created.",
  "The D-Bus sensor tests cannot be built here and upstream they inject single messages; orderings of several signals are never exercised.",
  ["dbus/dbuspassive.cpp","dbus/dbushelper.cpp"],
  [("handleSensorValue dispatch","dbus/dbuspassive.cpp"),("getFailed order","dbus/dbuspassive.cpp"),("initial property fetch","dbus/dbushelper.cpp")],
  [("per-sensor flags","bad reading, margin hot, failed, available, functional","dbus/dbuspassive.hpp")],
  ["zone FailSafe property","failing sensor list","cached sensor reading used by controllers"])
p("C04","A sensor that stops updating counts as failed once its timeout elapses",
  "A sensor with a non-zero timeout of T seconds counts as failed at every sample taken when its last accepted reading is T or more whole seconds old, and never for that reason earlier; a new reading clears this at the next sample. A timeout of zero never expires, and the default timeout is zero for fans and two seconds for every other sensor type.",
  ["schedules","histories","configurations"],
  "All timeouts, all update instants relative to sampling instants (to the millisecond), sensors of every kind whose reading carries an update time.",
  "Needs control of the clock relative to update and sampling instants; the tests use the real clock and check at most one instant.",
  ["pid/zone.hpp","sensors/sensor.hpp","dbus/dbuspassive.cpp","sensors/host.cpp"],
  [("timeout comparison","pid/zone.hpp"),("update timestamps","dbus/dbuspassive.cpp"),("default timeout","sensors/sensor.hpp")],
  [],["zone FailSafe property at each sampling pass"])
p("C05","A zone's set point is the arbitration of all its thermal demands",
  "After each thermal pass the zone's set point is the largest demand of its enabled non-ceiling thermal controllers (negative demands count as none), reduced to the lowest ceiling demanded when that is smaller, and never below the zone's configured minimum. When the zone is configured to accumulate, demands of controllers with the same profile (the name after the first underscore) are first added together and the largest sum is used. The zone names the controller or profile responsible, or Ceiling or Minimum when one of those decided.",
  ["inputs","configurations","histories"],
  "Any number of thermal and stepwise controllers with any outputs, any ceilings, any minimum, accumulation on or off, any subset disabled, over any sequence of passes.",
  "Upstream tests feed two or three hand-picked set points into a zone that cannot even be built here; combinations with ceilings, accumulation, minimum and stale values from earlier passes are not covered.",
  ["pid/zone.cpp","pid/pidloop.cpp","pid/stepwisecontroller.cpp","pid/thermalcontroller.cpp"],
  [("addSetPoint","pid/zone.cpp"),("determineMaxSetPointRequest","pid/zone.cpp"),("clear before each pass","pid/pidloop.cpp")],
  [("maximum set point","arbitrated set point and its owner","pid/zone.hpp")],
  ["set point handed to fan controllers","Leader property of the zone object","setpt/requester columns of the zone log"])
p("C06","Each PID controller computes the documented control law",
  "A PID evaluation yields proportional plus clamped integral plus derivative plus feed-forward terms computed from the set point, the input, the previous error and the configured coefficients and sample period, clamped to the output limits. From the second evaluation on the result is limited to change per evaluation by no more than the configured rising and falling slew rates times the sample period (zero meaning unlimited), and when slew limits are configured the integral is re-derived from the limited output. The stored integral always stays within its configured limits.",
  ["inputs","histories","configurations"],
  "All coefficient sets (including zero integral coefficient, zero or non-zero derivative, either or both slew limits), all input sequences.",
  "The control law is a recurrence over unbounded histories; there is no test of it at all in the suite that builds here, upstream only samples that controllers call it.",
  ["pid/ec/pid.cpp","pid/pidcontroller.cpp","pid/util.cpp"],
  [("pid()","pid/ec/pid.cpp"),("initializePIDStruct","pid/util.cpp")],
  [("pid_info_t","integral, last error, last output","pid/ec/pid.hpp")],
  ["Output property of thermal controllers","commanded PWM"])
p("C07","Hysteresis suppresses small input changes and nothing else",
  "With hysteresis configured, a thermal PID, fan PID or stepwise controller keeps using the last input it adopted until a new input exceeds it by strictly more than the rising band or falls below it by strictly more than the falling band, at which point the new input is adopted; without hysteresis every input is used. A controller set to check hysteresis against its set point computes normally above set point plus rising band, outputs zero with a cleared integral below set point minus falling band, and repeats its previous output in between.",
  ["histories","inputs","configurations"],
  "All input sequences, including exact equality with a band edge, drift made of many small steps, and non-finite inputs at start, for both modes and all controller kinds.",
  "It is a history property; tests exercise at most a couple of fixed steps and only through mocks.",
  ["pid/pidcontroller.cpp","pid/stepwisecontroller.cpp"],
  [("calPIDOutput","pid/pidcontroller.cpp"),("StepwiseController::process","pid/stepwisecontroller.cpp")],
  [("lastInput","input adopted last","pid/pidcontroller.hpp")],
  ["Output property of thermal controllers","zone set point","commanded PWM"])
p("C08","A stepwise controller outputs the table entry selected by its input",
  "A stepwise controller's demand is the output of the last table point whose reading does not exceed the controller's input, or the first output when the input is below every reading, for tables of one to twenty points. Its input is the largest of its sensors' current readings, ignoring readings that are not numbers. A table flagged as ceiling limits the zone's set point instead of demanding one.",
  ["inputs","configurations"],
  "All tables with non-decreasing readings of any length up to twenty, all inputs including exact equality with a table reading, any number of sensors some of which have no reading.",
  "Existing tests look up a handful of inputs in one five-point table and never a full-length one through the running loop.",
  ["pid/ec/stepwise.cpp","pid/stepwisecontroller.cpp","pid/buildjson.cpp","dbus/dbusconfiguration.cpp"],
  [("stepwise lookup","pid/ec/stepwise.cpp"),("inputProc/outputProc","pid/stepwisecontroller.cpp")],
  [],["zone set point","Leader property"])
p("C09","A thermal PID acts on the worst valid reading of its sensors",
  "The input of a thermal PID is the smallest reading for a margin controller, the largest for a temperature or power controller and the sum for a power-sum controller, taken over exactly those of its sensors whose current reading is finite. Where a sensor of a margin controller is configured with a temperature-to-margin reference, its reading is first replaced by reference minus reading. When no reading is finite the controller uses its own set point as input, so that it acts on zero error.",
  ["inputs","configurations","histories"],
  "Any number of sensors, any mixture of finite, NaN and infinite readings, negative readings, any subset with conversions, all four controller classes.",
  "The mocked tests use one to three fixed readings per case; mixtures with conversions and invalid readings in each position are not reached.",
  ["pid/thermalcontroller.cpp","util.cpp"],
  [("inputProc","pid/thermalcontroller.cpp"),("spliceInputs","util.cpp")],
  [],["Input and Output properties of thermal controllers"])
p("C10","A fan PID chases the zone set point using its slowest turning fan",
  "On every cycle a fan PID takes the zone's current set point as its target and, as input, the smallest raw (unnormalised) speed among its fans that is finite and greater than zero, or zero when there is none. Its result is commanded to every fan it lists, once per cycle in automatic mode.",
  ["inputs","histories","configurations"],
  "Any number of fans per PID and PIDs per zone, any mix of stopped, negative, non-finite and spinning fans, fans with and without value ranges, all set point sequences.",
  "Mocked tests cover a few fixed speed vectors for a single controller.",
  ["pid/fancontroller.cpp","pid/zone.cpp"],
  [("inputProc minimum","pid/fancontroller.cpp"),("setptProc","pid/fancontroller.cpp"),("outputProc loop over inputs","pid/fancontroller.cpp")],
  [],["PWM writes per fan and cycle"])
p("C11","Manual mode hands the fans over, automatic mode takes them back",
  "While a zone is in manual mode the daemon commands none of that zone's fans and its control loop neither samples nor computes, while other zones are unaffected. When the zone returns to automatic mode, the next cycle rewrites every fan of the zone even if the computed value equals the last one commanded, and later cycles go back to suppressing repeats. The Manual property reads back the mode last set.",
  ["histories","schedules"],
  "All sequences of mode changes and cycles, mode changes at any instant, several zones, including setting the mode it already has.",
  "Needs the loop, the D-Bus property and the writers together over time; the only related tests are not buildable here and check a flag.",
  ["pid/zone.cpp","pid/pidloop.cpp","pid/fancontroller.cpp","dbus/dbuswrite.cpp"],
  [("setManualMode/redundantWrite","pid/zone.cpp"),("manual check in loop","pid/pidloop.cpp"),("force flag of writers","dbus/dbuswrite.cpp")],
  [("manual flag and one-shot rewrite flag","","pid/zone.hpp")],
  ["PWM writes","Manual property"])
p("C12","Fan and thermal work runs at the configured cadence without drift",
  "Each zone runs its fan work every configured fan interval (100 ms by default) counted from the previous due time, not from when the work finished, and runs thermal work once at start and then whenever the accumulated fan intervals have reached the thermal interval (1000 ms by default), carrying any remainder over. Within a cycle that runs both, thermal work comes before fan commands, and each zone keeps its own cadence.",
  ["schedules","configurations","histories"],
  "All interval pairs including non-multiples and thermal shorter than fan, all numbers of zones, late wake-ups, manual-mode pauses.",
  "The loop is an unbounded timer recurrence that no test runs.",
  ["pid/pidloop.cpp","pid/zone.cpp","pid/buildjson.cpp","dbus/dbusconfiguration.cpp"],
  [("pidControlLoop","pid/pidloop.cpp")],
  [("cycleCnt","milliseconds accumulated towards the next thermal pass","pid/pidloop.cpp")],
  ["wake-up instants of the event loop","instants of sensor sampling and of PWM writes"])
p("C13","The value written to a fan is the duty scaled to its range, once per change",
  "For a duty of d percent a fan with a configured maximum above zero is written the integer part of min + d/100 x (max - min), and a fan without one the integer part of d/100, to exactly the configured path and nothing else. A D-Bus fan is written only when that integer differs from the last one commanded to it or a rewrite is forced; a sysfs fan is written every cycle. A failing write is logged and never stops the loop, and counts as commanded.",
  ["inputs","histories","fault_sequences","configurations"],
  "All duties, ranges (including reversed-looking and high-resolution ones), all sequences of duties and forced rewrites, all patterns of failing write calls.",
  "Writer tests are not buildable here except sysfs stand-ins and never combine suppression, forcing and faults.",
  ["dbus/dbuswrite.cpp","sysfs/sysfswrite.cpp","sensors/builder.cpp","sensors/pluggable.cpp"],
  [("DbusWritePercent::write","dbus/dbuswrite.cpp"),("DbusWrite::write","dbus/dbuswrite.cpp"),("SysFsWrite*","sysfs/sysfswrite.cpp")],
  [("oldValue","last integer commanded","dbus/dbuswrite.hpp")],
  ["D-Bus Set calls on the Target property","sysfs file writes"])
p("C14","A JSON configuration is run as written, with documented defaults, or refused",
  "A JSON configuration file that lacks a non-empty sensor list or a zone list, or has a zone without PIDs, or a PID or sensor without a mandatory field, makes the daemon exit with failure before controlling anything. Otherwise the daemon runs exactly the sensors, zones and controllers the file describes, every optional field that is absent taking its documented default (among them the write path, range, timeout, availability and host-off options of sensors; derivative, hysteresis, failsafe percentage, conversion and missing-acceptable lists of controllers; intervals and accumulation of zones).",
  ["configurations","inputs"],
  "All configurations of any number of sensors, zones and controllers with every subset of optional fields present or absent and every mandatory field removed in turn.",
  "JSON tests parse a few fixed documents and compare some struct fields; they never run what was parsed.",
  ["buildjson/buildjson.cpp","sensors/buildjson.cpp","pid/buildjson.cpp","pid/builder.cpp","sensors/builder.cpp","main.cpp"],
  [("validateJson","buildjson/buildjson.cpp"),("from_json SensorConfig","sensors/buildjson.cpp"),("from_json ControllerInfo","pid/buildjson.cpp")],
  [],["process exit status","objects published on D-Bus","run-time behaviour of the loop"])
p("C15","Configuration read from D-Bus yields the zones, fans and loops it describes",
  "Without a JSON file the daemon builds, from the PID, stepwise, fan and zone objects published on D-Bus, exactly one loop per described controller whose profile is selected (or which names no profile), in the zones they name, with the described parameters, each zone having one distinct index and keeping a requested index when it is free. A fan input is driven through its single configured output or, with several outputs, through the one in the same position. A controller with a set point offset is split into one loop per sensor, each using its own sensor's current threshold of the named kind as the set point; a description it cannot use makes it wait or retry rather than run a partial configuration.",
  ["configurations","histories"],
  "All sets of published configuration objects, any number of zones, profiles, name prefixes, outputs per fan loop, thresholds and set point offsets, and re-reads after changes.",
  "There is no test for this translation beyond two index helper functions that are not built here.",
  ["dbus/dbusconfiguration.cpp","dbus/dbusutil.cpp"],
  [("init","dbus/dbusconfiguration.cpp"),("setZoneIndex/getZoneIndex","dbus/dbusutil.cpp"),("findSensors","dbus/dbusutil.cpp")],
  [],["zone and controller objects published","run-time behaviour of the loop"])
p("C16","Reload and termination are orderly: one loop per zone, nothing lost or doubled",
  "At most one control loop per zone is ever active. A hang-up signal (debounced by one second) or a relevant change of the D-Bus configuration (debounced by two seconds) stops the running loops and starts the new configuration from a fresh failsafe state, retrying every ten seconds when starting it fails; a termination signal stops all loops and ends the process with success, and no fan is commanded by a stopped loop afterwards. With the corresponding build option every fan of a stopped zone is left at its failsafe duty.",
  ["schedules","histories","fault_sequences"],
  "Signals at any instant relative to loop timers, repeated and overlapping signals, configuration changes between reloads, build failures during reload, any number of zones.",
  "No test starts the daemon; the shutdown and retry handshake depends on pending timer handlers.",
  ["main.cpp","pid/pidloop.cpp","pid/fancontroller.cpp","dbus/dbusconfiguration.cpp"],
  [("stopControlLoops/restartControlLoops/try*","main.cpp"),("signalHandler","main.cpp"),("eventHandler","dbus/dbusconfiguration.cpp")],
  [("isCanceling, zones, timers","lifecycle state","main.cpp")],
  ["process exit status","PWM writes","published objects","wake-up instants"])
p("C17","Failsafe messages are rate limited and not repeated within a state",
  "Per zone, at most twenty failsafe messages are recorded within any second. Each message carries the failsafe state it reports; while the reported state stays the same, a message with the same location and reason is emitted at most once, and a change of the reported state makes every message eligible again. A message that reports failsafe is emitted whenever it is eligible and within the rate, one that reports no failsafe only when the reported state has just changed.",
  ["histories","schedules"],
  "All sequences of events over locations, reasons, states and instants.",
  "The rate limiter is a sliding window over time and history; its tests use a few fixed sequences and are not built here.",
  ["failsafeloggers/failsafe_logger.cpp","failsafeloggers/failsafe_logger_utility.hpp","failsafeloggers/builder.cpp"],
  [("outputFailsafeLog","failsafeloggers/failsafe_logger.cpp")],
  [("window and seen set","","failsafeloggers/failsafe_logger.hpp")],
  ["standard error"])
p("C18","IPMI requests read and set exactly the addressed zone's mode",
  "The manual-control OEM command accepts get-manual, set-manual and get-failsafe requests that are long enough for the request, applies them to the zone whose number is in the request (all 256 values) and no other, and returns one byte with the zone's current state for the get requests. A short request, an unknown sub-command, a get request for an unknown zone or a failing D-Bus call yields an error completion code and changes nothing; a set request for an unknown zone changes nothing either (it is sent without waiting for an answer).",
  ["inputs","fault_sequences"],
  "All request bytes and lengths, all zone numbers, present and absent zones, D-Bus failures.",
  "The IPMI tests mock the zone control and are not built here, so the byte-to-object mapping end to end is never exercised.",
  ["ipmi/manualcmds.cpp","ipmi/dbus_mode.cpp","ipmi/main_ipmi.cpp"],
  [("manualModeControl","ipmi/manualcmds.cpp"),("DbusZoneControl","ipmi/dbus_mode.cpp")],
  [],["IPMI reply","Manual property of every zone"])
p("C19","Zones are independent of each other",
  "What happens in one zone - failing sensors, manual mode, disabled controllers, set points, intervals - changes neither the failsafe status, set point, mode nor fan commands of any other zone; sensors shared by several zones affect each of them by that zone's own settings only. Each fan of each zone keeps being controlled whatever the number and numbering of zones.",
  ["histories","configurations"],
  "All multi-zone configurations with disjoint or shared sensors and arbitrary zone numbers, all histories of events in other zones.",
  "Every existing test instantiates at most one zone.",
  ["pid/zone.cpp","pid/builder.cpp","pid/pidloop.cpp","main.cpp","failsafeloggers/failsafe_logger_utility.hpp"],
  [("per-zone state","pid/zone.hpp"),("buildZones","pid/builder.cpp")],
  [],["FailSafe, Leader and Manual properties and PWM writes of the untouched zone"])
p("C20","A disabled controller has no say and an enabled one always has",
  "While the enable property of a thermal or stepwise controller is false its demand does not take part in the zone's set point, and from the first thermal pass after it is set true again it does; every controller starts enabled. Disabling a controller neither stops its sensors from putting the zone into failsafe nor its own computation from continuing, and affects no other controller.",
  ["histories","configurations"],
  "All sequences of enable and disable over all controllers interleaved with passes and sensor events, with accumulation on and off.",
  "One upstream test (not built here) flips one flag once.",
  ["pid/zone.cpp","pid/builder.cpp"],
  [("isPidProcessEnabled in addSetPoint","pid/zone.cpp")],
  [("Enable objects","per-controller enable property","pid/zone.hpp")],
  ["zone set point and Leader","Output property of the controller"])
p("C21","Failures excused while the host is off count again when it is on",
  "A sensor configured to ignore failures while the host is off does not count as failed while the host is not running, and counts by the ordinary rules from the first sample after the host reports running; sensors not so configured are unaffected by the host state. The host counts as running exactly when its latest published state ends in Running, and as off when that state cannot be read.",
  ["histories","configurations","fault_sequences"],
  "All interleavings of host state changes with sensor failures and samples, all host state strings, unreadable state at start, every sensor kind that takes the option.",
  "Tests mock the reader and the host state singleton; the monitor is not exercised with the loop.",
  ["sensors/pluggable.cpp","sensors/host.cpp","sensors/builder.cpp","hoststatemonitor.hpp"],
  [("PluggableSensor::getFailed","sensors/pluggable.cpp"),("HostStateMonitor","hoststatemonitor.hpp")],
  [("power status","","hoststatemonitor.hpp")],
  ["zone FailSafe property"])
p("C22","Externally written sensors carry exactly what was written and when",
  "A sensor whose read path is under the external-sensor namespace is published as a writable value that starts at zero; controllers use the value last written to it, its age counts from the instant of that write (even of an equal value), and it counts as failed while the written value is not finite. Its published value always equals the value in use.",
  ["histories","schedules","inputs"],
  "All sequences of writes of any value at any instants, for all non-fan sensor types and timeouts.",
  "The host sensor tests are not built here and check one write.",
  ["sensors/host.cpp","sensors/builder.cpp"],
  [("HostSensor::value/read/getFailed","sensors/host.cpp")],
  [],["Value property","cached reading","zone FailSafe property"])
p("C23","Published telemetry tells the truth about the last cycle",
  "After each thermal pass the debug object of every thermal PID shows the output just computed and, when a reading decided its input, that input and the sensor that decided it, together with its class and set point; the zone object names the arbitration winner. With logging enabled, each automatic cycle appends one line carrying the time, the set point and requester in force before the cycle, each fan's reading and last command, each thermal reading and the failsafe state, under a header naming the columns in that order.",
  ["histories","configurations"],
  "All histories of readings and modes, all numbers of fans and sensors, logging on or off, several zones.",
  "No test reads the log or the debug objects.",
  ["pid/zone.cpp","pid/zone.hpp","pid/pidloop.cpp","pid/thermalcontroller.cpp","pid/fancontroller.cpp"],
  [("updateThermalPowerDebugInterface","pid/zone.cpp"),("initializeLog/updateFanTelemetry","pid/zone.cpp")],
  [],["Debug.Pid.ThermalPower and Debug.Pid.Zone properties","zone_N.log"])
p("C24","The core PID log records every change and at least one line per minute",
  "With core logging enabled, each PID (identified by its name reduced to letters and digits) gets one context log and one coefficient log; the coefficients are written once per start of that PID, and a context line is appended at the first evaluation, whenever any term differs from the previous line, and after sixty seconds without a line, and not otherwise. Two PIDs whose reduced names collide, or a PID without a usable name, run unlogged; logging never changes what is commanded.",
  ["histories","schedules","configurations"],
  "All name sets, all evaluation histories and instants, restarts.",
  "There is no test of core logging.",
  ["pid/ec/logging.cpp","pid/ec/pid.cpp"],
  [("LogInit/LogContext","pid/ec/logging.cpp")],
  [("nameToLog","","pid/ec/logging.cpp")],
  ["pidcore.* and pidcoeffs.* files"])
p("C25","Tuning mode lets setpoint files and no failsafe decide",
  "With tuning enabled, by option or by the tuning file, a number above 100 in the common set point file replaces the zone's arbitrated set point at each thermal pass and a number above 100 in the zone's own file takes precedence over it; any other content or a missing file leaves the set point as it was. With tuning enabled the computed duty is commanded even in failsafe; with tuning disabled the files have no influence.",
  ["inputs","configurations","histories"],
  "All file contents and combinations of the two files appearing, changing and disappearing, several zones, failsafe or not.",
  "File driven behaviour of the running loop with fixed paths that no test touches.",
  ["pid/zone.cpp","pid/fancontroller.cpp","main.cpp"],
  [("fileParseRpm and determineMaxSetPointRequest","pid/zone.cpp"),("tuning bypass","pid/fancontroller.cpp")],
  [],["set point handed to fans","PWM writes"])
p("C26","Sensor readings reach controllers with the right scale",
  "A D-Bus reading is multiplied by ten to the power of its published scale and, when the sensor publishes a positive maximum above its minimum and is not told to ignore them, normalised to (value - min)/(max - min); otherwise it is used as is. Fan controllers always use the reading before normalisation. A sysfs reading is the integer in the file.",
  ["inputs","configurations"],
  "All values, scales, ranges, both settings of the ignore option, updates by signal and initial values.",
  "Tests sample one or two values of one scale.",
  ["dbus/dbuspassive.cpp","dbus/dbusutil.cpp","dbus/dbushelper.cpp","sysfs/sysfsread.cpp"],
  [("updateValue","dbus/dbuspassive.cpp"),("scaleSensorReading","dbus/dbusutil.cpp")],
  [],["cached readings (scaled and unscaled)"])
p("C27","A failed fan redundancy group fails its member fans until it recovers",
  "Every fan read from D-Bus whose path is a member of a redundancy group that reported a failed status, at start or by its latest status change, counts as failed whatever its own state, and stops counting for this reason when that group reports any other status. Non-fan sensors are never affected by redundancy groups, and groups that cannot be read change nothing.",
  ["histories","fault_sequences","configurations"],
  "All sequences of status changes of any number of groups, with common members or not, groups present at start, read errors during start and updates.",
  "The redundancy tests do not exist in the suite; the object is built only with a live bus.",
  ["dbus/dbuspassiveredundancy.cpp","dbus/dbuspassive.cpp","sensors/builder.cpp"],
  [("match handler and populateFailures","dbus/dbuspassiveredundancy.cpp")],
  [("failed path set","","dbus/dbuspassiveredundancy.hpp")],
  ["zone FailSafe property"])
p("C28","No control starts on a sensor that cannot be read; missing ones are retried",
  "When a sensor or fan output named by the configuration cannot be found or read on D-Bus while starting, no zone is controlled and starting is retried every ten seconds until it succeeds. With the build option for missing object paths, a sensor whose object is absent instead counts as failed from the start while the rest of the zone is controlled.",
  ["fault_sequences","histories","configurations"],
  "All choices of missing or unreadable objects, objects appearing later, errors at each D-Bus call made while starting.",
  "No test starts the daemon against a bus.",
  ["main.cpp","sensors/builder.cpp","dbus/dbuspassive.cpp","dbus/dbuswrite.cpp","dbus/dbushelper.cpp"],
  [("tryRestartControlLoops","main.cpp"),("createDbusPassive","dbus/dbuspassive.cpp"),("createDbusWrite","dbus/dbuswrite.cpp")],
  [],["published zone objects","PWM writes","wake-up instants"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
