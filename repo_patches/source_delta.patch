From 356b63bfdb552e9ac8db98d59b706cc953ff7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 01/17] fix: read zero from a sysfs file that cannot be opened
 or is empty

SysFsRead::read returned an uninitialised integer when the file was missing
or held no number.
---
 sysfs/sysfsread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..8c7e1d1 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -15,7 +15,7 @@ namespace pid_control
 
 ReadReturn SysFsRead::read(void)
 {
-    int64_t value;
+    int64_t value = 0;
     std::ifstream ifs;
 
     ifs.open(_path);
-- 
2.43.0


From 734b64450889afec71e271c85a8a6e26f8ff951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 02/17] fix: ignore an empty set point file in tuning mode

Extraction at end of file leaves the integer untouched, so an empty file
(or a directory) could replace the set point by stack garbage.
---
 pid/zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..a12f099 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -294,7 +294,7 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
+            int value = 0;
             ifs >> value;
 
             if (value <= 0)
-- 
2.43.0


From 740fc74ce12d4ee551e7261ae5d0ceb9fde0d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 03/17] fix: address zones 128 to 255 over IPMI

The zone number of the request was converted to a signed byte, so the path
of zones above 127 came out with a negative number.
---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From 356c5095ab1ae05a2df41b6b0ee870079b827520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 04/17] fix: honour ignoreFailIfHostOff for external sensors

The option was parsed and HostSensor supports it, but the builder did not
pass it on.
---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From 26992979c64f82b77b1e624b0ecd67fd194540b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 05/17] fix: refuse a controller without inputs instead of
 crashing

The controllers' factories return a null pointer for an empty input list,
which was added to the zone and dereferenced by the control loop.
---
 pid/builder.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 6de7bcc..a0211aa 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -92,6 +92,10 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
 
                 auto pid = FanController::createFanPid(
                     zone.get(), name, splitNames(inputs), info.pidInfo);
+                if (!pid)
+                {
+                    throw std::runtime_error("No inputs for PID " + name);
+                }
                 zone->addFanPID(std::move(pid));
                 zone->addPidFailSafePercent(splitNames(inputs),
                                             info.failSafePercent);
@@ -107,7 +111,10 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
                 auto pid = ThermalController::createThermalPid(
                     zone.get(), name, inputs, info.setpoint, info.pidInfo,
                     getThermalType(info.type));
-
+                if (!pid)
+                {
+                    throw std::runtime_error("No inputs for PID " + name);
+                }
                 zone->addThermalPID(std::move(pid));
                 zone->addPidControlProcess(
                     name, info.type, info.setpoint, modeControlBus,
@@ -124,6 +131,10 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
                 }
                 auto stepwise = StepwiseController::createStepwiseController(
                     zone.get(), name, splitNames(inputs), info.stepwiseInfo);
+                if (!stepwise)
+                {
+                    throw std::runtime_error("No inputs for PID " + name);
+                }
                 zone->addThermalPID(std::move(stepwise));
                 zone->addPidControlProcess(
                     name, info.type, info.setpoint, modeControlBus,
-- 
2.43.0


From 3568186f6ce58b3712bd6851d756adbe22127cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 06/17] fix: treat a negative cycle interval as invalid

A negative number was converted to a huge unsigned interval and accepted;
like zero it is invalid and the default applies.
---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..c9c908d 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -167,7 +167,7 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     auto findAttributeName = zone.find(attributeName);
     if (findAttributeName != zone.end())
     {
-        uint64_t tmpAttributeValue = 0;
+        int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
         if (tmpAttributeValue >= 1)
         {
-- 
2.43.0


From 0b58d15341f8477d1694fcd67a221a225a20118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 07/17] fix: keep the fraction of configured failsafe
 percentages

The percentages are doubles in the configuration and in use, but were
truncated to integers while being parsed (62.5 became 62).
---
 dbus/dbusconfiguration.cpp | 4 ++--
 pid/buildjson.cpp          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..e130eeb 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -345,7 +345,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0.0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -672,7 +672,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0.0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index c9c908d..c2aa57c 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -84,7 +84,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From 334fe5242d046a9d247ab83fc0d86484a4b082c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 08/17] fix: apply MissingIsAcceptable of fan controllers read
 from D-Bus

The inputs of a fan controller are named after the fan and its PWM, the
acceptable list after the fan alone, so the option never took effect.
---
 dbus/dbusconfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e130eeb..121ab4b 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -969,6 +969,12 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                         pwmSensorName = getSensorNameFromPath(pwmPath);
                         std::string fanPwmIndex = fanSensorName + pwmSensorName;
                         archivedInputSensorNames.push_back(fanPwmIndex);
+                        // The list names fans, but inputs are known by index
+                        if (std::ranges::contains(missingAcceptableSensorNames,
+                                                  fanSensorName))
+                        {
+                            missingAcceptableSensorNames.push_back(fanPwmIndex);
+                        }
                         auto& fanConfig = sensorConfig[fanPwmIndex];
                         fanConfig.type = pidClass;
                         fanConfig.readPath = fanPath;
-- 
2.43.0


From 5a2ccf0c2e598f890178701581eb7a331fc50f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 09/17] fix: initialise the recorded command of a fan put
 off-line

With the off-line failsafe option the destructor recorded an uninitialised
value for fans whose write interface does not report one.
---
 pid/fancontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/fancontroller.cpp b/pid/fancontroller.cpp
index 288d724..190954a 100644
--- a/pid/fancontroller.cpp
+++ b/pid/fancontroller.cpp
@@ -240,7 +240,7 @@ FanController::~FanController()
     {
         auto sensor = _owner->getSensor(it);
         auto redundantWrite = _owner->getRedundantWrite();
-        int64_t rawWritten;
+        int64_t rawWritten = -1;
         sensor->write(percent, redundantWrite, &rawWritten);
 
         // The outputCache will be used later,
-- 
2.43.0


From 85f3b8dc07776acde4d98e50d4320846ed9d3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 10/17] fix: refuse a JSON configuration without a mandatory
 field

Reading a missing key of a const JSON object through operator[] is undefined
(an assertion at best); at() reports it, and the daemon exits with failure.
---
 pid/buildjson.cpp     | 8 ++++----
 sensors/buildjson.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index c2aa57c..0b175e7 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -203,9 +203,9 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         conf::ZoneConfig thisZoneConfig;
 
         /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -223,7 +223,7 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         auto pids = zone["pids"];
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..1fd0b41 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -111,7 +111,7 @@ std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From b632fcc532b6f7a92f28417c08e6b398ff8a267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 11/17] fix: show the first reading of a power-sum controller
 even when it is zero

The debug object kept the previous input and leader when all readings are
zero, although a reading decided the input.
---
 pid/thermalcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/thermalcontroller.cpp b/pid/thermalcontroller.cpp
index 3083761..ee659c0 100644
--- a/pid/thermalcontroller.cpp
+++ b/pid/thermalcontroller.cpp
@@ -143,7 +143,7 @@ double ThermalController::inputProc(void)
             value = compare(value, cachedValue);
         }
 
-        if (oldValue != value)
+        if (!acceptable || oldValue != value)
         {
             leaderName = in.name;
             _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
-- 
2.43.0


From a9ec6929b35cba921e7c600c48277c2ee0a90244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 12/17] fix: read the initial functional state of D-Bus sensors

---
 dbus/dbushelper.cpp           | 13 +++++++++++++
 dbus/dbushelper.hpp           |  3 +++
 dbus/dbushelper_interface.hpp |  1 +
 dbus/dbuspassive.cpp          |  1 +
 4 files changed, 18 insertions(+)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 53f19bb..41b947a 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -142,6 +142,19 @@ void DbusHelper::getProperties(const std::string& service,
     }
     prop->available = available;
 
+    bool functional = true;
+    try
+    {
+        getProperty(service, path, StateDecoratorOperationalStatus::interface,
+                    StateDecoratorOperationalStatus::property_names::functional,
+                    functional);
+    }
+    catch (const sdbusplus::exception_t& ex)
+    {
+        // unsupported Functional property, leaving it at 'True'
+    }
+    prop->functional = functional;
+
     return;
 }
 
diff --git a/dbus/dbushelper.hpp b/dbus/dbushelper.hpp
index 8fac1a2..41b8a41 100644
--- a/dbus/dbushelper.hpp
+++ b/dbus/dbushelper.hpp
@@ -8,6 +8,7 @@
 #include <xyz/openbmc_project/Sensor/Threshold/Critical/common.hpp>
 #include <xyz/openbmc_project/Sensor/Threshold/Warning/common.hpp>
 #include <xyz/openbmc_project/State/Decorator/Availability/common.hpp>
+#include <xyz/openbmc_project/State/Decorator/OperationalStatus/common.hpp>
 
 #include <string>
 #include <variant>
@@ -18,6 +19,8 @@ using SensorThresholdCritical =
     sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical;
 using StateDecoratorAvailability =
     sdbusplus::common::xyz::openbmc_project::state::decorator::Availability;
+using StateDecoratorOperationalStatus = sdbusplus::common::xyz::
+    openbmc_project::state::decorator::OperationalStatus;
 
 namespace pid_control
 {
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index 2ea6230..c3285d1 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -15,6 +15,7 @@ struct SensorProperties
     std::string unit;
     bool available = false;
     bool unavailableAsFailed = false;
+    bool functional = true;
 };
 
 class DbusHelperInterface
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 016f069..f8c7376 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -333,6 +333,7 @@ void DbusPassive::initFromSettings(const SensorProperties& settings,
     _max = settings.max * std::pow(10.0, _scale);
     _unavailableAsFailed = settings.unavailableAsFailed;
     setAvailableFromProperty(settings.available);
+    _functional = settings.functional;
 
     // Force value to be stored, otherwise member would be uninitialized
     updateValue(settings.value, true);
-- 
2.43.0


From ecb8e89baadd40bee9020604a4a91ed5cc1c82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 13/17] fix: drop the old sensors before building those of a
 new configuration

---
 main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.cpp b/main.cpp
index c924123..5a01d48 100644
--- a/main.cpp
+++ b/main.cpp
@@ -160,6 +160,9 @@ void restartControlLoops()
         }
     }
 
+    // The sensors of the previous configuration have to be gone before the new
+    // ones are built, as both may export the same D-Bus objects.
+    state::mgmr.reset();
     state::mgmr = buildSensors(sensorConfig, passiveBus, hostBus);
     state::zones =
         buildZones(zoneConfig, zoneDetailsConfig, *state::mgmr, modeControlBus);
-- 
2.43.0


From 572fe190044a10b82b878d27dfa2f2656fe22996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 14/17] fix: name the ceiling as leader of a zone that
 accumulates set points

With accumulateSetPoint the name of the deciding profile is replaced by the
names of the controllers of that profile. When a ceiling decided, no
controller's name matches and the zone's leader was left empty.
---
 pid/zone.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index a12f099..515c881 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -336,6 +336,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
 {
     std::vector<double>::iterator result;
     double minThermalThreshold = getMinThermalSetPoint();
+    bool ceilingReached = false;
 
     if (rpmCeilings.size() > 0)
     {
@@ -347,6 +348,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
             _maximumSetPoint = *result;
             // When using lowest ceiling, controller name is ceiling.
             _maximumSetPointName = "Ceiling";
+            ceilingReached = true;
         }
     }
 
@@ -354,7 +356,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
      * Combine the maximum SetPoint Name if the controllers have same profile
      * name. e.g., PID_BB_INLET_TEMP_C + Stepwise_BB_INLET_TEMP_C.
      */
-    if (getAccSetPoint())
+    if (getAccSetPoint() && !ceilingReached)
     {
         auto profileName = _maximumSetPointName;
         _maximumSetPointName = "";
-- 
2.43.0


From 3ed229db5e85f91e1ad61f600ddaada131f1373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 15/17] fix: keep reading redundancy groups after one that
 cannot be read

A group whose properties cannot be read at start ended the search, so the
members of failed groups listed after it did not count as failed.
---
 dbus/dbuspassiveredundancy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bc88728..a43aa6e 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -166,7 +166,7 @@ void DbusPassiveRedundancy::populateFailures(void)
             catch (const sdbusplus::exception_t&)
             {
                 std::cerr << "Populate Failures Mapper Error\n";
-                return;
+                continue;
             }
             std::string status = std::get<std::string>(
                 getAll[ControlFanRedundancy::property_names::status]);
-- 
2.43.0


From d0097afc1d766aa8972ed1dd71756ffd8f67a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 16/17] fix: keep fans failed that belong to another failed
 redundancy group

The members of all failed groups were kept in one set, so the recovery of one
group also cleared members that are in another group that is still failed, and
members dropped from a failed group stayed failed for ever.  Remember which
group each member failed with.
---
 dbus/dbuspassiveredundancy.cpp | 20 ++++++++++++++------
 dbus/dbuspassiveredundancy.hpp |  4 ++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index a43aa6e..f097d31 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -97,15 +97,13 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
               auto data = std::get<std::vector<std::string>>(collection);
               if (status.rfind("Failed") != std::string::npos)
               {
-                  failed.insert(data.begin(), data.end());
+                  failedGroups[message.get_path()] = {data.begin(), data.end()};
               }
               else
               {
-                  for (const auto& d : data)
-                  {
-                      failed.erase(d);
-                  }
+                  failedGroups.erase(message.get_path());
               }
+              updateFailed();
           }),
     passiveBus(bus)
 {
@@ -177,9 +175,19 @@ void DbusPassiveRedundancy::populateFailures(void)
             std::vector<std::string> collection =
                 std::get<std::vector<std::string>>(
                     getAll[ControlFanRedundancy::property_names::collection]);
-            failed.insert(collection.begin(), collection.end());
+            failedGroups[path].insert(collection.begin(), collection.end());
         }
     }
+    updateFailed();
+}
+
+void DbusPassiveRedundancy::updateFailed(void)
+{
+    failed.clear();
+    for (const auto& [_, members] : failedGroups)
+    {
+        failed.insert(members.begin(), members.end());
+    }
 }
 
 const std::set<std::string>& DbusPassiveRedundancy::getFailed()
diff --git a/dbus/dbuspassiveredundancy.hpp b/dbus/dbuspassiveredundancy.hpp
index c900761..9633138 100644
--- a/dbus/dbuspassiveredundancy.hpp
+++ b/dbus/dbuspassiveredundancy.hpp
@@ -19,6 +19,7 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/bus/match.hpp>
 
+#include <map>
 #include <set>
 #include <string>
 
@@ -40,8 +41,11 @@ class DbusPassiveRedundancy
 
   private:
     void populateFailures(void);
+    void updateFailed(void);
 
     sdbusplus::match match;
+    // the members of each group that is failed, by the path of the group
+    std::map<std::string, std::set<std::string>> failedGroups;
     std::set<std::string> failed;
     sdbusplus::bus_t& passiveBus;
 };
-- 
2.43.0


From cdc1d4ef275ba1778fdd32e92a3aa3f664050874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 17/17] fix: a fan without a read path crashed the daemon

The builder gives a sensor whose read path is neither sysfs, D-Bus nor
external a reader whose read() throws. The first fan cycle of a zone that
lists such a fan read it and the exception ended the daemon. Report no
reading instead.
---
 notimpl/writeonly.cpp |  6 ++++--
 notimpl/writeonly.hpp | 21 +++++++++++++++++++--
 sensors/builder.cpp   |  3 ++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/notimpl/writeonly.cpp b/notimpl/writeonly.cpp
index 17113ae..3ff2723 100644
--- a/notimpl/writeonly.cpp
+++ b/notimpl/writeonly.cpp
@@ -5,14 +5,16 @@
 
 #include "interfaces.hpp"
 
-#include <stdexcept>
+#include <chrono>
+#include <limits>
 
 namespace pid_control
 {
 
 ReadReturn WriteOnly::read(void)
 {
-    throw std::runtime_error("Not supported.");
+    return {std::numeric_limits<double>::quiet_NaN(),
+            std::chrono::high_resolution_clock::now()};
 }
 
 } // namespace pid_control
diff --git a/notimpl/writeonly.hpp b/notimpl/writeonly.hpp
index 0561de0..1d0fb76 100644
--- a/notimpl/writeonly.hpp
+++ b/notimpl/writeonly.hpp
@@ -1,17 +1,34 @@
-/* Interface that implements an exception throwing write method. */
+/* Interface of a sensor that has no read path, and thus never a reading. */
 #pragma once
 
 #include "interfaces.hpp"
 
+#include <string>
+
 namespace pid_control
 {
 
 class WriteOnly : public ReadInterface
 {
   public:
-    WriteOnly() : ReadInterface() {}
+    /* @param[in] failed - whether it counts as failed for lack of readings */
+    explicit WriteOnly(bool failed = false) : ReadInterface(), _failed(failed)
+    {}
 
     ReadReturn read(void) override;
+
+    bool getFailed(void) const override
+    {
+        return _failed;
+    }
+
+    std::string getFailReason(void) const override
+    {
+        return "Sensor has no read path";
+    }
+
+  private:
+    const bool _failed;
 };
 
 } // namespace pid_control
diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 7316cd3..215bbe0 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -96,7 +96,8 @@ SensorManager buildSensors(
                 ri = std::make_unique<SysFsRead>(info->readPath);
                 break;
             default:
-                ri = std::make_unique<WriteOnly>();
+                // A fan may do without readings, a thermal sensor may not.
+                ri = std::make_unique<WriteOnly>(info->type != "fan");
                 break;
         }
 
-- 
2.43.0

