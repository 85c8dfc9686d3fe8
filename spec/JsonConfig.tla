----------------------------- MODULE JsonConfig -----------------------------
(***************************************************************************)
(* Meaning of a JSON configuration file.  A JSON value is given tagged:    *)
(*   [k |-> "n", v |-> fixed point]  [k |-> "s", v |-> string]             *)
(*   [k |-> "b", v |-> BOOLEAN]      [k |-> "a", v |-> sequence]           *)
(*   [k |-> "o", v |-> function]     [k |-> "z"] (null)                    *)
(***************************************************************************)
EXTENDS Num, Text, TLC

IsObj(j)  == j.k = "o"
Field(j, f) == IF IsObj(j) /\ f \in DOMAIN j.v THEN j.v[f] ELSE [k |-> "none"]
IsA(j, kind) == j.k = kind
Absent(j) == j.k = "none"

\* field f of j has kind `kind`, or (opt) is absent
OkF(j, f, kind, opt) == LET x == Field(j, f) IN x.k = kind \/ (opt /\ Absent(x))
NumF(j, f, d) == LET x == Field(j, f) IN IF x.k = "n" THEN x.v ELSE d
IntF(j, f, d) == LET x == Field(j, f) IN IF x.k = "n" THEN Trunc(x.v) ELSE d
StrF(j, f, d) == LET x == Field(j, f) IN IF x.k = "s" THEN x.v ELSE d
BoolF(j, f, d) == LET x == Field(j, f) IN IF x.k = "b" THEN x.v ELSE d
SeqF(j, f) == LET x == Field(j, f) IN IF x.k = "a" THEN x.v ELSE <<>>

AllKind(s, kind) == \A i \in 1..Len(s): s[i].k = kind
ListOk(j, f, kind, opt) ==
    LET x == Field(j, f) IN (opt /\ Absent(x)) \/ (x.k = "a" /\ AllKind(x.v, kind))

(* sensors *****************************************************************)
SensorOk(j) ==
    /\ IsObj(j)
    /\ OkF(j, "name", "s", FALSE) /\ OkF(j, "type", "s", FALSE)
    /\ OkF(j, "readPath", "s", FALSE) /\ OkF(j, "writePath", "s", TRUE)
    /\ OkF(j, "ignoreDbusMinMax", "b", TRUE) /\ OkF(j, "unavailableAsFailed", "b", TRUE)
    /\ OkF(j, "ignoreFailIfHostOff", "b", TRUE) /\ OkF(j, "timeout", "n", TRUE)
    /\ StrF(j, "type", "") = "fan" => OkF(j, "min", "n", TRUE) /\ OkF(j, "max", "n", TRUE)

SensorConf(j) ==
    LET fan == StrF(j, "type", "") = "fan"
    IN [type |-> StrF(j, "type", ""), rp |-> StrF(j, "readPath", ""),
        wp |-> StrF(j, "writePath", ""),
        min |-> IF fan THEN IntF(j, "min", 0) ELSE 0,
        max |-> IF fan THEN IntF(j, "max", 0) ELSE 0,
        tmo |-> IntF(j, "timeout", IF fan THEN 0 ELSE 2),
        ignmm |-> BoolF(j, "ignoreDbusMinMax", FALSE),
        uaf |-> BoolF(j, "unavailableAsFailed", TRUE),
        ignoff |-> BoolF(j, "ignoreFailIfHostOff", FALSE)]

(* controllers *************************************************************)
PidNums == <<"proportionalCoeff", "integralCoeff", "feedFwdOffsetCoeff", "feedFwdGainCoeff",
             "integralLimit_min", "integralLimit_max", "outLim_min", "outLim_max",
             "slewNeg", "slewPos">>
TableKeys == <<"0","1","2","3","4","5","6","7","8","9","10","11","12","13","14","15",
               "16","17","18","19">>

PidOk(j) ==
    /\ IsObj(j)
    /\ OkF(j, "name", "s", FALSE) /\ OkF(j, "type", "s", FALSE)
    /\ ListOk(j, "inputs", "s", FALSE) /\ OkF(j, "setpoint", "n", FALSE)
    /\ ListOk(j, "tempToMargin", "n", TRUE) /\ ListOk(j, "missingIsAcceptable", "s", TRUE)
    /\ OkF(j, "FailSafePercent", "n", TRUE)
    /\ OkF(j, "pid", "o", FALSE)
    /\ LET p == Field(j, "pid")
       IN /\ OkF(p, "checkHysteresisWithSetpoint", "b", TRUE)
          /\ OkF(p, "positiveHysteresis", "n", TRUE) /\ OkF(p, "negativeHysteresis", "n", TRUE)
          /\ OkF(p, "derivativeCoeff", "n", TRUE)
          /\ OkF(p, "samplePeriod", "n", FALSE)
          /\ IF StrF(j, "type", "") # "stepwise"
             THEN \A i \in 1..Len(PidNums): OkF(p, PidNums[i], "n", FALSE)
             ELSE /\ OkF(p, "isCeiling", "b", FALSE)
                  /\ \A i \in 1..20: /\ OkF(Field(p, "reading"), TableKeys[i], "n", TRUE)
                                     /\ OkF(Field(p, "output"), TableKeys[i], "n", TRUE)

TablePts(p) ==
    LET r == Field(p, "reading")
        o == Field(p, "output")
    IN [i \in 1..20 |-> <<NumF(r, TableKeys[i], NAN), NumF(o, TableKeys[i], NAN)>>]

Coeffs(p) ==
    [ts |-> NumF(p, "samplePeriod", 0), kp |-> NumF(p, "proportionalCoeff", 0),
     ki |-> NumF(p, "integralCoeff", 0), kd |-> NumF(p, "derivativeCoeff", 0),
     ffo |-> NumF(p, "feedFwdOffsetCoeff", 0), ffg |-> NumF(p, "feedFwdGainCoeff", 0),
     imin |-> NumF(p, "integralLimit_min", 0), imax |-> NumF(p, "integralLimit_max", 0),
     omin |-> NumF(p, "outLim_min", 0), omax |-> NumF(p, "outLim_max", 0),
     sneg |-> NumF(p, "slewNeg", 0), spos |-> NumF(p, "slewPos", 0),
     hpos |-> NumF(p, "positiveHysteresis", 0), hneg |-> NumF(p, "negativeHysteresis", 0),
     chk |-> BoolF(p, "checkHysteresisWithSetpoint", FALSE)]

NoCoeffs == [ts |-> 0, kp |-> 0, ki |-> 0, kd |-> 0, ffo |-> 0, ffg |-> 0, imin |-> 0, imax |-> 0,
             omin |-> 0, omax |-> 0, sneg |-> 0, spos |-> 0, hpos |-> 0, hneg |-> 0, chk |-> FALSE]
NoTable == [pts |-> <<>>, hpos |-> 0, hneg |-> 0, ceil |-> FALSE]

PidConf(j) ==
    LET ins  == MapSeq(LAMBDA x: x.v, SeqF(j, "inputs"))
        ttm  == SeqF(j, "tempToMargin")
        miss == {SeqF(j, "missingIsAcceptable")[i].v: i \in 1..Len(SeqF(j, "missingIsAcceptable"))}
        type == StrF(j, "type", "")
        p    == Field(j, "pid")
    IN [name |-> StrF(j, "name", ""), type |-> type,
        inputs |-> [i \in 1..Len(ins) |->
                      [n |-> ins[i], conv |-> i <= Len(ttm),
                       zero |-> IF i <= Len(ttm) THEN ttm[i].v ELSE NAN,
                       miss |-> ins[i] \in miss]],
        setpoint |-> NumF(j, "setpoint", 0), fsp |-> NumF(j, "FailSafePercent", 0),
        c |-> IF type = "stepwise" THEN NoCoeffs ELSE Coeffs(p),
        sw |-> IF type = "stepwise"
               THEN [pts |-> TablePts(p), hpos |-> NumF(p, "positiveHysteresis", 0),
                     hneg |-> NumF(p, "negativeHysteresis", 0), ceil |-> BoolF(p, "isCeiling", FALSE)]
               ELSE NoTable]

(* zones *******************************************************************)
ZoneOk(j) ==
    /\ IsObj(j)
    /\ OkF(j, "id", "n", FALSE) /\ OkF(j, "minThermalOutput", "n", FALSE)
    /\ OkF(j, "failsafePercent", "n", FALSE)
    /\ OkF(j, "cycleIntervalTimeMS", "n", TRUE) /\ OkF(j, "updateThermalsTimeMS", "n", TRUE)
    /\ OkF(j, "accumulateSetPoint", "b", TRUE)
    /\ OkF(j, "pids", "a", FALSE) /\ Len(SeqF(j, "pids")) > 0
    /\ \A i \in 1..Len(SeqF(j, "pids")): PidOk(SeqF(j, "pids")[i])

Interval(j, f, d) == LET v == IntF(j, f, d) IN IF v >= 1 THEN v ELSE d

\* PIDs in name order, the last of equal names standing
PidSeq(js, rank) ==
    LET names == {js[i].v["name"].v: i \in 1..Len(js)}
        last(n) == CHOOSE i \in 1..Len(js): js[i].v["name"].v = n
                     /\ \A k \in 1..Len(js): js[k].v["name"].v = n => k <= i
    IN MapSeq(LAMBDA n: PidConf(js[last(n)]), SortByRank(names, rank))

ZoneConf(j, rank) ==
    [minth |-> NumF(j, "minThermalOutput", 0), fsp |-> NumF(j, "failsafePercent", 0),
     acc |-> BoolF(j, "accumulateSetPoint", FALSE),
     fan |-> Interval(j, "cycleIntervalTimeMS", 100),
     therm |-> Interval(j, "updateThermalsTimeMS", 1000),
     pids |-> PidSeq(SeqF(j, "pids"), rank)]

(* the file ****************************************************************)
FileOk(j) ==
    /\ IsObj(j)
    /\ OkF(j, "sensors", "a", FALSE) /\ Len(SeqF(j, "sensors")) > 0
    /\ OkF(j, "zones", "a", FALSE) /\ Len(SeqF(j, "zones")) > 0
    /\ \A i \in 1..Len(SeqF(j, "sensors")): SensorOk(SeqF(j, "sensors")[i])
    /\ \A i \in 1..Len(SeqF(j, "zones")): ZoneOk(SeqF(j, "zones")[i])

FromJson(j, rank) ==
    LET ss == SeqF(j, "sensors")
        zs == SeqF(j, "zones")
        snames == {ss[i].v["name"].v: i \in 1..Len(ss)}
        zids == {IntF(zs[i], "id", 0): i \in 1..Len(zs)}
        lastS(n) == CHOOSE i \in 1..Len(ss): ss[i].v["name"].v = n
                      /\ \A k \in 1..Len(ss): ss[k].v["name"].v = n => k <= i
        lastZ(n) == CHOOSE i \in 1..Len(zs): IntF(zs[i], "id", 0) = n
                      /\ \A k \in 1..Len(zs): IntF(zs[k], "id", 0) = n => k <= i
    IN [bad |-> FALSE, sens |-> [n \in snames |-> SensorConf(ss[lastS(n)])],
        zones |-> [z \in zids |-> ZoneConf(zs[lastZ(z)], rank)]]
===========================================================================
