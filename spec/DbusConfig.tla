----------------------------- MODULE DbusConfig -----------------------------
(***************************************************************************)
(* Meaning of a configuration published on D-Bus, and which changes on the *)
(* bus make the daemon read it again.                                      *)
(***************************************************************************)
EXTENDS Daemon

IPid    == "xyz.openbmc_project.Configuration.Pid"
IZone   == "xyz.openbmc_project.Configuration.Pid.Zone"
IStep   == "xyz.openbmc_project.Configuration.Stepwise"
IThMode == "xyz.openbmc_project.Control.ThermalMode"
IObjMgr == "org.freedesktop.DBus.ObjectManager"
IAssoc  == "xyz.openbmc_project.Association"
IAssocD == "xyz.openbmc_project.Association.Definitions"
ConfigIfaces == {IPid, IZone, IStep}
SensorRoot == "/xyz/openbmc_project/sensors/"

(* attributes **************************************************************)
HasA(b, p) == p \in DOMAIN b
TypeA(b, p, sig) == HasA(b, p) /\ b[p].s = sig
NumA(b, p) == HasA(b, p) /\ b[p].s \in {"d", "x", "t", "b"}
OptA(b, p, sig) == HasA(b, p) => b[p].s = sig
OptN(b, p) == HasA(b, p) => NumA(b, p)
NumV(b, p, d) == IF ~HasA(b, p) THEN d
                 ELSE IF b[p].s = "b" THEN (IF b[p].v THEN U ELSE 0) ELSE b[p].v
ValV(b, p, d) == IF HasA(b, p) THEN b[p].v ELSE d

DbusName(s) == Subst(s, " ", "_")

(* name patterns ***********************************************************)
\* Regular expressions over literals, '.', and the postfix operators * and +,
\* matched from position i of s against pattern position j to the end of s.
RECURSIVE Match(_, _, _, _)
Match(s, pat, i, j) ==
    IF j > Len(pat) THEN i > Len(s)
    ELSE LET c    == SubSeq(pat, j, j)
             post == IF j < Len(pat) THEN SubSeq(pat, j + 1, j + 1) ELSE ""
             one  == i <= Len(s) /\ (c = "." \/ c = SubSeq(s, i, i))
         IN CASE post = "*" -> Match(s, pat, i, j + 2) \/ (one /\ Match(s, pat, i + 1, j))
              [] post = "+" -> one /\ (Match(s, pat, i + 1, j) \/ Match(s, pat, i + 1, j + 2))
              [] OTHER -> one /\ Match(s, pat, i + 1, j + 1)

\* the pattern, after a '/', matches the end of the path
Fits(path, pat) == \E i \in 1..Len(path): SubSeq(path, i, i) = "/" /\ Match(path, pat, i + 1, 1)

\* sensors a configuration may refer to: path -> interface
Visible(world) ==
    LET ok(p) == \/ IPwm \in DOMAIN world[p]
                 \/ IValue \in DOMAIN world[p] /\ ~HasSub(p, "pwm")
    IN [p \in {q \in DOMAIN world: ok(q)} |->
           IF IPwm \in DOMAIN world[p] THEN IPwm ELSE IValue]

\* paths a name refers to, in rank order (the implementation's order is unspecified)
Found(vis, name, rank) ==
    LET set == {p \in DOMAIN vis: Fits(p, DbusName(name))}
    IN SetToSortSeq(set, LAMBDA a, b: Get(rank, a, 0) < Get(rank, b, 0))
FoundAll(vis, names, rank) == Concat(MapSeq(LAMBDA n: Found(vis, n, rank), names))

ThermClass == {"temp", "margin", "power", "powersum"}
SensorPath(type, name) ==
    SensorRoot \o (CASE type = "fan" -> "fan_tach"
                     [] type \in {"temp", "margin"} -> "temperature"
                     [] type \in {"power", "powersum"} -> "power"
                     [] OTHER -> "unknown") \o "/" \o name


(* zones *******************************************************************)
ZoneObjOk(b) == /\ TypeA(b, "Name", "s") /\ NumA(b, "MinThermalOutput")
                /\ OptN(b, "FailSafePercent")
                /\ OptN(b, "CycleIntervalTimeMS") /\ OptN(b, "UpdateThermalsTimeMS")
                /\ OptA(b, "AccumulateSetPoint", "b")

DInterval(b, p, d) == LET v == NumV(b, p, 0) IN IF v >= U THEN Trunc(v) ELSE d
ZoneDetails(b) ==
    [minth |-> NumV(b, "MinThermalOutput", 0), fsp |-> NumV(b, "FailSafePercent", 0),
     acc |-> ValV(b, "AccumulateSetPoint", FALSE),
     fan |-> DInterval(b, "CycleIntervalTimeMS", 100),
     therm |-> DInterval(b, "UpdateThermalsTimeMS", 1000)]

\* Zone numbers: those asked for first (a taken number gives way to the next
\* free one), then the rest counted from zero; `order` is the order in which
\* names are met.
GrantIndex(taken, want) ==
    LET RECURSIVE up(_)
        up(i) == IF i \in taken THEN up(i + 1) ELSE i
    IN up(want)
Range1(f) == {f[x]: x \in DOMAIN f}
IndexFor(order, wanted) ==
    LET grant(acc, n, w) == IF n \in DOMAIN acc THEN acc
                            ELSE Put(acc, n, GrantIndex(Range1(acc), w))
        first == FoldLeft(LAMBDA a, n: IF n \in DOMAIN wanted THEN grant(a, n, wanted[n]) ELSE a,
                          EmptyFun, order)
    IN FoldLeft(LAMBDA a, n: grant(a, n, 0), first, order)

(* controllers *************************************************************)
OffsetTypes == {"CriticalLow", "CriticalHigh", "WarningLow", "WarningHigh"}
NumAttrs == {"PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient",
             "ILimitMax", "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos"}

PidHeadOk(b) == TypeA(b, "Name", "s") /\ TypeA(b, "Class", "s") /\ TypeA(b, "Zones", "as")
PidListsOk(b) ==
    /\ TypeA(b, "Inputs", "as") /\ OptA(b, "MissingIsAcceptable", "as")
    /\ b["Class"].v = "fan" => TypeA(b, "Outputs", "as")
    /\ OptA(b, "InputUnavailableAsFailed", "b") /\ OptA(b, "IgnoreFailIfHostOff", "b")
PidBodyOk(b) ==
    /\ OptA(b, "SetPointOffset", "s")
    /\ HasA(b, "SetPointOffset") => b["SetPointOffset"].v \in OffsetTypes
    /\ OptA(b, "TempToMargin", "ad")
    /\ b["Class"].v # "fan" => NumA(b, "SetPoint")
    /\ OptN(b, "FailSafePercent") /\ \A a \in NumAttrs: NumA(b, a)
    /\ OptA(b, "CheckHysteresisWithSetpoint", "b")
    /\ OptN(b, "NegativeHysteresis") /\ OptN(b, "PositiveHysteresis") /\ OptN(b, "DCoefficient")

\* what the lists of a PID object resolve to:
\* [ok, sens: name -> conf, names: input names in order, miss: acceptable names]
Resolve(b, vis, var, rank) ==
    LET cls  == b["Class"].v
        ins  == b["Inputs"].v
        macc == ValV(b, "MissingIsAcceptable", <<>>)
        uaf  == ValV(b, "InputUnavailableAsFailed", TRUE)
        ign  == ValV(b, "IgnoreFailIfHostOff", FALSE)
        conf(rp) == [type |-> cls, rp |-> rp, wp |-> "", min |-> 0, max |-> 0, tmo |-> 0,
                     ignmm |-> TRUE, uaf |-> uaf, ignoff |-> ign]
        in   == FoundAll(vis, ins, rank)
        out  == IF cls = "fan" THEN FoundAll(vis, b["Outputs"].v, rank) ELSE <<>>
        mi   == FoundAll(vis, macc, rank)
        lost == IF ~var.missing \/ cls = "fan" THEN <<>>
                ELSE SelectSeq(ins, LAMBDA n: Found(vis, n, rank) = <<>> /\ n \notin SetOf(macc))
        lostn == MapSeq(DbusName, lost)
        ifok == (\A i \in 1..Len(in): vis[in[i]] = IValue) /\ (\A i \in 1..Len(mi): vis[mi[i]] = IValue)
        one  == Len(out) = 1
        pair == one \/ Len(in) = Len(out)
        pwm(i) == IF one THEN out[1] ELSE out[i]
        fname(i) == BaseName(in[i]) \o BaseName(pwm(i))
        fanconf(i) == [type |-> "fan", rp |-> in[i], wp |-> pwm(i), min |-> 0, max |-> 255, tmo |-> 0,
                       ignmm |-> FALSE, uaf |-> FALSE, ignoff |-> FALSE]
        fansok == pair /\ \A i \in 1..Len(in): vis[pwm(i)] = IPwm
        isT  == cls \in ThermClass
        tnames == IF isT THEN MapSeq(BaseName, in) ELSE <<>>
        fnames == IF cls = "fan" THEN [i \in 1..Len(in) |-> fname(i)] ELSE <<>>
        accept == {BaseName(mi[i]): i \in 1..Len(mi)}
    IN IF ~ifok \/ (cls = "fan" /\ ~fansok)
       THEN [ok |-> FALSE, sens |-> EmptyFun, names |-> <<>>, miss |-> {}]
       ELSE IF cls = "fan"
       THEN [ok |-> TRUE,
             sens |-> [n \in SetOf(fnames) |-> fanconf(CHOOSE i \in 1..Len(in): fnames[i] = n
                           /\ \A k \in 1..Len(in): fnames[k] = n => k <= i)],
             names |-> fnames,
             miss |-> {fnames[i]: i \in {k \in 1..Len(in): BaseName(in[k]) \in accept}}]
       ELSE [ok |-> TRUE,
             sens |-> [n \in SetOf(lostn) \cup SetOf(tnames) |->
                          IF n \in SetOf(tnames) THEN conf(in[CHOOSE i \in 1..Len(in): tnames[i] = n])
                          ELSE conf(SensorPath(cls, n))],
             names |-> lostn \o tnames, miss |-> accept]

Splice(names, ttm, miss) ==
    [i \in 1..Len(names) |->
        [n |-> names[i], conv |-> i <= Len(ttm),
         zero |-> IF i <= Len(ttm) THEN ttm[i] ELSE NAN,
         miss |-> names[i] \in miss]]

DCoeffs(b) ==
    [ts |-> U, kp |-> NumV(b, "PCoefficient", 0), ki |-> NumV(b, "ICoefficient", 0),
     kd |-> NumV(b, "DCoefficient", 0), ffo |-> NumV(b, "FFOffCoefficient", 0),
     ffg |-> NumV(b, "FFGainCoefficient", 0), imin |-> NumV(b, "ILimitMin", 0),
     imax |-> NumV(b, "ILimitMax", 0), omin |-> NumV(b, "OutLimitMin", 0),
     omax |-> NumV(b, "OutLimitMax", 0), sneg |-> NumV(b, "SlewNeg", 0),
     spos |-> NumV(b, "SlewPos", 0), hpos |-> NumV(b, "PositiveHysteresis", 0),
     hneg |-> NumV(b, "NegativeHysteresis", 0),
     chk |-> ValV(b, "CheckHysteresisWithSetpoint", FALSE)]

IfaceOf(th) == IF th \in {"WarningHigh", "WarningLow"} THEN IWarn ELSE ICrit

\* a controller record; `off` is added to the set point
DPid(b, name, inputs, off) ==
    [name |-> name, type |-> b["Class"].v, inputs |-> inputs,
     setpoint |-> IF b["Class"].v = "fan" THEN off ELSE FAdd(NumV(b, "SetPoint", 0), off),
     fsp |-> NumV(b, "FailSafePercent", 0), c |-> DCoeffs(b), sw |-> NoTable]

\* all controllers of a PID object: [ok, sens, pids: name -> record]
\* (lost: the thresholds <<path, iface>> that could not be read, and count as zero)
PidObject(b, S, vis, lost) ==
    LET none == [ok |-> TRUE, sens |-> EmptyFun, pids |-> EmptyFun]
        bad  == [ok |-> FALSE, sens |-> EmptyFun, pids |-> EmptyFun]
    IN IF ~PidHeadOk(b) THEN bad
       ELSE IF b["Zones"].v = <<>> THEN none
       ELSE IF ~PidListsOk(b) THEN bad
       ELSE LET r == Resolve(b, vis, S.var, S.rank)
            IN IF ~r.ok THEN bad
               ELSE IF r.names = <<>> THEN [none EXCEPT !.sens = r.sens]
               ELSE IF ~PidBodyOk(b) THEN bad
               ELSE LET ins == Splice(r.names, ValV(b, "TempToMargin", <<>>), r.miss)
                        nm  == DbusName(b["Name"].v)
                    IN IF ~HasA(b, "SetPointOffset")
                       THEN [ok |-> TRUE, sens |-> r.sens, pids |-> (nm :> DPid(b, nm, ins, 0))]
                       ELSE LET th  == b["SetPointOffset"].v
                                if  == IfaceOf(th)
                                rp(n) == r.sens[n].rp
                                okn(n) == WHas(S.world, rp(n), if)
                                set == SetOf(r.names)
                                off(n) == IF <<rp(n), if>> \in lost THEN 0 ELSE WGet(S.world, rp(n), if, th, 0)
                                rec(n) == DPid(b, n, SelectSeq(ins, LAMBDA x: x.n = n), off(n))
                            IN IF \E n \in set: ~okn(n) THEN bad
                               ELSE [ok |-> TRUE, sens |-> r.sens, pids |-> [n \in set |-> rec(n)]]

(* stepwise controllers ****************************************************)
StepHeadOk(b) == TypeA(b, "Name", "s") /\ TypeA(b, "Zones", "as")
StepListsOk(b) == /\ TypeA(b, "Inputs", "as") /\ OptA(b, "MissingIsAcceptable", "as")
                  /\ OptA(b, "InputUnavailableAsFailed", "b") /\ OptA(b, "IgnoreFailIfHostOff", "b")
StepBodyOk(b) ==
    /\ OptA(b, "TempToMargin", "ad") /\ TypeA(b, "Class", "s")
    /\ OptN(b, "PositiveHysteresis") /\ OptN(b, "NegativeHysteresis")
    /\ TypeA(b, "Reading", "ad") /\ TypeA(b, "Output", "ad")
    /\ Len(b["Reading"].v) \in 1..20 /\ Len(b["Reading"].v) = Len(b["Output"].v)

\* without the missing-object option, inputs after the first unknown one are dropped
RECURSIVE KnownPrefix(_, _, _)
KnownPrefix(vis, names, rank) ==
    IF names = <<>> \/ Found(vis, Head(names), rank) = <<>> THEN <<>>
    ELSE <<Head(names)>> \o KnownPrefix(vis, Tail(names), rank)

StepObject(b, S, vis) ==
    LET none == [ok |-> TRUE, sens |-> EmptyFun, pids |-> EmptyFun]
        bad  == [ok |-> FALSE, sens |-> EmptyFun, pids |-> EmptyFun]
    IN IF ~StepHeadOk(b) THEN bad
       ELSE IF b["Zones"].v = <<>> THEN none
       ELSE IF ~StepListsOk(b) THEN bad
       ELSE
       LET macc == ValV(b, "MissingIsAcceptable", <<>>)
           uaf  == ValV(b, "InputUnavailableAsFailed", TRUE)
           ign  == ValV(b, "IgnoreFailIfHostOff", FALSE)
           conf(rp) == [type |-> "temp", rp |-> rp, wp |-> "", min |-> 0, max |-> 0, tmo |-> 0,
                        ignmm |-> TRUE, uaf |-> uaf, ignoff |-> ign]
           use  == IF S.var.missing THEN b["Inputs"].v ELSE KnownPrefix(vis, b["Inputs"].v, S.rank)
           part(n) == LET f == Found(vis, n, S.rank)
                      IN IF f # <<>> THEN MapSeq(LAMBDA p: <<BaseName(p), p>>, f)
                         ELSE IF n \in SetOf(macc) THEN <<>>
                         ELSE <<<<DbusName(n), SensorPath("temp", DbusName(n))>>>>
           all  == Concat(MapSeq(part, use))
           names == MapSeq(LAMBDA x: x[1], all)
           musee == IF S.var.missing THEN macc ELSE KnownPrefix(vis, macc, S.rank)
           miss == {BaseName(p): p \in SetOf(FoundAll(vis, musee, S.rank))}
           sens == [n \in SetOf(names) |->
                       conf(all[CHOOSE i \in 1..Len(all): all[i][1] = n
                                  /\ \A k \in 1..Len(all): all[k][1] = n => k <= i][2])]
           nm   == DbusName(b["Name"].v)
       IN IF all = <<>> THEN none
          ELSE IF ~StepBodyOk(b) THEN bad
          ELSE [ok |-> TRUE, sens |-> sens,
                pids |-> (nm :>
                  [name |-> nm, type |-> "stepwise",
                   inputs |-> Splice(names, ValV(b, "TempToMargin", <<>>), miss),
                   setpoint |-> 0, fsp |-> 0, c |-> NoCoeffs,
                   sw |-> [pts |-> [i \in 1..Len(b["Reading"].v) |-> <<b["Reading"].v[i], b["Output"].v[i]>>],
                           hpos |-> NumV(b, "PositiveHysteresis", 0),
                           hneg |-> NumV(b, "NegativeHysteresis", 0),
                           ceil |-> b["Class"].v = "Ceiling"]])]

(* the whole configuration *************************************************)
\* configuration objects after the thermal profile filter: path -> iface -> props
Selected(world) ==
    LET modes == {p \in DOMAIN world: IThMode \in DOMAIN world[p]}
        cur   == {world[p][IThMode]["Current"].v: p \in modes}
        keep(b) == ~HasA(b, "Profiles") \/ b["Profiles"].v = <<>> \/ SetOf(b["Profiles"].v) \cap cur # {}
        objs  == {p \in DOMAIN world: DOMAIN world[p] \cap ConfigIfaces # {}}
    IN [p \in objs |-> [i \in {j \in DOMAIN world[p] \cap ConfigIfaces:
                                  modes = {} \/ keep(world[p][j])} |-> world[p][i]]]
ProfilesOk(world) ==
    \A p \in DOMAIN world:
        /\ IThMode \in DOMAIN world[p] => "Current" \in DOMAIN world[p][IThMode]
        /\ \A i \in DOMAIN world[p] \cap ConfigIfaces: OptA(world[p][i], "Profiles", "as")

MergeFun(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN b THEN b[x] ELSE a[x]]
MergeAll(fs) == FoldLeft(MergeFun, EmptyFun, fs)

\* does a zone of the configuration agree with an observed one?
SameInputs(a, b) ==
    \* the order of sensors one pattern matched is unspecified
    Len(a) = Len(b) /\ \A i \in 1..Len(a): \E k \in 1..Len(b):
        a[i].n = b[k].n /\ a[i].miss = b[k].miss
        /\ \/ a[i].conv = b[k].conv /\ (~a[i].conv \/ Eq(a[i].zero, b[k].zero))
           \/ \E m \in 1..Len(a): a[m].conv
RECURSIVE SameTable(_, _, _)
SameTable(a, b, i) ==
    LET at(t) == IF i <= Len(t) THEN t[i] ELSE <<NAN, NAN>>
    IN IF i > 20 THEN TRUE
       ELSE Eq(at(a)[1], at(b)[1])
            /\ ((at(a)[1] = NAN /\ i > 1) \/ Eq(at(a)[2], at(b)[2]))
            /\ ((at(a)[1] = NAN /\ i > 1) \/ SameTable(a, b, i + 1))
SamePid(a, b, loose) ==
    /\ a.name = b.name /\ a.type = b.type /\ Eq(a.fsp, b.fsp)
    /\ IF loose THEN SameInputs(a.inputs, b.inputs)
       ELSE Len(a.inputs) = Len(b.inputs) /\ \A i \in 1..Len(a.inputs):
              /\ a.inputs[i].n = b.inputs[i].n /\ a.inputs[i].miss = b.inputs[i].miss
              /\ a.inputs[i].conv = b.inputs[i].conv
              /\ a.inputs[i].conv => Eq(a.inputs[i].zero, b.inputs[i].zero)
    /\ IF IsStep(a)
       THEN /\ a.sw.ceil = b.sw.ceil /\ Eq(a.sw.hpos, b.sw.hpos) /\ Eq(a.sw.hneg, b.sw.hneg)
            /\ SameTable(a.sw.pts, b.sw.pts, 1)
       ELSE /\ (IsFanPid(a) \/ Eq(a.setpoint, b.setpoint))
            /\ a.c.chk = b.c.chk
            /\ \A f \in DOMAIN a.c \ {"chk"}: Eq(a.c[f], b.c[f])
SameZone(a, b, loose) ==
    /\ Eq(a.minth, b.minth) /\ Eq(a.fsp, b.fsp) /\ a.acc = b.acc
    /\ a.fan = b.fan /\ a.therm = b.therm /\ Len(a.pids) = Len(b.pids)
    /\ \A i \in 1..Len(a.pids): SamePid(a.pids[i], b.pids[i], loose)
SameZones(zs, obs, loose) ==
    /\ DOMAIN zs = DOMAIN obs
    /\ \A z \in DOMAIN zs: SameZone(zs[z], obs[z], loose)

\* take over the order of inputs of an observed zone that agrees
TakeOrder(zs, obs) ==
    [z \in DOMAIN zs |->
        [zs[z] EXCEPT !.pids = [i \in 1..Len(@) |-> [@[i] EXCEPT !.inputs = obs[z].pids[i].inputs]]]]

\* the thresholds that are read for set points, in the order of their controllers
OffsetReads(S) ==
    LET conf == Selected(S.world)
        vis  == Visible(S.world)
        ps   == {p \in DOMAIN conf: /\ IPid \in DOMAIN conf[p] /\ HasA(conf[p][IPid], "SetPointOffset")
                                    /\ PidHeadOk(conf[p][IPid]) /\ PidListsOk(conf[p][IPid]) /\ PidBodyOk(conf[p][IPid])
                                    /\ conf[p][IPid]["Zones"].v # <<>>}
        one(p) == LET b == conf[p][IPid]
                      r == Resolve(b, vis, S.var, S.rank)
                  IN IF r.ok THEN MapSeq(LAMBDA n: <<r.sens[n].rp, IfaceOf(b["SetPointOffset"].v)>>, r.names) ELSE <<>>
    IN Concat(MapSeq(one, SetToSortSeq(ps, LAMBDA a, b: Get(S.rank, a, 0) < Get(S.rank, b, 0))))
\* [F, lost]
TakeOffsets(S) ==
    LET take(a, c) == LET f == TakeFault(a.F, "Get", c[1], c[2])
                      IN [F |-> f.F, lost |-> IF f.hit THEN a.lost \cup {c} ELSE a.lost]
        none == [F |-> S.faults, lost |-> {}]
    IN IF S.faults = <<>> \/ ~ProfilesOk(S.world) THEN none ELSE FoldLeft(take, none, OffsetReads(S))

\* the thermal modes are asked for one by one: [F, hit]
TakeModes(S) ==
    LET modes == {p \in DOMAIN S.world: IThMode \in DOMAIN S.world[p]}
        take(a, p) == IF a.hit THEN a ELSE TakeFault(a.F, "Get", p, IThMode)
    IN FoldLeft(take, [F |-> S.faults, hit |-> FALSE],
                SetToSortSeq(modes, LAMBDA a, b: Get(S.rank, a, 0) < Get(S.rank, b, 0)))

\* [res: "ok" | "wait" | "retry", sens, zones, bad]
ReadDbus(S, lost) ==
    LET W    == S.world
        conf == Selected(W)
        vis  == Visible(W)
        ps   == {p \in DOMAIN conf: IPid \in DOMAIN conf[p]}
        ss   == {p \in DOMAIN conf: IStep \in DOMAIN conf[p]}
        zs   == {p \in DOMAIN conf: IZone \in DOMAIN conf[p]}
        rk(set) == SetToSortSeq(set, LAMBDA a, b: Get(S.rank, a, 0) < Get(S.rank, b, 0))
        po   == [p \in ps |-> PidObject(conf[p][IPid], S, vis, lost)]
        so   == [p \in ss |-> StepObject(conf[p][IStep], S, vis)]
        ok   == /\ ProfilesOk(W)
                /\ \A p \in zs: ZoneObjOk(conf[p][IZone])
                /\ \A p \in ps: po[p].ok
                /\ \A p \in ss: so[p].ok
        names == {conf[p][IZone]["Name"].v: p \in zs}
                 \cup UNION {SetOf(conf[p][IPid]["Zones"].v): p \in ps}
                 \cup UNION {SetOf(conf[p][IStep]["Zones"].v): p \in ss}
        wanted == [n \in {conf[p][IZone]["Name"].v: p \in {q \in zs: TypeA(conf[q][IZone], "ZoneIndex", "d")}}
                     |-> LET p == CHOOSE p \in zs: conf[p][IZone]["Name"].v = n
                                                   /\ TypeA(conf[p][IZone], "ZoneIndex", "d")
                         IN Trunc(conf[p][IZone]["ZoneIndex"].v)]
        det(n) == ZoneDetails(conf[CHOOSE p \in zs: conf[p][IZone]["Name"].v = n][IZone])
        defd  == {conf[p][IZone]["Name"].v: p \in zs}
        used  == UNION {SetOf(conf[p][IPid]["Zones"].v): p \in ps}
                 \cup UNION {SetOf(conf[p][IStep]["Zones"].v): p \in ss}
        pids(n) == MergeAll(MapSeq(LAMBDA p: po[p].pids,
                        rk({p \in ps: n \in SetOf(conf[p][IPid]["Zones"].v)}))
                     \o MapSeq(LAMBDA p: so[p].pids,
                        rk({p \in ss: n \in SetOf(conf[p][IStep]["Zones"].v)})))
        sens  == MergeAll(MapSeq(LAMBDA p: po[p].sens, rk(ps)) \o MapSeq(LAMBDA p: so[p].sens, rk(ss)))
        zone(n) == LET d == det(n)
                       f == pids(n)
                   IN [minth |-> d.minth, fsp |-> d.fsp, acc |-> d.acc, fan |-> d.fan, therm |-> d.therm,
                       pids |-> MapSeq(LAMBDA x: f[x], SortByRank(DOMAIN f, S.rank))]
        \* zone numbering under every order of the names
        orders == {o \in [1..Cardinality(names) -> names]: Range1(o) = names}
        byname == [n \in used \cap defd |-> zone(n)]
        numbered(ix) == [i \in {ix[n]: n \in used \cap defd} |->
                            byname[CHOOSE n \in used \cap defd: ix[n] = i]]
        cands == {numbered(IndexFor(o, wanted)): o \in orders}
        hint  == S.hint
        fit   == {c \in cands: SameZones(c, hint, TRUE)}
    IN IF ~ok THEN [res |-> "retry"]
       ELSE IF used = {} \/ defd = {} THEN [res |-> "wait"]
       ELSE [res |-> "ok", sens |-> sens, bad |-> used \ defd # {},
             zones |-> IF fit # {} THEN TakeOrder(CHOOSE c \in fit: TRUE, hint)
                       ELSE CHOOSE c \in cands: TRUE]

DbusBuild(S) ==
    LET S1 == [S EXCEPT !.watch = TRUE]
        f1 == TakeFault(S1.faults, "GetSubTree", MapperPath, "/")
        S2 == [S1 EXCEPT !.faults = f1.F]
        kinds == {IObjMgr, IPwm, IValue} \cup ConfigIfaces
        any == \E p \in DOMAIN S.world: DOMAIN S.world[p] \cap kinds # {}
        cfg == \E p \in DOMAIN S.world: DOMAIN S.world[p] \cap ConfigIfaces # {}
        mgrs == {p \in DOMAIN S.world: IObjMgr \in DOMAIN S.world[p]}
        mgr == IF mgrs = {} THEN "" ELSE CHOOSE p \in mgrs: TRUE
        f2 == IF cfg THEN TakeFault(S2.faults, "GetManagedObjects", mgr, "") ELSE [F |-> S2.faults, hit |-> FALSE]
        S3 == [S2 EXCEPT !.faults = f2.F]
        f3 == TakeFault(S3.faults, "GetSubTree", MapperPath, "/")
        S3b == [S3 EXCEPT !.faults = f3.F]
        f4 == TakeModes(S3b)
        S3c == [S3b EXCEPT !.faults = f4.F]
        f5 == TakeOffsets(S3c)
        S4 == [S3c EXCEPT !.faults = f5.F]
        r  == ReadDbus(S4, f5.lost)
    IN IF f1.hit \/ ~any THEN [S |-> S2, res |-> "retry"]
       ELSE IF f2.hit THEN [S |-> S3, res |-> "retry"]
       ELSE IF f3.hit THEN [S |-> S3b, res |-> "retry"]
       ELSE IF f4.hit THEN [S |-> S3c, res |-> "retry"]
       ELSE IF r.res # "ok" THEN [S |-> S4, res |-> r.res]
       ELSE [S |-> S4, res |-> "ok",
             cfg |-> [sens |-> r.sens, zones |-> r.zones, bad |-> r.bad]]

(* what makes it read the configuration again ******************************)
InNamespace(i, ns) == i = ns \/ StartsWith(i, ns \o ".")
ConfigTouched(S, op) ==
    IF S.watch /\ \E ns \in ConfigIfaces \cup {IThMode}: InNamespace(op.iface, ns)
    THEN [S EXCEPT !.life.cfgt = S.now + 2000] ELSE S
ObjectAdded(S, op) ==
    IF S.watch /\ StartsWith(op.path, SensorRoot)
       /\ (DOMAIN op.ifaces = {} \/ DOMAIN op.ifaces \ {IAssoc, IAssocD} # {})
    THEN [S EXCEPT !.life.cfgt = S.now + 2000] ELSE S
ObjectRemoved(S, op) ==
    IF S.watch /\ StartsWith(op.path, SensorRoot)
    THEN [S EXCEPT !.life.cfgt = S.now + 2000] ELSE S
=============================================================================
