-------------------------------- MODULE Ipmi --------------------------------
(***************************************************************************)
(* Requests from clients: D-Bus properties of the zones, controllers and   *)
(* external sensors, the IPMI OEM command, and the setsensor tool.         *)
(*                                                                         *)
(* Every request adds a result to S.res:                                   *)
(*   [k, ids (properties the result speaks for), ...]                      *)
(***************************************************************************)
EXTENDS Daemon

ZonePath(z) == "/xyz/openbmc_project/settings/fanctrl/zone" \o ToString(z)
PidPath(z, name) == ZonePath(z) \o "/" \o name

ZonesAt(s, path) == {z \in DOMAIN s.zones: ZonePath(z) = path}
PidsAt(s, path) ==
    UNION {{<<z, n>>: n \in {m \in DOMAIN s.zones[z].en: PidPath(z, m) = path}}: z \in DOMAIN s.zones}

Result(s, r) == [s EXCEPT !.res = Append(@, r)]
CallOk(s, ids)   == Result(s, [k |-> "call", ids |-> ids, ok |-> TRUE, t |-> "", v |-> 0])
CallBad(s, ids)  == Result(s, [k |-> "call", ids |-> ids, ok |-> FALSE, t |-> "", v |-> 0])
CallVal(s, ids, t, v) == Result(s, [k |-> "call", ids |-> ids, ok |-> TRUE, t |-> t, v |-> v])

\* write a property: [path, iface, prop, s (signature), v]
SetProp(s, op) ==
    LET zs == ZonesAt(s, op.path)
        ps == PidsAt(s, op.path)
        es == ExtNames(s, op.path)
    IN CASE op.iface = IMode ->
              IF zs = {} \/ op.prop # "Manual" \/ op.s # "b"
              THEN CallBad(s, IF op.prop = "FailSafe" THEN {"C02"} ELSE {"C11"})
              ELSE CallOk(SetManual(s, CHOOSE z \in zs: TRUE, op.v), {"C11"})
         [] op.iface = IEnable ->
              IF ps = {} \/ op.prop # "Enabled" \/ op.s # "b" THEN CallBad(s, {"C20"})
              ELSE LET p == CHOOSE p \in ps: TRUE
                   IN CallOk([s EXCEPT !.zones[p[1]].en[p[2]] = op.v], {"C20"})
         [] op.iface = IValue ->
              IF es = {} \/ op.prop # "Value" \/ op.s # "d" THEN CallBad(s, {"C22"})
              ELSE CallOk(WriteExt(s, op.path, op.v), {"C22"})
         [] OTHER -> CallBad(s, {})

GetProp(s, op) ==
    LET zs == ZonesAt(s, op.path)
        ps == PidsAt(s, op.path)
        es == ExtNames(s, op.path)
        z  == s.zones[CHOOSE z \in zs: TRUE]
        p  == CHOOSE p \in ps: TRUE
        d  == s.zones[p[1]].dbg[p[2]]
    IN CASE zs # {} /\ op.iface = IMode /\ op.prop = "Manual" -> CallVal(s, {"C11"}, "b", z.man)
         [] zs # {} /\ op.iface = IMode /\ op.prop = "FailSafe" -> CallVal(s, {"C02"}, "b", InFs(z))
         [] zs # {} /\ op.iface = IZoneDbg /\ op.prop = "Leader" -> CallVal(s, {"C23"}, "s", z.who)
         [] ps # {} /\ op.iface = IEnable /\ op.prop = "Enabled" ->
              CallVal(s, {"C20"}, "b", s.zones[p[1]].en[p[2]])
         [] ps # {} /\ op.iface = IProcess /\ op.prop = "Input" -> CallVal(s, {"C23"}, "n", d.in)
         [] ps # {} /\ op.iface = IProcess /\ op.prop = "Output" -> CallVal(s, {"C23"}, "n", d.out)
         [] ps # {} /\ op.iface = IProcess /\ op.prop = "Leader" -> CallVal(s, {"C23"}, "s", d.lead)
         [] es # {} /\ op.iface = IValue /\ op.prop = "Value" ->
              CallVal(s, {"C22"}, "n", s.sens[CHOOSE n \in es: TRUE].v)
         [] OTHER -> CallBad(s, {})

(* IPMI ********************************************************************)
CcOk == 0
CcInvalid == 193
GetManual == 0
SetManualCmd == 1
GetFailsafe == 2

\* the OEM command: bytes <<command, zone, value>>
IpmiRequest(s, op) ==
    LET b    == op.bytes
        n    == Len(b)
        ans(cc, reply) == [k |-> "ipmi", ids |-> {"C18"}, cc |-> cc, reply |-> reply]
        zs   == ZonesAt(s, "/xyz/openbmc_project/settings/fanctrl/zone" \o ToString(b[2]))
        z    == CHOOSE z \in zs: TRUE
        flag(x) == <<IF x THEN 1 ELSE 0>>
        \* the daemon may fail to answer when it is asked for the mode
        f    == TakeFault(s.faults, "GetAll", "/xyz/openbmc_project/settings/fanctrl/zone" \o ToString(b[2]), IMode)
        t    == [s EXCEPT !.faults = f.F]
    IN IF n < 2 THEN Result(s, ans(CcInvalid, <<>>))
       ELSE CASE b[1] = GetManual ->
                   Result(t, IF zs = {} \/ f.hit THEN ans(CcInvalid, <<>>) ELSE ans(CcOk, flag(s.zones[z].man)))
              [] b[1] = GetFailsafe ->
                   Result(t, IF zs = {} \/ f.hit THEN ans(CcInvalid, <<>>) ELSE ans(CcOk, flag(InFs(s.zones[z]))))
              [] b[1] = SetManualCmd ->
                   IF n < 3 THEN Result(s, ans(CcInvalid, <<>>))
                   ELSE Result(IF zs = {} THEN s ELSE SetManual(s, z, b[3] # 0), ans(CcOk, <<>>))
              [] OTHER -> Result(s, ans(CcInvalid, <<>>))

\* setsensor puts zone 1 in manual mode; its other write has the wrong type
SetSensorTool(s) == IF 1 \in DOMAIN s.zones THEN SetManual(s, 1, TRUE) ELSE s

ResOk(p, o) ==
    IF p.k # o.k THEN FALSE
    ELSE CASE p.k = "ipmi" -> p.cc = o.cc /\ (p.reply = <<>> \/ p.reply = o.reply)
           [] OTHER -> /\ p.ok = o.ok
                       /\ p.ok /\ p.t # "" =>
                            /\ p.t = o.t
                            /\ IF p.t = "n" THEN Eq(p.v, o.v)
                               ELSE (p.t = "s" /\ p.v = "?") \/ p.v = o.v
=============================================================================
